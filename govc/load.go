package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPrefix = "github.com/Symantec/tricorder/"

// Program is the repository loaded from source, with SSA for its packages.
type Program struct {
	Root  string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // import path -> package (repository packages)
	Types map[string]*types.Package
	Infos map[string]*types.Info
	Files map[string][]*ast.File
	std   types.ImporterFrom
	// facts from whole-program scans
	storedGlobals map[*ssa.Global]bool // stored outside init
	funcIdx       map[string]*ssa.Function
}

type repoImporter struct{ p *Program }

func (r repoImporter) Import(path string) (*types.Package, error) { return r.ImportFrom(path, "", 0) }
func (r repoImporter) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if strings.HasPrefix(path, modPrefix) {
		if err := r.p.load(path); err != nil {
			return nil, err
		}
		return r.p.Types[path], nil
	}
	pkg, err := r.p.std.ImportFrom(path, r.p.Root, mode)
	if err == nil {
		r.p.Types[path] = pkg
	}
	return pkg, err
}

func (p *Program) load(path string) error {
	if _, ok := p.Types[path]; ok {
		return nil
	}
	dir := filepath.Join(p.Root, strings.TrimPrefix(path, modPrefix))
	bctx := build.Default
	bctx.GOOS = "linux"
	bctx.GOARCH = "amd64"
	bctx.CgoEnabled = false
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	var files []*ast.File
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := bctx.MatchFile(dir, n)
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	if len(files) == 0 {
		return fmt.Errorf("no Go files in %s", dir)
	}
	info := &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Instances:    map[*ast.Ident]types.Instance{},
		Scopes:       map[ast.Node]*types.Scope{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: repoImporter{p}, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(path, p.Fset, files, info)
	if err != nil {
		return err
	}
	p.Types[path] = pkg
	p.Infos[path] = info
	p.Files[path] = files
	return nil
}

// Load type-checks the given repository packages (import paths) and builds SSA.
func Load(root string, paths []string) (*Program, error) {
	os.Setenv("GO111MODULE", "off")
	os.Setenv("GOFLAGS", "")
	os.Setenv("GOWORK", "off")
	os.Setenv("CGO_ENABLED", "0")
	build.Default.CgoEnabled = false
	build.Default.GOOS = "linux"
	build.Default.GOARCH = "amd64"
	if gr := os.Getenv("GOVC_GOROOT"); gr != "" {
		build.Default.GOROOT = gr
	}
	fset := token.NewFileSet()
	p := &Program{Root: root, Fset: fset, Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{},
		Infos: map[string]*types.Info{}, Files: map[string][]*ast.File{}, storedGlobals: map[*ssa.Global]bool{}}
	p.std = importer.ForCompiler(fset, "source", nil).(types.ImporterFrom)
	for _, path := range paths {
		if err := p.load(path); err != nil {
			return nil, err
		}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createAll func(pkg *types.Package)
	createAll = func(pkg *types.Package) {
		if created[pkg] {
			return
		}
		created[pkg] = true
		for _, imp := range pkg.Imports() {
			createAll(imp)
		}
		if files, ok := p.Files[pkg.Path()]; ok {
			p.Pkgs[pkg.Path()] = prog.CreatePackage(pkg, files, p.Infos[pkg.Path()], true)
		} else {
			prog.CreatePackage(pkg, nil, nil, true)
		}
	}
	var names []string
	for path := range p.Files {
		names = append(names, path)
	}
	sort.Strings(names)
	for _, n := range names {
		createAll(p.Types[n])
	}
	p.Prog = prog
	for _, n := range names {
		p.Pkgs[n].Build()
	}
	p.scanGlobals()
	return p, nil
}

// allFuncs returns every function of the repository packages with a body.
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for k := range p.Pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		pkg := p.Pkgs[k]
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pkg.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.Prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Synthetic == "package initializer"
}

// scanGlobals records globals that are written (or have their address taken
// for something other than a load) outside package initialisers.
func (p *Program) scanGlobals() {
	for _, f := range p.allFuncs() {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, op := range ops {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// conservatively treated as mutable
					case *ssa.Store:
						_ = i
					}
					p.storedGlobals[g] = true
				}
			}
		}
	}
}
