package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// ---------- specification database ----------

type Clause struct {
	Props []string
	Label string
	Src   string
	E     ast.Expr
	At    string
}

type InvClause struct {
	Props []string
	Vars  []specVar
	E     ast.Expr
	Src   string
	Must  bool // maintains: the function's own loop must keep it
}

type specVar struct{ Name, Type string }

type Contract struct {
	Name         string
	Params       []string
	Results      []string
	Props        []string // properties this function is a root of
	Requires     []Clause
	Ensures      []Clause
	PanicWhen    []Clause
	PanicEnsures []Clause
	Modifies     []Clause
	Invs         []InvClause
	Assumes      []Clause // explicit assumptions, listed in evidence
	HasPanics    bool
	MayPanic     bool
	Extern       bool // trusted, body not in the repository
	Trusted      bool // trusted although body exists
	Pure         bool
	Unroll       int
	Atomic       bool
	Inline       bool
	Mode         map[string]string
	At           string
	Optional     bool
	ModAll       bool
	Uses         []string // manual lemmas
	After        []Clause // closures run after the body, before the postconditions
}

type Pred struct {
	Name   string
	Params []string
	E      ast.Expr
}

type FunSpec struct {
	Name string
	Args []string
	Res  string
	Vars []string // parameter names of a recursive definition
	Def  ast.Expr // its body
}

type Lemma struct {
	Name     string
	Vars     []specVar
	Induct   string
	Requires []Clause
	Ensures  []Clause
	Trigger  []ast.Expr
	At       string
	For      []string // fun symbols it is attached to
	Props    []string // verified for these properties even when nothing uses it
	Uses     []string // manual lemmas (mode manual) it may use
	Mode     map[string]string
}

type Guard struct {
	Type   string // e.g. tricorder.distribution or global package name
	Lock   string
	Fields []string
	Global bool
	Props  []string
}

type SpecDB struct {
	Contracts  map[string]*Contract
	Order      []string
	Preds      map[string]*Pred
	Funs       map[string]*FunSpec
	Axioms     []Clause
	AxFor      [][]string
	Lemmas     []*Lemma
	Guards     []*Guard
	Ghosts     map[string]string
	TypedGhost map[string]string
	AllocGhost map[string]string // type -> ghost set of its objects (ghost NAME set(T))
}

func newSpecDB() *SpecDB {
	return &SpecDB{Contracts: map[string]*Contract{}, Preds: map[string]*Pred{}, Funs: map[string]*FunSpec{}, Ghosts: map[string]string{}, AllocGhost: map[string]string{}, TypedGhost: map[string]string{}}
}

var keywords = map[string]bool{"func": true, "extern": true, "trusted": true, "requires": true, "ensures": true, "panics": true,
	"panic_ensures": true, "modifies": true, "inv": true, "pred": true, "fun": true, "axiom": true, "lemma": true, "guard": true,
	"ghost": true, "mode": true, "unroll": true, "atomic": true, "pure": true, "prop": true, "maypanic": true, "trigger": true,
	"inline": true, "assume": true, "induction": true, "optional": true, "after": true, "def": true, "modifies_all": true, "uses": true, "maintains": true}

var headRe = regexp.MustCompile(`^([a-z_]+)(\[[A-Z0-9, ]*\])?(\s|$)`)

func (db *SpecDB) LoadDir(dir string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := db.LoadFile(f); err != nil {
			return err
		}
	}
	return nil
}

var variantRe = regexp.MustCompile(`@(C[0-9]+(?:,C[0-9]+)+)`)

// expandVariants writes a contract for several properties (name@C13,C14) out
// as one contract per property.
func expandVariants(items []specItem) []specItem {
	var out []specItem
	for i := 0; i < len(items); {
		j := i + 1
		top := func(k string) bool {
			switch k {
			case "func", "extern", "trusted", "pred", "fun", "def", "axiom", "lemma", "guard", "ghost":
				return true
			}
			return false
		}
		for j < len(items) && !top(items[j].kw) {
			j++
		}
		var vs []string
		switch items[i].kw {
		case "func", "extern", "trusted":
			if m := variantRe.FindStringSubmatch(items[i].body); m != nil {
				vs = strings.Split(m[1], ",")
			}
		}
		if vs == nil {
			out = append(out, items[i:j]...)
		}
		for _, v := range vs {
			h := items[i]
			h.body = variantRe.ReplaceAllString(h.body, "@"+v)
			out = append(out, h)
			for _, it := range items[i+1 : j] {
				if it.kw == "prop" {
					it.body = v
				}
				out = append(out, it)
			}
		}
		i = j
	}
	return out
}

type specItem struct {
	kw    string
	props []string
	body  string
	at    string
}

func (db *SpecDB) LoadFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var items []specItem
	for i, line := range strings.Split(string(data), "\n") {
		if j := strings.Index(line, "#"); j >= 0 && (j == 0 || line[j-1] == ' ' || line[j-1] == '\t') {
			line = line[:j]
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		m := headRe.FindStringSubmatch(t)
		if m != nil && keywords[m[1]] {
			var props []string
			if m[2] != "" {
				for _, p := range strings.Split(strings.Trim(m[2], "[]"), ",") {
					props = append(props, strings.TrimSpace(p))
				}
			}
			items = append(items, specItem{m[1], props, strings.TrimSpace(t[len(m[0]):]), fmt.Sprintf("%s:%d", filepath.Base(file), i+1)})
			continue
		}
		if len(items) == 0 {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
		items[len(items)-1].body += " " + t
	}
	items = expandVariants(items)
	var cur *Contract
	var curL *Lemma
	for _, it := range items {
		mk := func(body string) Clause {
			label := ""
			if m := regexp.MustCompile(`^([a-zA-Z0-9_\-]+):\s+`).FindStringSubmatch(body); m != nil {
				label = m[1]
				body = body[len(m[0]):]
			}
			e, err := parseSpecExpr(body)
			if err != nil {
				panic(fmt.Sprintf("%s: %v in %q", it.at, err, body))
			}
			if label == "" {
				label = it.at
			}
			return Clause{it.props, label, body, e, it.at}
		}
		switch it.kw {
		case "func", "extern", "trusted":
			name, params, results, err := parseHeader(it.body)
			if err != nil {
				return fmt.Errorf("%s: %v", it.at, err)
			}
			cur = &Contract{Name: name, Params: params, Results: results, Extern: it.kw == "extern", Trusted: it.kw == "trusted", Mode: map[string]string{}, At: it.at}
			curL = nil
			if db.Contracts[name] != nil {
				return fmt.Errorf("%s: duplicate contract for %s", it.at, name)
			}
			db.Contracts[name] = cur
			db.Order = append(db.Order, name)
		case "requires":
			if curL != nil {
				curL.Requires = append(curL.Requires, mk(it.body))
			} else {
				cur.Requires = append(cur.Requires, mk(it.body))
			}
		case "ensures":
			if curL != nil {
				curL.Ensures = append(curL.Ensures, mk(it.body))
			} else {
				cur.Ensures = append(cur.Ensures, mk(it.body))
			}
		case "assume":
			cur.Assumes = append(cur.Assumes, mk(it.body))
		case "panics":
			cur.HasPanics = true
			cur.PanicWhen = append(cur.PanicWhen, mk(it.body))
		case "panic_ensures":
			cur.PanicEnsures = append(cur.PanicEnsures, mk(it.body))
		case "after":
			cur.After = append(cur.After, mk(it.body))
		case "maypanic":
			cur.MayPanic = true
		case "modifies_all":
			cur.ModAll = true
		case "optional":
			cur.Optional = true
		case "modifies":
			for _, part := range splitTop(it.body, ',') {
				cur.Modifies = append(cur.Modifies, mk(strings.TrimSpace(part)))
			}
		case "maintains":
			cl := mk(it.body)
			cur.Invs = append(cur.Invs, InvClause{it.props, nil, cl.E, cl.Src, true})
		case "inv":
			body := it.body
			var vars []specVar
			if strings.HasPrefix(body, "<") {
				j := strings.Index(body, ">")
				for _, v := range strings.Split(body[1:j], ",") {
					fs := strings.Fields(v)
					vars = append(vars, specVar{fs[0], strings.Join(fs[1:], " ")})
				}
				body = strings.TrimSpace(body[j+1:])
			}
			cl := mk(body)
			cur.Invs = append(cur.Invs, InvClause{it.props, vars, cl.E, cl.Src, false})
		case "pred":
			eq := strings.Index(it.body, "=")
			name, params, _, err := parseHeader(strings.TrimSpace(it.body[:eq]))
			if err != nil {
				return fmt.Errorf("%s: %v", it.at, err)
			}
			e, err := parseSpecExpr(it.body[eq+1:])
			if err != nil {
				return fmt.Errorf("%s: %v", it.at, err)
			}
			if db.Preds[name] != nil {
				return fmt.Errorf("%s: pred %s declared twice", it.at, name)
			}
			db.Preds[name] = &Pred{name, params, e}
		case "fun":
			j := strings.Index(it.body, "(")
			k := strings.LastIndex(it.body, ")")
			// fun name(a, b) res
			depth := 0
			for i := j; i < len(it.body); i++ {
				if it.body[i] == '(' {
					depth++
				} else if it.body[i] == ')' {
					depth--
					if depth == 0 {
						k = i
						break
					}
				}
			}
			f := &FunSpec{Name: strings.TrimSpace(it.body[:j]), Res: strings.TrimSpace(it.body[k+1:])}
			for _, a := range splitTop(it.body[j+1:k], ',') {
				if a = strings.TrimSpace(a); a != "" {
					f.Args = append(f.Args, a)
				}
			}
			if db.Funs[f.Name] != nil {
				return fmt.Errorf("%s: %s declared twice", it.at, f.Name)
			}
			db.Funs[f.Name] = f
		case "def":
			// def name(a sort, b sort) sort = body: a recursive definition, unfolded once per use
			eq := strings.Index(it.body, " = ")
			head := it.body[:eq]
			j, k := strings.Index(head, "("), strings.LastIndex(head, ")")
			if r := strings.TrimSpace(head[k+1:]); r == "" {
				// the result sort has parentheses itself
				depth := 0
				for i := j; i < len(head); i++ {
					if head[i] == '(' {
						depth++
					} else if head[i] == ')' {
						if depth--; depth == 0 {
							k = i
							break
						}
					}
				}
			}
			f := &FunSpec{Name: strings.TrimSpace(head[:j]), Res: strings.TrimSpace(head[k+1:])}
			for _, a := range splitTop(head[j+1:k], ',') {
				fs := strings.Fields(strings.TrimSpace(a))
				f.Vars = append(f.Vars, fs[0])
				f.Args = append(f.Args, strings.Join(fs[1:], " "))
			}
			e, err := parseSpecExpr(it.body[eq+3:])
			if err != nil {
				return fmt.Errorf("%s: %v", it.at, err)
			}
			f.Def = e
			if db.Funs[f.Name] != nil {
				return fmt.Errorf("%s: %s declared twice", it.at, f.Name)
			}
			db.Funs[f.Name] = f
		case "axiom":
			cl := mk(it.body)
			db.Axioms = append(db.Axioms, cl)
			db.AxFor = append(db.AxFor, funsIn(cl.E))
		case "lemma":
			j := strings.Index(it.body, "(")
			k := strings.LastIndex(it.body, ")")
			l := &Lemma{Name: strings.TrimSpace(it.body[:j]), At: it.at, Mode: map[string]string{}}
			for _, v := range splitTop(it.body[j+1:k], ',') {
				fs := strings.Fields(strings.TrimSpace(v))
				l.Vars = append(l.Vars, specVar{fs[0], strings.Join(fs[1:], " ")})
			}
			curL = l
			db.Lemmas = append(db.Lemmas, l)
		case "induction":
			curL.Induct = it.body
		case "trigger":
			for _, part := range splitTop(it.body, ',') {
				curL.Trigger = append(curL.Trigger, mk(strings.TrimSpace(part)).E)
			}
		case "guard":
			// guard tricorder.distribution lock: f1 f2   |  guard global healthserver.mutex: a b
			parts := strings.SplitN(it.body, ":", 2)
			h := strings.Fields(parts[0])
			g := &Guard{Fields: strings.Fields(parts[1]), Props: it.props}
			if h[0] == "global" {
				g.Global = true
				g.Lock = h[1]
			} else {
				g.Type, g.Lock = h[0], h[1]
			}
			db.Guards = append(db.Guards, g)
		case "ghost":
			fs := strings.Fields(it.body)
			gt := strings.Join(fs[1:], " ")
			if strings.HasPrefix(gt, "set(") {
				// the set of all objects of that type ever allocated
				db.AllocGhost[gt[4:len(gt)-1]] = fs[0]
				gt = "map(int,bool)"
			} else if strings.HasPrefix(gt, "typedset(") {
				// the same, and every pointer to that type points into the set
				db.AllocGhost[gt[9:len(gt)-1]] = fs[0]
				db.TypedGhost[gt[9:len(gt)-1]] = fs[0]
				gt = "map(int,bool)"
			}
			db.Ghosts[fs[0]] = gt
		case "mode":
			for _, f := range strings.Fields(it.body) {
				kv := strings.SplitN(f, "=", 2)
				v := "1"
				if len(kv) == 2 {
					v = kv[1]
				}
				if curL != nil {
					curL.Mode[kv[0]] = v
				} else {
					cur.Mode[kv[0]] = v
				}
			}
		case "unroll":
			fmt.Sscanf(it.body, "%d", &cur.Unroll)
		case "atomic":
			cur.Atomic = true
		case "pure":
			cur.Pure = true
		case "inline":
			cur.Inline = true
		case "uses":
			if curL != nil {
				curL.Uses = append(curL.Uses, strings.Fields(it.body)...)
			} else {
				cur.Uses = append(cur.Uses, strings.Fields(it.body)...)
			}
		case "prop":
			if curL != nil {
				curL.Props = append(curL.Props, strings.Fields(it.body)...)
				break
			}
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(it.body, ",", " "))...)
		}
	}
	for _, l := range db.Lemmas {
		l.For = nil
		for _, e := range l.Ensures {
			l.For = append(l.For, funsIn(e.E)...)
		}
	}
	return nil
}

func funsIn(e ast.Expr) []string {
	var out []string
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				out = append(out, id.Name)
			}
		}
		return true
	})
	return out
}

// parseHeader parses "(*pkg.T).name(a, b) (r1, r2)".
func parseHeader(s string) (name string, params, results []string, err error) {
	s = strings.TrimSpace(s)
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return "", nil, nil, fmt.Errorf("bad header %q", s)
	}
	j += i
	name = strings.TrimSpace(s[:j])
	k := strings.Index(s[j:], ")")
	if k < 0 {
		return "", nil, nil, fmt.Errorf("bad header %q", s)
	}
	k += j
	for _, p := range strings.Split(s[j+1:k], ",") {
		if p = strings.TrimSpace(p); p != "" {
			params = append(params, strings.Fields(p)[0])
		}
	}
	rest := strings.TrimSpace(s[k+1:])
	rest = strings.Trim(rest, "()")
	for _, p := range strings.Split(rest, ",") {
		if p = strings.TrimSpace(p); p != "" {
			results = append(results, strings.Fields(p)[0])
		}
	}
	return
}

func splitTop(s string, sep byte) []string {
	var out []string
	depth, last := 0, 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if inStr != 0 {
			if ch == '\\' {
				i++
			} else if ch == inStr {
				inStr = 0
			}
			continue
		}
		switch ch {
		case '"', '`', '\'':
			inStr = ch
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		default:
			if ch == sep && depth == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

// desugar rewrites ==> and <==> into calls.
func desugar(s string) string {
	if p := splitTop(s, ','); len(p) > 1 {
		for i := range p {
			p[i] = desugar(p[i])
		}
		return strings.Join(p, ",")
	}
	depth := 0
	inStr := byte(0)
	iff, imp := -1, -1
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if inStr != 0 {
			if ch == '\\' {
				i++
			} else if ch == inStr {
				inStr = 0
			}
			continue
		}
		switch ch {
		case '"', '`', '\'':
			inStr = ch
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 {
			if strings.HasPrefix(s[i:], "<==>") {
				if iff < 0 {
					iff = i
				}
				i += 3
			} else if strings.HasPrefix(s[i:], "==>") && imp < 0 {
				imp = i
				i += 2
			}
		}
	}
	if iff >= 0 {
		return "iff(" + desugar(s[:iff]) + "," + desugar(s[iff+4:]) + ")"
	}
	if imp >= 0 {
		return "imp(" + desugar(s[:imp]) + "," + desugar(s[imp+3:]) + ")"
	}
	// recurse into groups
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' || ch == '`' || ch == '\'' {
			j := i + 1
			for j < len(s) && s[j] != ch {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j
			continue
		}
		if ch == '(' || ch == '[' {
			d := 0
			j := i
			in := byte(0)
			for ; j < len(s); j++ {
				if in != 0 {
					if s[j] == '\\' {
						j++
					} else if s[j] == in {
						in = 0
					}
					continue
				}
				if s[j] == '"' || s[j] == '`' || s[j] == '\'' {
					in = s[j]
				}
				if s[j] == '(' || s[j] == '[' {
					d++
				}
				if s[j] == ')' || s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return s
			}
			sb.WriteByte(ch)
			sb.WriteString(desugar(s[i+1 : j]))
			sb.WriteByte(s[j])
			i = j
			continue
		}
		sb.WriteByte(ch)
	}
	return sb.String()
}

func parseSpecExpr(s string) (ast.Expr, error) {
	return parser.ParseExpr(desugar(strings.TrimSpace(s)))
}

// ---------- evaluation ----------

// SV is a typed specification value. T nil means mathematical.
type SV struct {
	V Val
	T types.Type
}

type SpecEnv struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]SV
	pkg   *types.Package
	facts *[]*Term
	pre   *State // state before the current loop
	inner string // the definition being unfolded
}

func (e *SpecEnv) with(name string, v SV) *SpecEnv {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = v
	return &n
}

func (e *SpecEnv) at(st *State) *SpecEnv {
	n := *e
	n.st = st
	return &n
}

func specErr(f string, a ...interface{}) { panic(unsupported{"spec: " + fmt.Sprintf(f, a...)}) }

func (e *SpecEnv) Bool(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.V.(*Term)
	if !ok || t.S != SBool {
		specErr("boolean expected in %s, got %v", exprStr(ex), v.V)
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (e *SpecEnv) term(ex ast.Expr) *Term {
	v := e.eval(ex)
	return e.asTerm(v, ex)
}

func (e *SpecEnv) asTerm(v SV, ex ast.Expr) *Term {
	switch t := v.V.(type) {
	case *Term:
		return t
	case *Addr:
		return e.x.addrTerm(t)
	case *Clo:
		return e.x.cloTerm(t)
	}
	specErr("scalar expected in %s, got %T", exprStr(ex), v.V)
	return nil
}

func (e *SpecEnv) fact(fs ...*Term) {
	if e.facts != nil {
		for _, f := range fs {
			if !f.hasBV {
				*e.facts = append(*e.facts, f)
			}
		}
	}
}

func (e *SpecEnv) load(a *Addr, t types.Type) SV {
	x := e.x
	var ts []*Term
	hasBV := a.Ref != nil && a.Ref.hasBV || a.Idx != nil && a.Idx.hasBV
	for _, l := range x.leaves(t) {
		ts = append(ts, x.leafRead(e.st, a, l))
	}
	if !hasBV {
		tmp := &State{heap: e.st.heap, pcm: map[*Term]bool{}, next: e.st.next, epoch: e.st.epoch, acqEpoch: e.st.acqEpoch}
		x.leafFacts(tmp, ts, t)
		e.fact(tmp.pc...)
	}
	return SV{x.unflatten(ts, t), t}
}

func (e *SpecEnv) lookupPkg(name string) *types.Package {
	if e.pkg != nil {
		if e.pkg.Name() == name {
			return e.pkg
		}
		for _, p := range e.pkg.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	var cands []string
	for path := range e.x.P.Types {
		cands = append(cands, path)
	}
	sort.Strings(cands)
	for _, path := range cands {
		if p := e.x.P.Types[path]; p != nil && p.Name() == name {
			return p
		}
	}
	for path := range e.x.P.Types {
		for _, p := range e.x.P.Types[path].Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	return nil
}

func (e *SpecEnv) typ(ex ast.Expr) types.Type {
	switch t := ex.(type) {
	case *ast.Ident:
		if tn, ok := types.Universe.Lookup(t.Name).(*types.TypeName); ok {
			return tn.Type()
		}
		if e.pkg != nil {
			if tn, ok := e.pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if p := e.lookupPkg(id.Name); p != nil {
				if tn, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.StarExpr:
		if el := e.typ(t.X); el != nil {
			return types.NewPointer(el)
		}
	case *ast.ArrayType:
		if t.Len == nil {
			if el := e.typ(t.Elt); el != nil {
				return types.NewSlice(el)
			}
		}
	case *ast.MapType:
		k, v := e.typ(t.Key), e.typ(t.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.ParenExpr:
		return e.typ(t.X)
	}
	return nil
}

func (e *SpecEnv) typStr(s string) types.Type {
	ex, err := parser.ParseExpr(s)
	if err != nil {
		specErr("type %q: %v", s, err)
	}
	t := e.typ(ex)
	if t == nil {
		specErr("unknown type %q", s)
	}
	return t
}

func (e *SpecEnv) specSort(s string) Sort {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "string":
		return SStr
	case "float":
		return e.x.floatSort(types.Typ[types.Float64])
	case "float32":
		return e.x.floatSort(types.Typ[types.Float32])
	case "real":
		return SReal
	case "iface":
		return SIface
	case "time":
		return STime
	case "rv":
		return SRV
	case "seq":
		return "Seq0"
	}
	if strings.HasPrefix(s, "arr(") {
		return arraySort(SInt, e.specSort(s[4:len(s)-1]))
	}
	if strings.HasPrefix(s, "mapping(") {
		return e.specSort(s[:3] + s[7:])
	}
	if strings.HasPrefix(s, "map(") {
		p := splitTop(s[4:len(s)-1], ',')
		return arraySort(e.specSort(p[0]), e.specSort(p[1]))
	}
	if strings.HasPrefix(s, "bv") {
		var n int
		fmt.Sscanf(s, "bv%d", &n)
		return bvSort(n)
	}
	t := e.typStr(s)
	so, ok := e.x.leafSort(t)
	if !ok {
		specErr("sort %q", s)
	}
	return so
}

func (e *SpecEnv) constSV(v constant.Value, t types.Type) SV {
	x := e.x
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		switch v.Kind() {
		case constant.Int:
			return SV{x.c.Big(constBig(v)), nil}
		case constant.Bool:
			return SV{x.c.Bool(constant.BoolVal(v)), types.Typ[types.Bool]}
		case constant.String:
			return SV{x.c.Str(constant.StringVal(v)), types.Typ[types.String]}
		case constant.Float:
			f, _ := constant.Float64Val(v)
			return SV{x.f64(f), types.Typ[types.Float64]}
		}
	}
	return SV{x.constVal(v, t), t}
}

func constBig(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	return b
}

func (e *SpecEnv) object(o types.Object) (SV, bool) {
	switch o := o.(type) {
	case *types.Const:
		return e.constSV(o.Val(), o.Type()), true
	case *types.Var:
		if g := e.x.global(o); g != nil {
			return e.load(&Addr{Kind: AGlobal, G: g, Root: o.Type(), T: o.Type()}, o.Type()), true
		}
	}
	return SV{}, false
}

func (e *SpecEnv) eval(ex ast.Expr) SV {
	x := e.x
	c := x.c
	switch t := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.INT:
			return SV{c.Big(constBig(constant.MakeFromLiteral(t.Value, t.Kind, 0))), nil}
		case token.FLOAT:
			f, _ := constant.Float64Val(constant.MakeFromLiteral(t.Value, t.Kind, 0))
			return SV{x.f64(f), types.Typ[types.Float64]}
		case token.STRING:
			return SV{c.Str(constant.StringVal(constant.MakeFromLiteral(t.Value, t.Kind, 0))), types.Typ[types.String]}
		case token.CHAR:
			return SV{c.Big(constBig(constant.MakeFromLiteral(t.Value, t.Kind, 0))), nil}
		}
	case *ast.Ident:
		if v, ok := e.vars[t.Name]; ok {
			return v
		}
		switch t.Name {
		case "true":
			return SV{c.True(), types.Typ[types.Bool]}
		case "false":
			return SV{c.False(), types.Typ[types.Bool]}
		case "nil":
			return SV{nil, types.Typ[types.UntypedNil]}
		}
		if p, ok := x.S.Preds[t.Name]; ok && len(p.Params) == 0 {
			return e.eval(p.E)
		}
		if gs, ok := x.S.Ghosts[t.Name]; ok {
			return SV{x.get(e.st, "X:"+t.Name, e.specSort(gs)), nil}
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(t.Name); o != nil {
				if v, ok := e.object(o); ok {
					return v
				}
			}
		}
		specErr("unknown name %s", t.Name)
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, isv := e.vars[id.Name]; !isv {
				if _, isg := x.S.Ghosts[id.Name]; !isg {
					if p := e.lookupPkg(id.Name); p != nil && (e.pkg == nil || e.pkg.Scope().Lookup(id.Name) == nil) {
						if o := p.Scope().Lookup(t.Sel.Name); o != nil {
							if v, ok := e.object(o); ok {
								return v
							}
						}
						specErr("unknown %s.%s", id.Name, t.Sel.Name)
					}
				}
			}
		}
		return e.field(e.eval(t.X), t.Sel.Name)
	case *ast.StarExpr:
		v := e.eval(t.X)
		a, ok := v.V.(*Addr)
		if !ok {
			specErr("deref of non-pointer %s", exprStr(t.X))
		}
		return e.load(a, a.T)
	case *ast.IndexExpr:
		return e.index(e.eval(t.X), t.Index)
	case *ast.TypeAssertExpr:
		v := e.eval(t.X)
		ty := e.typ(t.Type)
		if ty == nil {
			specErr("type %s", exprStr(t.Type))
		}
		return SV{x.unbox(v.V.(*Term), ty), ty}
	case *ast.UnaryExpr:
		v := e.eval(t.X)
		switch t.Op {
		case token.NOT:
			return SV{c.Not(v.V.(*Term)), v.T}
		case token.SUB:
			tm := v.V.(*Term)
			if tm.S == SInt || tm.S == SReal {
				return SV{c.Neg(tm), v.T}
			}
			return SV{x.negate(tm, v.T), v.T}
		case token.AND:
			// address of: only field of pointer
			if se, ok := t.X.(*ast.SelectorExpr); ok {
				return e.fieldAddr(e.eval(se.X), se.Sel.Name)
			}
		}
	case *ast.BinaryExpr:
		return e.binary(t)
	case *ast.CallExpr:
		return e.callExpr(t)
	}
	specErr("expression %s (%T)", exprStr(ex), ex)
	return SV{}
}

func (e *SpecEnv) fieldAddr(v SV, name string) SV {
	a, ok := v.V.(*Addr)
	if !ok {
		specErr("address of field of non-pointer")
	}
	_, path, _ := types.LookupFieldOrMethod(a.T, true, e.anyPkg(a.T), name)
	if path == nil {
		specErr("no field %s in %s", name, a.T)
	}
	cur := *a
	for i, idx := range path {
		st := cur.T.Underlying().(*types.Struct)
		f := st.Field(idx)
		cur.Path += "." + f.Name()
		cur.T = f.Type()
		if i < len(path)-1 {
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				pv := e.load(&cur, f.Type())
				cur = *(pv.V.(*Addr))
				_ = p
			}
		}
	}
	return SV{&cur, types.NewPointer(cur.T)}
}

func (e *SpecEnv) anyPkg(t types.Type) *types.Package {
	if n := named(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return e.anyPkg(p.Elem())
	}
	return e.pkg
}

func (e *SpecEnv) field(v SV, name string) SV {
	switch w := v.V.(type) {
	case *Addr:
		fa := e.fieldAddr(v, name)
		a := fa.V.(*Addr)
		return e.load(a, a.T)
	case *Struct:
		_, path, _ := types.LookupFieldOrMethod(w.T, true, e.anyPkg(w.T), name)
		if path == nil {
			specErr("no field %s in %s", name, w.T)
		}
		var cur Val = w
		ct := w.T
		for _, idx := range path {
			if a, ok := cur.(*Addr); ok {
				st := a.T.Underlying().(*types.Struct)
				b := *a
				b.Path += "." + st.Field(idx).Name()
				b.T = st.Field(idx).Type()
				sv := e.load(&b, b.T)
				cur, ct = sv.V, sv.T
				continue
			}
			s := cur.(*Struct)
			st := ct.Underlying().(*types.Struct)
			cur = s.F[idx]
			ct = st.Field(idx).Type()
		}
		return SV{cur, ct}
	case Tuple:
		var i int
		if n, _ := fmt.Sscanf(name, "r%d", &i); n == 1 {
			return SV{w[i], v.T.(*types.Tuple).At(i).Type()}
		}
	}
	specErr("field %s of %T", name, v.V)
	return SV{}
}

func (e *SpecEnv) index(v SV, ie ast.Expr) SV {
	x := e.x
	c := x.c
	switch w := v.V.(type) {
	case *Slice:
		i := e.term(ie)
		el := v.T.Underlying().(*types.Slice).Elem()
		return e.load(&Addr{Kind: AElem, Root: el, Ref: w.Arr, Idx: c.Add(w.Off, i), T: el}, el)
	case *Term:
		if v.T != nil {
			if m, ok := v.T.Underlying().(*types.Map); ok {
				k := e.mapKeyTerm(m, ie)
				val, _ := x.mapGet(e.st, m, w, k)
				return SV{val, m.Elem()}
			}
			if isString(v.T) {
				return SV{x.strAt(w, e.term(ie)), types.Typ[types.Uint8]}
			}
		}
		if strings.HasPrefix(string(w.S), "(Array") {
			return SV{c.Select(w, e.term(ie)), nil}
		}
	}
	specErr("index of %T (%v)", v.V, v.T)
	return SV{}
}

func (e *SpecEnv) mapKeyTerm(m *types.Map, ie ast.Expr) *Term {
	kv := e.eval(ie)
	return e.x.flatten(kv.V, m.Key())[0]
}

func (e *SpecEnv) binary(t *ast.BinaryExpr) SV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	switch t.Op {
	case token.LAND:
		return SV{c.And(e.Bool(t.X), e.Bool(t.Y)), boolT}
	case token.LOR:
		return SV{c.Or(e.Bool(t.X), e.Bool(t.Y)), boolT}
	}
	a, b := e.eval(t.X), e.eval(t.Y)
	a, b = e.unify(a, b)
	switch t.Op {
	case token.EQL:
		return SV{e.equal(a, b), boolT}
	case token.NEQ:
		return SV{c.Not(e.equal(a, b)), boolT}
	}
	ta, tb := e.asTerm(a, t.X), e.asTerm(b, t.Y)
	ty := a.T
	if ty == nil {
		ty = b.T
	}
	switch t.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return SV{x.compare(t.Op, ta, tb, ty), boolT}
	}
	if ta.S == SInt {
		switch t.Op {
		case token.ADD:
			return SV{c.Add(ta, tb), nil}
		case token.SUB:
			return SV{c.Sub(ta, tb), nil}
		case token.MUL:
			return SV{c.Mul(ta, tb), nil}
		case token.QUO:
			return SV{c.TDiv(ta, tb), nil}
		case token.REM:
			return SV{c.TRem(ta, tb), nil}
		}
	}
	return SV{x.arithRaw(t.Op, ta, tb, ty), ty}
}

// unify converts untyped constants to the type of the other operand.
func (e *SpecEnv) unify(a, b SV) (SV, SV) {
	x := e.x
	conv := func(u, o SV) SV {
		ut, ok := u.V.(*Term)
		if !ok || u.T != nil {
			return u
		}
		ot, ok := o.V.(*Term)
		if !ok || ot.S == ut.S {
			return u
		}
		if ut.I != nil {
			switch {
			case ot.S == SF64 || ot.S == SF32 || ot.S == SReal:
				f, _ := new(big.Float).SetInt(ut.I).Float64()
				if ot.S == SF32 {
					return SV{x.f32(float32(f)), o.T}
				}
				return SV{x.f64(f), o.T}
			case strings.HasPrefix(string(ot.S), "(_ BitVec"):
				var n int
				fmt.Sscanf(string(ot.S), "(_ BitVec %d)", &n)
				return SV{x.c.BVLit(ut.I, n), o.T}
			}
		}
		return u
	}
	a = conv(a, b)
	b = conv(b, a)
	// float64 literal against float32
	return a, b
}

func (e *SpecEnv) equal(a, b SV) *Term {
	x := e.x
	isNil := func(v SV) bool { bt, ok := v.T.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		return x.isNil(a.V)
	}
	// boxed comparison: interface against concrete
	if at, ok := a.V.(*Term); ok && at.S == SIface {
		if bt, ok := b.V.(*Term); !ok || bt.S != SIface {
			return x.c.Eq(at, x.box(b.V, b.T))
		}
	}
	if bt, ok := b.V.(*Term); ok && bt.S == SIface {
		if at, ok := a.V.(*Term); !ok || at.S != SIface {
			return x.c.Eq(bt, x.box(a.V, a.T))
		}
	}
	at, aok := a.V.(*Term)
	bt, bok := b.V.(*Term)
	if aok && bok {
		// floats in specifications compare as values (==), see same()
		if (at.S == SF64 || at.S == SF32) && a.T != nil {
			return x.compare(token.EQL, at, bt, a.T)
		}
		return x.c.Eq(at, bt)
	}
	return x.sameVal(a.V, b.V, a.T, b.T)
}

func (e *SpecEnv) callExpr(t *ast.CallExpr) SV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	arg := func(i int) ast.Expr {
		if i >= len(t.Args) {
			specErr("too few arguments in %s", exprStr(t))
		}
		return t.Args[i]
	}
	if id, ok := t.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "imp":
			return SV{c.Imp(e.Bool(arg(0)), e.Bool(arg(1))), boolT}
		case "iff":
			return SV{c.Eq(e.Bool(arg(0)), e.Bool(arg(1))), boolT}
		case "ite":
			g := e.Bool(arg(0))
			a, b := e.eval(arg(1)), e.eval(arg(2))
			a, b = e.unify(a, b)
			ty := a.T
			if ty == nil {
				ty = b.T
			}
			if at, ok := a.V.(*Term); ok {
				return SV{c.Ite(g, at, e.asTerm(b, arg(2))), ty}
			}
			fa, fb := x.flatten(a.V, a.T), x.flatten(b.V, a.T)
			for i := range fa {
				fa[i] = c.Ite(g, fa[i], fb[i])
			}
			return SV{x.unflatten(fa, a.T), a.T}
		case "old":
			if e.old == nil {
				specErr("old() not available here")
			}
			n := *e
			n.st = e.old
			return n.eval(arg(0))
		case "len", "cap":
			v := e.eval(arg(0))
			switch w := v.V.(type) {
			case *Slice:
				if id.Name == "cap" {
					return SV{w.Cap, nil}
				}
				return SV{w.Len, nil}
			case *Term:
				if v.T != nil && isString(v.T) {
					return SV{x.strLen(w), nil}
				}
				if m, ok := v.T.Underlying().(*types.Map); ok {
					return SV{x.mapLenNil(e.st, m, w), nil}
				}
			}
			specErr("len of %T", v.V)
		case "has":
			v := e.eval(arg(0))
			m, ok := v.T.Underlying().(*types.Map)
			if !ok {
				specErr("has() on %v", v.T)
			}
			return SV{x.mapHas(e.st, m, v.V.(*Term), e.mapKeyTerm(m, arg(1))), boolT}
		case "forall", "exists":
			return e.quant(id.Name, t)
		case "same":
			a, b := e.eval(arg(0)), e.eval(arg(1))
			return SV{x.sameVal(a.V, b.V, a.T, b.T), boolT}
		case "sameelems":
			// same backing elements: sameelems(s, t) : equal length and elements
			a, b := e.eval(arg(0)), e.eval(arg(1))
			return SV{e.sameElems(a, b, e.st, e.st), boolT}
		case "typeis":
			v := e.eval(arg(0))
			ty := e.typ(arg(1))
			if ty == nil {
				specErr("type %s", exprStr(arg(1)))
			}
			return SV{c.Eq(x.typeof(v.V.(*Term)), c.Int(int64(x.tag(ty)))), boolT}
		case "implements":
			v := e.eval(arg(0))
			return SV{x.implements(x.typeof(v.V.(*Term)), e.typ(arg(1))), boolT}
		case "typetag":
			v := e.eval(arg(0))
			return SV{x.typeof(v.V.(*Term)), nil}
		case "rtype":
			return SV{x.rtype(c.Int(int64(x.tag(e.typ(arg(0)))))), types.NewInterfaceType(nil, nil)}
		case "rtypeof":
			v := e.eval(arg(0))
			return SV{x.rtype(x.typeof(v.V.(*Term))), types.NewInterfaceType(nil, nil)}
		case "tagof":
			return SV{c.Int(int64(x.tag(e.typ(arg(0))))), nil}
		case "box":
			v := e.eval(arg(0))
			ty := v.T
			if len(t.Args) > 1 {
				ty = e.typ(arg(1))
			}
			return SV{x.box(v.V, ty), types.NewInterfaceType(nil, nil)}
		case "fresh":
			v := e.eval(arg(0))
			var r *Term
			switch w := v.V.(type) {
			case *Slice:
				r = w.Arr
			default:
				r = e.asTerm(v, arg(0))
			}
			return SV{c.And(c.Le(e.old.next, r), c.Lt(r, e.st.next)), boolT}
		case "allocated":
			v := e.eval(arg(0))
			r := e.asTerm(v, arg(0))
			return SV{c.And(c.Lt(c.Int(0), r), c.Lt(r, e.st.next)), boolT}
		case "lockstate":
			v := e.fieldAddr(e.eval(arg(0).(*ast.SelectorExpr).X), arg(0).(*ast.SelectorExpr).Sel.Name)
			return SV{x.lockGet(e.st, v.V.(*Addr)), nil}
		case "acquired":
			v := e.fieldAddr(e.eval(arg(0).(*ast.SelectorExpr).X), arg(0).(*ast.SelectorExpr).Sel.Name)
			lk, ref := x.lockKey(v.V.(*Addr))
			return SV{c.Select(x.get(e.st, "X:acq:"+lk, arraySort(SInt, SInt)), ref), nil}
		case "held":
			return SV{x.get(e.st, heldKey, SInt), nil}
		case "gacquired":
			o := e.pkg.Scope().Lookup(arg(0).(*ast.Ident).Name).(*types.Var)
			lk, ref := x.lockKey(&Addr{Kind: AGlobal, G: x.global(o), Root: o.Type(), T: o.Type()})
			return SV{c.Select(x.get(e.st, "X:acq:"+lk, arraySort(SInt, SInt)), ref), nil}
		case "pre":
			if e.pre == nil {
				specErr("pre() outside a loop invariant")
			}
			n := *e
			n.st = e.pre
			return n.eval(arg(0))
		case "itpos":
			it := e.iter(arg(0))
			return SV{x.get(e.st, it.PosKey, SInt), nil}
		case "itlen":
			return SV{e.iter(arg(0)).N, nil}
		case "itref":
			return SV{e.iter(arg(0)).Ref, nil}
		case "itkey":
			it := e.iter(arg(0))
			return SV{x.unflatten([]*Term{c.Select(it.Keys, e.term(arg(1)))}, it.M.Key()), it.M.Key()}
		case "itidx":
			it := e.iter(arg(0))
			return SV{c.Select(it.KIdx, e.mapKeyTerm(it.M, arg(1))), nil}
		case "glockstate":
			se := arg(0).(*ast.Ident)
			o := e.pkg.Scope().Lookup(se.Name).(*types.Var)
			return SV{x.lockGet(e.st, &Addr{Kind: AGlobal, G: x.global(o), Root: o.Type(), T: o.Type()}), nil}
		case "elems":
			v := e.eval(arg(0))
			s := v.V.(*Slice)
			el := v.T.Underlying().(*types.Slice).Elem()
			ls := x.leaves(el)
			if len(ls) != 1 {
				specErr("elems() needs scalar elements")
			}
			return SV{c.Select(x.get(e.st, x.elKey(el, ls[0].Path), arraySort(SInt, arraySort(SInt, ls[0].S))), s.Arr), nil}
		case "off":
			return SV{e.eval(arg(0)).V.(*Slice).Off, nil}
		case "arr":
			return SV{e.eval(arg(0)).V.(*Slice).Arr, nil}
		case "ref":
			return SV{e.asTerm(e.eval(arg(0)), arg(0)), nil}
		case "store":
			a, i, v := e.term(arg(0)), e.term(arg(1)), e.term(arg(2))
			return SV{c.Store(a, i, v), nil}
		case "hp":
			// hp(pkg.T.f): the field f of all objects, as an array
			se, ok := arg(0).(*ast.SelectorExpr)
			if !ok {
				specErr("hp(%s)", exprStr(arg(0)))
			}
			ty := e.typ(se.X)
			if ty == nil {
				specErr("type %s", exprStr(se.X))
			}
			_, path, _ := types.LookupFieldOrMethod(ty, true, e.anyPkg(ty), se.Sel.Name)
			if len(path) != 1 {
				specErr("field %s", exprStr(se))
			}
			f := ty.Underlying().(*types.Struct).Field(path[0])
			if isLockType(f.Type()) {
				return SV{x.get(e.st, "L:"+x.rootKey(ty)+"."+f.Name(), arraySort(SInt, SInt)), nil}
			}
			ls := x.leaves(f.Type())
			if len(ls) != 1 {
				specErr("hp() needs a scalar field: %s", exprStr(se))
			}
			return SV{x.get(e.st, x.objKey(ty, "."+f.Name()+ls[0].Path), arraySort(SInt, ls[0].S)), nil}
		case "mdoms", "mvals":
			m, ok := e.typ(arg(0)).(*types.Map)
			if !ok {
				specErr("%s(%s)", id.Name, exprStr(arg(0)))
			}
			ks, ls := x.mapSorts(m)
			if id.Name == "mdoms" {
				return SV{x.get(e.st, "MD:"+x.mapKey(m), arraySort(SInt, arraySort(ks, SBool))), nil}
			}
			return SV{x.get(e.st, "MV:"+x.mapKey(m)+ls[0].Path, arraySort(SInt, arraySort(ks, ls[0].S))), nil}
		case "mdom":
			v := e.eval(arg(0))
			m := v.T.Underlying().(*types.Map)
			return SV{x.mapDom(e.st, m, v.V.(*Term)), nil}
		case "mval":
			v := e.eval(arg(0))
			m := v.T.Underlying().(*types.Map)
			return SV{x.mapValArr(e.st, m, v.V.(*Term), x.leaves(m.Elem())[0]), nil}
		case "isnan":
			return SV{x.fpIsNaN(e.term(arg(0))), boolT}
		case "isinf":
			return SV{x.fpIsInf(e.term(arg(0))), boolT}
		case "real":
			return SV{c.mk("to_real", SReal, e.term(arg(0))), nil}
		case "wrap":
			// wrap(e, T): e reduced to the range of integer type T
			ty := e.typ(arg(1))
			return SV{x.wrapTerm(e.term(arg(0)), ty), ty}
		case "inrange":
			ty := e.typ(arg(1))
			lo, hi := intRange(ty)
			v := e.term(arg(0))
			return SV{c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))), boolT}
		case "substr":
			return SV{x.strSub(e.term(arg(0)), e.term(arg(1)), e.term(arg(2))), types.Typ[types.String]}
		case "cat":
			r := e.term(arg(0))
			for i := 1; i < len(t.Args); i++ {
				r = x.strCat(r, e.term(arg(i)))
			}
			return SV{r, types.Typ[types.String]}
		case "strof":
			// strof([]byte)
			v := e.eval(arg(0))
			return SV{x.bytesToStr(e.st, v.V.(*Slice)), types.Typ[types.String]}
		case "fnref":
			se, ok := arg(0).(*ast.Ident)
			if !ok || e.pkg == nil {
				specErr("fnref")
			}
			sp := x.P.Prog.Package(e.pkg)
			if sp == nil || sp.Func(se.Name) == nil {
				specErr("no function %s", se.Name)
			}
			return SV{x.cloTerm(&Clo{Fn: sp.Func(se.Name)}), nil}
		case "dec":
			return SV{x.decStr(e.term(arg(0))), types.Typ[types.String]}
		case "decpad":
			return SV{x.decPad(e.term(arg(0)).I.Int64(), e.term(arg(1))), types.Typ[types.String]}
		case "trig":
			// trig(body, t1, t2, ...): body of a forall with the (multi-)trigger t1 t2 ...;
			// alt(...) groups alternatives
			b := e.Bool(arg(0))
			var pats [][]*Term
			var one []*Term
			for _, a := range t.Args[1:] {
				if ce, ok := a.(*ast.CallExpr); ok {
					if f, ok := ce.Fun.(*ast.Ident); ok && f.Name == "alt" {
						var p []*Term
						for _, y := range ce.Args {
							p = append(p, e.asTerm(e.eval(y), y))
						}
						pats = append(pats, p)
						continue
					}
				}
				one = append(one, e.asTerm(e.eval(a), a))
			}
			if one != nil {
				pats = append(pats, one)
			}
			if x.trigs == nil {
				x.trigs = map[*Term][][]*Term{}
			}
			x.trigs[b] = pats
			return SV{b, boolT}
		case "sents", "recvs", "sums", "rsums":
			k := map[string]string{"sents": "sent", "recvs": "recv", "sums": "sum", "rsums": "rsum"}[id.Name]
			return SV{x.get(e.st, "X:chan."+k, arraySort(SInt, SInt)), nil}
		case "rval", "sval":
			ch := e.eval(arg(0))
			el := ch.T.Underlying().(*types.Chan).Elem()
			ls := x.leaves(el)
			var ts []*Term
			for i, l := range ls {
				ts = append(ts, c.App(fmt.Sprintf("chan.%s%d.%s", id.Name, i, sanitize(string(l.S))), l.S, ch.V.(*Term), e.term(arg(1))))
			}
			return SV{x.unflatten(ts, el), el}
		case "rvali":
			// the n-th value received from a channel of ints given by its address
			return SV{c.App("chan.rval0.Int", SInt, e.term(arg(0)), e.term(arg(1))), nil}
		case "next":
			return SV{e.st.next, nil}
		case "smt":
			// smt("op", sort, args...)
			op := constant.StringVal(constant.MakeFromLiteral(arg(0).(*ast.BasicLit).Value, token.STRING, 0))
			so := e.specSort(constant.StringVal(constant.MakeFromLiteral(arg(1).(*ast.BasicLit).Value, token.STRING, 0)))
			var as []*Term
			for _, a := range t.Args[2:] {
				as = append(as, e.term(a))
			}
			return SV{c.mk(op, so, as...), nil}
		}
		if p, ok := x.S.Preds[id.Name]; ok {
			if len(p.Params) != len(t.Args) {
				specErr("pred %s: %d args", id.Name, len(t.Args))
			}
			n := *e
			n.vars = map[string]SV{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			for i, pn := range p.Params {
				n.vars[pn] = e.eval(t.Args[i])
			}
			return n.eval(p.E)
		}
		if f, ok := x.S.Funs[id.Name]; ok {
			var as []*Term
			for i := range t.Args {
				if i >= len(f.Args) {
					specErr("fun %s: too many args", f.Name)
				}
				so := e.specSort(f.Args[i])
				v := e.eval(t.Args[i])
				tm := e.coerce(v, so, t.Args[i])
				as = append(as, tm)
			}
			if len(as) != len(f.Args) {
				specErr("fun %s: %d args", f.Name, len(as))
			}
			rs := e.specSort(f.Res)
			x.useFun(f.Name)
			var rt types.Type
			switch f.Res {
			case "string":
				rt = types.Typ[types.String]
			case "bool":
				rt = boolT
			case "float":
				rt = types.Typ[types.Float64]
			case "iface":
				rt = types.NewInterfaceType(nil, nil)
			case "int", "ref", "rv", "time", "seq", "real":
			default:
				if !strings.Contains(f.Res, "(") && !strings.HasPrefix(f.Res, "bv") {
					rt = e.typStr(f.Res)
				}
			}
			sym := "f$" + f.Name
			if e.inner == f.Name {
				sym += "!0"
			}
			tm := c.App(sym, rs, as...)
			if rt != nil {
				if p, ok := rt.Underlying().(*types.Pointer); ok {
					return SV{x.ptrVal(tm, p.Elem()), rt}
				}
			}
			return SV{tm, rt}
		}
	}
	if ty := e.typ(t.Fun); ty != nil {
		v := e.eval(arg(0))
		return e.convert(v, ty)
	}
	specErr("call %s", exprStr(t))
	return SV{}
}

func (e *SpecEnv) coerce(v SV, so Sort, ex ast.Expr) *Term {
	switch w := v.V.(type) {
	case *Slice:
		specErr("slice passed to fun (%s)", exprStr(ex))
	case *Struct:
		specErr("struct passed to fun (%s)", exprStr(ex))
	case *Term:
		if w.S == so {
			return w
		}
		if so == SIface && v.T != nil {
			return e.x.box(w, v.T)
		}
		if w.I != nil && (so == SF64) {
			f, _ := new(big.Float).SetInt(w.I).Float64()
			return e.x.f64(f)
		}
		if w.I != nil && strings.HasPrefix(string(so), "(_ BitVec") {
			var n int
			fmt.Sscanf(string(so), "(_ BitVec %d)", &n)
			return e.x.c.BVLit(w.I, n)
		}
		specErr("sort mismatch for %s: %s want %s", exprStr(ex), w.S, so)
	case nil:
		if so == SInt {
			return e.x.c.Int(0)
		}
		if so == SIface {
			return e.x.nilIface()
		}
	case *Addr:
		if so == SIface {
			return e.x.box(w, v.T)
		}
	}
	return e.asTerm(v, ex)
}

func (e *SpecEnv) convert(v SV, ty types.Type) SV {
	x := e.x
	if types.IsInterface(ty) {
		if tm, ok := v.V.(*Term); ok && tm.S == SIface {
			return SV{tm, ty}
		}
		return SV{x.box(v.V, v.T), ty}
	}
	if tm, ok := v.V.(*Term); ok {
		so, lok := x.leafSort(ty)
		if lok && so == tm.S {
			if so == SInt && v.T != nil {
				// conversions between integer types are exact in specs; use wrap() otherwise
			}
			return SV{tm, ty}
		}
		if tm.I != nil && lok {
			_, r := e.unify(SV{x.zeroTerm(so, ty), ty}, SV{tm, nil})
			return SV{r.V, ty}
		}
		if v.T != nil && lok {
			return SV{x.convertScalar(e.st, tm, v.T, ty), ty}
		}
		specErr("conversion to %s", ty)
	}
	if a, ok := v.V.(*Addr); ok {
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			b := *a
			b.T = p.Elem()
			return SV{&b, ty}
		}
	}
	return SV{v.V, ty}
}

func (e *SpecEnv) sameElems(a, b SV, sa, sb *State) *Term {
	x := e.x
	c := x.c
	s, t := a.V.(*Slice), b.V.(*Slice)
	el := a.T.Underlying().(*types.Slice).Elem()
	i := c.BoundVar("i", SInt)
	var eqs []*Term
	for _, l := range x.leaves(el) {
		k := x.elKey(el, l.Path)
		so := arraySort(SInt, arraySort(SInt, l.S))
		eqs = append(eqs, c.Eq(c.Select(c.Select(x.get(sa, k, so), s.Arr), c.Add(s.Off, i)), c.Select(c.Select(x.get(sb, k, so), t.Arr), c.Add(t.Off, i))))
	}
	return c.And(c.Eq(s.Len, t.Len), c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, s.Len)), c.And(eqs...))))
}

func (e *SpecEnv) quant(q string, t *ast.CallExpr) SV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	mkq := func(vs []*Term, body *Term) SV {
		if q == "forall" {
			// nested quantifiers become one
			if strings.HasPrefix(body.Op, "forall/") {
				return SV{c.Forall(append(append([]*Term{}, vs...), body.Bound...), body.Args[len(body.Args)-1], body.Pats...), boolT}
			}
			if p := e.x.trigs[body]; p != nil {
				return SV{c.Forall(vs, body, p...), boolT}
			}
			return SV{c.Forall(vs, body), boolT}
		}
		return SV{c.Exists(vs, body), boolT}
	}
	guard := func(g, b *Term) *Term {
		if q == "forall" {
			return c.Imp(g, b)
		}
		return c.And(g, b)
	}
	id, ok := t.Args[0].(*ast.Ident)
	if !ok {
		specErr("quantifier variable in %s", exprStr(t))
	}
	n := *e
	n.facts = nil
	e2 := &n
	if len(t.Args) == 4 {
		lo, hi := e.term(t.Args[1]), e.term(t.Args[2])
		// small concrete ranges are expanded
		if lo.I != nil && hi.I != nil && new(big.Int).Sub(hi.I, lo.I).Cmp(big.NewInt(8)) <= 0 {
			var parts []*Term
			for i := new(big.Int).Set(lo.I); i.Cmp(hi.I) < 0; i = new(big.Int).Add(i, big.NewInt(1)) {
				parts = append(parts, e2.with(id.Name, SV{c.Big(i), nil}).Bool(t.Args[3]))
			}
			if q == "forall" {
				return SV{c.And(parts...), boolT}
			}
			return SV{c.Or(parts...), boolT}
		}
		v := c.BoundVar(id.Name, SInt)
		body := e2.with(id.Name, SV{v, nil}).Bool(t.Args[3])
		gb := guard(c.And(c.Le(lo, v), c.Lt(v, hi)), body)
		if p := x.trigs[body]; p != nil {
			x.trigs[gb] = p
		}
		return mkq([]*Term{v}, gb)
	}
	if len(t.Args) != 3 {
		specErr("quantifier arity: %s", exprStr(t))
	}
	tyE := t.Args[1]
	if tid, ok := tyE.(*ast.Ident); ok {
		switch tid.Name {
		case "int", "ref":
			v := c.BoundVar(id.Name, SInt)
			return mkq([]*Term{v}, e2.with(id.Name, SV{v, nil}).Bool(t.Args[2]))
		case "iface":
			v := c.BoundVar(id.Name, SIface)
			return mkq([]*Term{v}, e2.with(id.Name, SV{v, types.NewInterfaceType(nil, nil)}).Bool(t.Args[2]))
		case "rv":
			v := c.BoundVar(id.Name, SRV)
			return mkq([]*Term{v}, e2.with(id.Name, SV{v, nil}).Bool(t.Args[2]))
		case "time":
			v := c.BoundVar(id.Name, STime)
			return mkq([]*Term{v}, e2.with(id.Name, SV{v, nil}).Bool(t.Args[2]))
		case "float":
			v := c.BoundVar(id.Name, x.floatSort(types.Typ[types.Float64]))
			return mkq([]*Term{v}, e2.with(id.Name, SV{v, types.Typ[types.Float64]}).Bool(t.Args[2]))
		}
	}
	if ce, ok := tyE.(*ast.CallExpr); ok {
		// arr(int), seq ...
		v := c.BoundVar(id.Name, e.specSort(exprStr(ce)))
		return mkq([]*Term{v}, e2.with(id.Name, SV{v, nil}).Bool(t.Args[2]))
	}
	ty := e.typ(tyE)
	if ty == nil {
		v := c.BoundVar(id.Name, e.specSort(exprStr(tyE)))
		return mkq([]*Term{v}, e2.with(id.Name, SV{v, nil}).Bool(t.Args[2]))
	}
	so, ok := x.leafSort(ty)
	if !ok {
		specErr("quantification over %s", ty)
	}
	v := c.BoundVar(id.Name, so)
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		body := e2.with(id.Name, SV{&Addr{Kind: AObj, Root: u.Elem(), Ref: v, T: u.Elem()}, ty}).Bool(t.Args[2])
		return mkq([]*Term{v}, guard(c.And(c.Lt(c.Int(0), v), c.Lt(v, e.st.next)), body))
	case *types.Basic:
		body := e2.with(id.Name, SV{v, ty}).Bool(t.Args[2])
		if so == SInt && u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(ty)
			return mkq([]*Term{v}, guard(c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))), body))
		}
		return mkq([]*Term{v}, body)
	}
	return mkq([]*Term{v}, e2.with(id.Name, SV{v, ty}).Bool(t.Args[2]))
}

func (e *SpecEnv) iter(ex ast.Expr) *MapIter {
	v := e.eval(ex)
	it, ok := v.V.(*MapIter)
	if !ok {
		specErr("iterator expected: %s", exprStr(ex))
	}
	return it
}
