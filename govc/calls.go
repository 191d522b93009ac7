package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callK func(*Frame, *State, Val)

func (x *Exec) callCommon(fr *Frame, st *State, com *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, k callK) {
	if bi, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		x.builtin(fr, st, bi, com, args, pos, k)
		return
	}
	if com.IsInvoke() {
		x.invoke(fr, st, com, fnv, args, pos, k)
		return
	}
	switch f := fnv.(type) {
	case *Clo:
		x.callFn(fr, st, f.Fn, f.Bind, args, pos, k)
	case *Term:
		if cl, ok := x.cloTab[f]; ok {
			x.callFn(fr, st, cl.Fn, cl.Bind, args, pos, k)
			return
		}
		if !x.check(fr, st, x.c.Not(x.c.Eq(f, x.c.Int(0))), "call of nil function", pos) {
			return
		}
		sig := com.Value.Type().Underlying().(*types.Signature)
		name := "callback$" + sanitize(types.TypeString(sig, shortQual))
		con := x.contractOf(name)
		if con == nil {
			unsup("call of unknown function value (%s)", name)
		}
		x.applyContract(fr, st, con, sig, append([]Val{f}, args...), append([]types.Type{com.Value.Type()}, paramTypes(sig)...), pos, k)
	default:
		unsup("call of %T", fnv)
	}
}

func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func (x *Exec) ifaceKey(t types.Type, m string) string {
	return "(" + shortName(types.TypeString(types.Unalias(t), nil)) + ")." + m
}

func (x *Exec) invoke(fr *Frame, st *State, com *ssa.CallCommon, recv Val, args []Val, pos token.Pos, k callK) {
	iv := recv.(*Term)
	if !x.check(fr, st, x.c.Not(x.ifaceIsNil(iv)), "nil interface method call", pos) {
		return
	}
	if t, ok := x.knownBox(iv); ok {
		fn := x.P.Prog.LookupMethod(t, com.Method.Pkg(), com.Method.Name())
		if fn != nil {
			x.callFn(fr, st, fn, nil, append([]Val{x.unbox(iv, t)}, args...), pos, k)
			return
		}
	}
	sig := com.Method.Type().(*types.Signature)
	it := com.Value.Type()
	key := x.ifaceKey(it, com.Method.Name())
	con := x.contractOf(key)
	if con == nil {
		// method declared in an embedded interface
		for _, cand := range x.ifaceAliases(it, com.Method.Name()) {
			if c2 := x.contractOf(cand); c2 != nil {
				con = c2
				break
			}
		}
	}
	if con == nil {
		if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil && x.noFeas {
			if _, repo := x.P.Files[n.Obj().Pkg().Path()]; !repo && !hasFunc(sig) {
				x.lockFreeCall(fr, st, key, sig, pos, k)
				return
			}
		}
		unsup("call of interface method %s", key)
	}
	x.applyContract(fr, st, con, sig, append([]Val{iv}, args...), append([]types.Type{it}, paramTypes(sig)...), pos, k)
}

func (x *Exec) ifaceAliases(t types.Type, m string) []string {
	var out []string
	u, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumEmbeddeds(); i++ {
		out = append(out, x.ifaceKey(u.EmbeddedType(i), m))
		out = append(out, x.ifaceAliases(u.EmbeddedType(i), m)...)
	}
	return out
}

// contractOf finds the contract of a function; a contract written for the
// current property only (name@Cxx) takes precedence.
func (x *Exec) contractOf(name string) *Contract {
	if x.prop != "" {
		if con := x.S.Contracts[name+"@"+x.prop]; con != nil {
			return con
		}
	}
	return x.S.Contracts[name]
}

// active reports whether a contract says anything for the current property.
func (x *Exec) active(con *Contract) bool {
	if con.Inline {
		return false
	}
	if con.Extern || con.Trusted || x.prop == "" {
		return true
	}
	return con.activeFor(x.prop)
}

func (con *Contract) activeFor(prop string) bool {
	if con.Inline {
		return false
	}
	for _, p := range con.Props {
		if p == prop {
			return true
		}
	}
	if len(con.Props) > 0 && con.Mode["strict"] != "" {
		return false
	}
	for _, cl := range con.Ensures {
		if visible(cl.Props, prop) {
			return true
		}
	}
	for _, cl := range con.PanicWhen {
		if visible(cl.Props, prop) {
			return true
		}
	}
	return len(con.Ensures) == 0 && len(con.Props) == 0
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, bind, args []Val, pos token.Pos, k callK) {
	name := shortName(fn.RelString(nil))
	if fn.Synthetic == "package initializer" {
		x.trusted["initialisers of imported packages do not touch this package"] = true
		k(fr, st, Tuple{})
		return
	}
	if x.intrinsic(fr, st, name, fn, args, pos, k) {
		return
	}
	con := x.contractOf(name)
	if con != nil && x.active(con) && (len(bind) == 0) {
		pt := paramTypes(fn.Signature)
		if fn.Signature.Recv() != nil {
			pt = append([]types.Type{fn.Signature.Recv().Type()}, pt...)
		}
		if len(con.Params) == len(pt) {
			x.applyContract(fr, st, con, fn.Signature, args, pt, pos, k)
			return
		}
		if con.Extern || con.Trusted {
			unsup("contract of %s has %d parameters, want %d", name, len(con.Params), len(pt))
		}
	}
	if len(fn.Blocks) == 0 {
		if fn.Synthetic != "" && fn.Pkg == nil {
			unsup("synthetic function %s without body", name)
		}
		x.externCall(fr, st, name, fn.Signature, args, pos, k)
		return
	}
	if _, repo := x.P.Files[pkgPath(fn)]; !repo && fn.Synthetic == "" {
		x.externCall(fr, st, name, fn.Signature, args, pos, k)
		return
	}
	x.inlineCall(fr, st, fn, bind, args, k)
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (x *Exec) inlineCall(fr *Frame, st *State, fn *ssa.Function, bind, args []Val, k callK) {
	depth := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			depth++
		}
	}
	if depth > 0 {
		unsup("recursive call of %s, which has no contract", shortName(fn.RelString(nil)))
	}
	if fr.depth > 40 {
		unsup("inline depth")
	}
	if fn.Synthetic == "" {
		x.inlined[shortName(fn.RelString(nil))] = true
	}
	nf := x.newFrame(fn, fr)
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = bind[i]
	}
	if con := x.contractOf(shortName(fn.RelString(nil))); con != nil && (!x.noFeas || con.activeFor(x.prop)) && len(con.Invs) > 0 && len(con.Params) == len(fn.Params) {
		// inlined function whose contract still provides loop invariants
		nf.con = con
		env := &SpecEnv{x: x, st: st, old: st.clone(), vars: map[string]SV{}, pkg: pkgOf(fn)}
		for i, p := range fn.Params {
			env.vars[con.Params[i]] = SV{args[i], p.Type()}
		}
		nf.cenv = env
	}
	nf.ret = func(s *State, v Val) { k(fr.clone(), s, v) }
	nf.pan = func(s *State, p *PanicInfo) { x.doPanic(fr.clone(), s, p) }
	x.run(nf, fn.Blocks[0], 0, st)
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	return nil
}

// ---------- contracts at call sites ----------

type modEntry struct {
	all  bool
	refs []*Term
	sort Sort
}

type modSet map[string]*modEntry

func (m modSet) add(key string, s Sort, ref *Term) {
	e := m[key]
	if e == nil {
		e = &modEntry{sort: s}
		m[key] = e
	}
	if ref == nil {
		e.all = true
		return
	}
	for _, r := range e.refs {
		if r == ref {
			return
		}
	}
	e.refs = append(e.refs, ref)
}

func (x *Exec) addAddr(m modSet, a *Addr, t types.Type) {
	if isLockType(t) {
		k, r := x.lockKey(a)
		m.add(k, arraySort(SInt, SInt), r)
		return
	}
	for _, l := range x.leaves(t) {
		switch a.Kind {
		case AObj:
			m.add(x.objKey(a.Root, a.Path+l.Path), arraySort(SInt, l.S), a.Ref)
		case AElem:
			m.add(x.elKey(a.Root, a.Path+l.Path), arraySort(SInt, arraySort(SInt, l.S)), a.Ref)
		case AGlobal:
			m.add("G:"+a.G.RelString(nil)+a.Path+l.Path, l.S, nil)
		}
	}
}

func (x *Exec) modSetOf(con *Contract, env *SpecEnv) modSet {
	m := modSet{}
	for _, cl := range con.Modifies {
		if !visible(cl.Props, x.prop) {
			continue
		}
		x.addMod(m, cl.E, env)
	}
	return m
}

func (x *Exec) addMod(m modSet, e ast.Expr, env *SpecEnv) {
	switch t := e.(type) {
	case *ast.ParenExpr:
		x.addMod(m, t.X, env)
		return
	case *ast.StarExpr:
		v := env.eval(t.X)
		a, ok := v.V.(*Addr)
		if !ok {
			specErr("modifies *%s", exprStr(t.X))
		}
		x.addAddr(m, a, a.T)
		return
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "chanof":
				ch := env.term(t.Args[0])
				for _, k := range []string{"chan.sent", "chan.recv", "chan.sum", "chan.rsum"} {
					m.add("X:"+k, arraySort(SInt, SInt), ch)
				}
				return
			case "elems":
				v := env.eval(t.Args[0])
				s := v.V.(*Slice)
				el := v.T.Underlying().(*types.Slice).Elem()
				for _, l := range x.leaves(el) {
					m.add(x.elKey(el, l.Path), arraySort(SInt, arraySort(SInt, l.S)), s.Arr)
				}
				return
			case "mapof":
				v := env.eval(t.Args[0])
				mt := v.T.Underlying().(*types.Map)
				ks, ls := x.mapSorts(mt)
				ref := v.V.(*Term)
				m.add("MD:"+x.mapKey(mt), arraySort(SInt, arraySort(ks, SBool)), ref)
				m.add("ML:"+x.mapKey(mt), arraySort(SInt, SInt), ref)
				for _, l := range ls {
					m.add("MV:"+x.mapKey(mt)+l.Path, arraySort(SInt, arraySort(ks, l.S)), ref)
				}
				return
			case "anymap":
				mt, ok := env.typ(t.Args[0]).(*types.Map)
				if !ok {
					specErr("anymap of %s", exprStr(t.Args[0]))
				}
				ks, ls := x.mapSorts(mt)
				m.add("MD:"+x.mapKey(mt), arraySort(SInt, arraySort(ks, SBool)), nil)
				m.add("ML:"+x.mapKey(mt), arraySort(SInt, SInt), nil)
				for _, l := range ls {
					m.add("MV:"+x.mapKey(mt)+l.Path, arraySort(SInt, arraySort(ks, l.S)), nil)
				}
				return
			case "any":
				// any(pkg.T.field): that field of every object
				se, ok := t.Args[0].(*ast.SelectorExpr)
				if !ok {
					specErr("any(%s)", exprStr(t.Args[0]))
				}
				ty := env.typ(se.X)
				if ty == nil {
					specErr("type %s", exprStr(se.X))
				}
				_, path, _ := types.LookupFieldOrMethod(ty, true, env.anyPkg(ty), se.Sel.Name)
				if len(path) != 1 {
					specErr("field %s", exprStr(se))
				}
				f := ty.Underlying().(*types.Struct).Field(path[0])
				if isLockType(f.Type()) {
					m.add("L:"+x.rootKey(ty)+"."+f.Name(), arraySort(SInt, SInt), nil)
					return
				}
				for _, l := range x.leaves(f.Type()) {
					m.add(x.objKey(ty, "."+f.Name()+l.Path), arraySort(SInt, l.S), nil)
				}
				return
			case "anychan":
				for _, k := range []string{"chan.sent", "chan.recv", "chan.sum", "chan.rsum"} {
					m.add("X:"+k, arraySort(SInt, SInt), nil)
				}
				return
			case "anyvar":
				// every variable of that type
				ty := env.typ(t.Args[0])
				if ty == nil {
					specErr("type %s", exprStr(t.Args[0]))
				}
				for _, l := range x.leaves(ty) {
					m.add(x.objKey(ty, l.Path), arraySort(SInt, l.S), nil)
				}
				return
			case "anyelems":
				el := env.typ(t.Args[0])
				for _, l := range x.leaves(el) {
					m.add(x.elKey(el, l.Path), arraySort(SInt, arraySort(SInt, l.S)), nil)
				}
				return
			}
		}
	case *ast.IndexExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if gs, ok := x.S.Ghosts[id.Name]; ok {
				m.add("X:"+id.Name, env.specSort(gs), env.term(t.Index))
				return
			}
		}
	case *ast.Ident:
		if gs, ok := x.S.Ghosts[t.Name]; ok {
			m.add("X:"+t.Name, env.specSort(gs), nil)
			return
		}
		if env.pkg != nil {
			if o, ok := env.pkg.Scope().Lookup(t.Name).(*types.Var); ok {
				if g := x.global(o); g != nil {
					x.addAddr(m, &Addr{Kind: AGlobal, G: g, Root: o.Type(), T: o.Type()}, o.Type())
					return
				}
			}
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, isv := env.vars[id.Name]; !isv {
				if p := env.lookupPkg(id.Name); p != nil {
					if o, ok := p.Scope().Lookup(t.Sel.Name).(*types.Var); ok {
						if g := x.global(o); g != nil {
							x.addAddr(m, &Addr{Kind: AGlobal, G: g, Root: o.Type(), T: o.Type()}, o.Type())
							return
						}
					}
				}
			}
		}
		fa := env.fieldAddr(env.eval(t.X), t.Sel.Name)
		a := fa.V.(*Addr)
		x.addAddr(m, a, a.T)
		return
	}
	specErr("modifies %s", exprStr(e))
}

func (x *Exec) havoc(st *State, m modSet) {
	c := x.c
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := m[k]
		if e.all {
			x.set(st, k, c.Fresh("hv$"+k, e.sort))
			continue
		}
		cur := x.get(st, k, e.sort)
		for _, r := range e.refs {
			cur = c.Store(cur, r, c.Fresh("hv$"+k, mustVal(e.sort)))
		}
		x.set(st, k, cur)
	}
}

func (x *Exec) bumpNext(st *State) {
	nx := x.c.Fresh("next", SInt)
	st.assume(x.c.Le(st.next, nx))
	st.next = nx
}

// havocAll forgets every heap key (modifies_all).
func (x *Exec) havocAll(st *State) {
	for k, s := range x.keySort {
		if strings.HasPrefix(k, "X:iter") {
			continue
		}
		x.set(st, k, x.c.Fresh("hva$"+k, s))
	}
	x.epochs++
	st.epoch = x.epochs
}

func (x *Exec) havocAcq(st *State) {
	for k, v := range st.heap {
		if strings.HasPrefix(k, "X:acq") {
			n := x.c.Fresh("acq", v.S)
			x.set(st, k, n)
		}
	}
	x.epochs++
	st.acqEpoch = x.epochs
}

func (x *Exec) resultVal(st *State, hint string, sig *types.Signature) (Val, []SV) {
	rs := sig.Results()
	var svs []SV
	tp := Tuple{}
	for i := 0; i < rs.Len(); i++ {
		v := x.fresh(st, hint, rs.At(i).Type())
		tp = append(tp, v)
		svs = append(svs, SV{v, rs.At(i).Type()})
	}
	if rs.Len() == 1 {
		return tp[0], svs
	}
	return tp, svs
}

func bindResults(env *SpecEnv, con *Contract, svs []SV) {
	for i, sv := range svs {
		env.vars[fmt.Sprintf("r%d", i)] = sv
		if i < len(con.Results) {
			env.vars[con.Results[i]] = sv
		}
	}
	if len(svs) == 1 {
		env.vars["result"] = svs[0]
	}
}

func (x *Exec) conPkg(con *Contract) *types.Package {
	// package named in the contract: "(*pkg.T).m" or "pkg.f"
	n := strings.TrimLeft(con.Name, "(*")
	i := strings.IndexByte(n, '.')
	if i < 0 {
		return nil
	}
	e := &SpecEnv{x: x}
	return e.lookupPkg(n[:i])
}

func (x *Exec) evalClause(env *SpecEnv, cl Clause) *Term {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok && !strings.Contains(u.msg, " ["+cl.At+"]") {
				panic(unsupported{u.msg + " [" + cl.At + "]"})
			}
			panic(e)
		}
	}()
	var facts []*Term
	env.facts = &facts
	t := env.Bool(cl.E)
	env.st.assume(facts...)
	env.facts = nil
	return t
}

func (x *Exec) applyContract(fr *Frame, st *State, con *Contract, sig *types.Signature, args []Val, pts []types.Type, pos token.Pos, k callK) {
	c := x.c
	if con.Extern || con.Trusted {
		x.trusted[con.Name] = true
	} else {
		x.used[con.Name] = true
	}
	if len(con.Params) != len(args) {
		unsup("contract of %s has %d parameters, call has %d", con.Name, len(con.Params), len(args))
	}
	vars := map[string]SV{}
	for i, p := range con.Params {
		vars[p] = SV{args[i], pts[i]}
	}
	pkg := x.conPkg(con)
	env := &SpecEnv{x: x, st: st, old: st, vars: vars, pkg: pkg}
	short := con.Name
	for _, cl := range con.Requires {
		if !visible(cl.Props, x.prop) {
			continue
		}
		t := x.evalClause(env, cl)
		x.assert(st, t, fmt.Sprintf("precondition of %s: %s", short, cl.Label), "precondition")
	}
	ms := x.modSetOf(con, env)
	pre := st.clone()
	// panics
	var pcond *Term
	if con.HasPanics {
		var ors []*Term
		for _, cl := range con.PanicWhen {
			if visible(cl.Props, x.prop) {
				ors = append(ors, x.evalClause(env, cl))
			}
		}
		pcond = c.Or(ors...)
	}
	after := func(s *State) {
		if con.ModAll {
			x.havocAll(s)
		} else {
			x.havoc(s, ms)
		}
		if !con.Pure {
			x.bumpNext(s)
			if (!con.Extern || con.ModAll) && con.Mode["nolock"] == "" {
				x.havocAcq(s)
			}
		}
	}
	if con.MayPanic || pcond != nil && !pcond.IsFalse() {
		ps := st.clone()
		if pcond != nil && !con.MayPanic {
			ps.assume(pcond)
		}
		if x.feasible(ps) {
			after(ps)
			e2 := &SpecEnv{x: x, st: ps, old: pre, vars: vars, pkg: pkg}
			for _, cl := range con.PanicEnsures {
				if visible(cl.Props, x.prop) {
					ps.assume(x.evalClause(e2, cl))
				}
			}
			ps.note(con.Name + " panics at " + x.posStr(pos))
			x.doPanic(fr.clone(), ps, &PanicInfo{Kind: "panic in " + con.Name, Pos: x.posStr(pos)})
		}
		if pcond != nil {
			st.assume(c.Not(pcond))
			if !x.feasible(st) {
				return
			}
		}
	}
	after(st)
	r, svs := x.resultVal(st, "ret$"+con.Name, sig)
	e2 := &SpecEnv{x: x, st: st, old: pre, vars: map[string]SV{}, pkg: pkg}
	for n, v := range vars {
		e2.vars[n] = v
	}
	bindResults(e2, con, svs)
	for _, cl := range con.Ensures {
		if visible(cl.Props, x.prop) {
			// "ghost == e" over a havocked ghost is an assignment
			if g, rhs := ghostDef(x, cl.E); g != "" && ms["X:"+g] != nil && ms["X:"+g].all {
				v := e2.eval(rhs)
				if t, ok := v.V.(*Term); ok && t.S == ms["X:"+g].sort {
					x.set(st, "X:"+g, t)
					continue
				}
			}
			st.assume(x.evalClause(e2, cl))
		}
	}
	for _, cl := range con.Assumes {
		if visible(cl.Props, x.prop) {
			st.assume(x.evalClause(e2, cl))
		}
	}
	k(fr, st, r)
}

func ghostDef(x *Exec, e ast.Expr) (string, ast.Expr) {
	b, ok := e.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		return "", nil
	}
	id, ok := b.X.(*ast.Ident)
	if !ok {
		return "", nil
	}
	if _, ok := x.S.Ghosts[id.Name]; !ok {
		return "", nil
	}
	bad := false
	ast.Inspect(b.Y, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "old" {
				return false
			}
			if f, ok := c.Fun.(*ast.Ident); ok && x.S.Preds[f.Name] != nil {
				bad = true
			}
		}
		if i, ok := n.(*ast.Ident); ok && i.Name == id.Name {
			bad = true
		}
		return true
	})
	if bad {
		return "", nil
	}
	return id.Name, b.Y
}

// ---------- builtins ----------

func (x *Exec) builtin(fr *Frame, st *State, bi *ssa.Builtin, com *ssa.CallCommon, args []Val, pos token.Pos, k callK) {
	c := x.c
	switch bi.Name() {
	case "len", "cap":
		switch w := args[0].(type) {
		case *Slice:
			if bi.Name() == "cap" {
				k(fr, st, w.Cap)
			} else {
				k(fr, st, w.Len)
			}
		case *Term:
			t := com.Args[0].Type()
			if w.S == SStr {
				k(fr, st, x.strLen(w))
				return
			}
			if m, ok := t.Underlying().(*types.Map); ok {
				x.guardRef(fr, st, w, false, pos)
				n := x.mapLenNil(st, m, w)
				st.assume(c.Le(c.Int(0), n), c.Le(n, c.Big(maxI64)))
				k(fr, st, n)
				return
			}
			unsup("len of %s", t)
		case *Addr:
			if at, ok := w.T.Underlying().(*types.Array); ok {
				k(fr, st, c.Int(at.Len()))
				return
			}
			unsup("len of %s", w.T)
		default:
			unsup("len of %T", w)
		}
	case "append":
		x.appendOp(fr, st, com, args, pos, k)
	case "copy":
		x.copyOp(fr, st, com, args, pos, k)
	case "delete":
		m := com.Args[0].Type().Underlying().(*types.Map)
		ref := args[0].(*Term)
		x.guardRef(fr, st, ref, true, pos)
		// delete on a nil map is a no-op
		x.branch(fr, st, c.Eq(ref, c.Int(0)), func(fr *Frame, st *State) { k(fr, st, Tuple{}) }, func(fr *Frame, st *State) {
			x.mapDelete(st, m, ref, x.flatten(args[1], m.Key())[0])
			k(fr, st, Tuple{})
		})
	case "panic":
		x.doPanic(fr, st, &PanicInfo{Kind: "explicit", Val: args[0].(*Term), Pos: x.posStr(pos)})
	case "recover":
		// recover() in a deferred function called directly by the panicking frame
		up := fr.up
		if up != nil && up.panicing != nil && !st.recovered {
			st.recovered = true
			v := up.panicing.Val
			if v == nil {
				v = c.Fresh("recovered", SIface)
				st.assume(c.Not(x.ifaceIsNil(v)))
			}
			k(fr, st, v)
			return
		}
		k(fr, st, x.nilIface())
	case "print", "println":
		k(fr, st, Tuple{})
	case "close":
		ch := args[0].(*Term)
		h := x.get(st, "X:chan.closed", arraySort(SInt, SInt))
		x.set(st, "X:chan.closed", c.Store(h, ch, c.Int(1)))
		k(fr, st, Tuple{})
	case "min", "max":
		if t, ok := args[0].(*Term); ok && t.S == SInt {
			r := t
			for _, a := range args[1:] {
				b := a.(*Term)
				if bi.Name() == "min" {
					r = c.Ite(c.Le(r, b), r, b)
				} else {
					r = c.Ite(c.Le(r, b), b, r)
				}
			}
			k(fr, st, r)
			return
		}
		unsup("builtin %s on %T", bi.Name(), args[0])
	case "ssa:wrapnilchk":
		a, ok := args[0].(*Addr)
		if !ok {
			unsup("wrapnilchk %T", args[0])
		}
		if !x.nonNil(fr, st, a, pos) {
			return
		}
		k(fr, st, a)
	default:
		unsup("builtin %s", bi.Name())
	}
}

func (x *Exec) appendOp(fr *Frame, st *State, com *ssa.CallCommon, args []Val, pos token.Pos, k callK) {
	c := x.c
	sl := com.Args[0].Type().Underlying().(*types.Slice)
	el := sl.Elem()
	s := args[0].(*Slice)
	if t, ok := args[1].(*Term); ok && t.S == SStr {
		// append([]byte, string...)
		s2 := x.strToBytes(st, t)
		args[1] = s2
	}
	t := args[1].(*Slice)
	if t.Len.I != nil && t.Len.I.Sign() == 0 {
		k(fr, st, s)
		return
	}
	newLen := c.Add(s.Len, t.Len)
	st.assume(c.Le(newLen, c.Big(maxI64)))
	fits := c.Le(newLen, s.Cap)
	write := func(st *State, arr, off *Term) {
		// copies t's elements at off..
		for _, l := range x.leaves(el) {
			key := x.elKey(el, l.Path)
			so := arraySort(SInt, l.S)
			h := x.get(st, key, arraySort(SInt, so))
			inner := c.Select(h, arr)
			if t.Len.I != nil && t.Len.I.IsInt64() && t.Len.I.Int64() <= 8 {
				for i := int64(0); i < t.Len.I.Int64(); i++ {
					v := x.leafRead(st, &Addr{Kind: AElem, Root: el, Ref: t.Arr, Idx: c.Add(t.Off, c.Int(i)), T: el}, leaf{l.Path, l.S, l.T, l.Kind})
					inner = c.Store(inner, c.Add(off, c.Int(i)), v)
				}
			} else {
				fi := c.Fresh("app$"+key, so)
				i := c.BoundVar("i", SInt)
				src := c.Select(c.Select(h, t.Arr), c.Add(t.Off, c.Sub(i, off)))
				st.assume(c.Forall([]*Term{i}, c.Eq(c.mk("select", l.S, fi, i), c.Ite(c.And(c.Le(off, i), c.Lt(i, c.Add(off, t.Len))), src, c.Select(inner, i))), []*Term{c.mk("select", l.S, fi, i)}))
				inner = fi
			}
			x.set(st, key, c.Store(h, arr, inner))
		}
	}
	x.branch(fr, st, fits, func(fr *Frame, st *State) {
		write(st, s.Arr, c.Add(s.Off, s.Len))
		k(fr, st, &Slice{s.Arr, s.Off, newLen, s.Cap})
	}, func(fr *Frame, st *State) {
		r := st.next
		st.next = c.Add(r, c.Int(1))
		cp := c.Fresh("cap", SInt)
		st.assume(c.Le(newLen, cp), c.Le(cp, c.Big(maxI64)))
		for _, l := range x.leaves(el) {
			key := x.elKey(el, l.Path)
			so := arraySort(SInt, l.S)
			h := x.get(st, key, arraySort(SInt, so))
			var inner *Term
			if s.Len.I != nil && s.Len.I.Sign() == 0 {
				inner = c.ConstArray(so, x.zeroTerm(l.S, l.T))
			} else if s.Off.I != nil && s.Off.I.Sign() == 0 {
				inner = c.Select(h, s.Arr)
			} else {
				inner = c.Fresh("grow$"+key, so)
				i := c.BoundVar("i", SInt)
				st.assume(c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, s.Len)), c.Eq(c.mk("select", l.S, inner, i), c.Select(c.Select(h, s.Arr), c.Add(s.Off, i)))), []*Term{c.mk("select", l.S, inner, i)}))
			}
			x.set(st, key, c.Store(h, r, inner))
		}
		write(st, r, s.Len)
		k(fr, st, &Slice{r, c.Int(0), newLen, cp})
	})
}

func (x *Exec) copyOp(fr *Frame, st *State, com *ssa.CallCommon, args []Val, pos token.Pos, k callK) {
	c := x.c
	d := args[0].(*Slice)
	el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
	if t, ok := args[1].(*Term); ok && t.S == SStr {
		args[1] = x.strToBytes(st, t)
	}
	s := args[1].(*Slice)
	n := c.Ite(c.Le(s.Len, d.Len), s.Len, d.Len)
	for _, l := range x.leaves(el) {
		key := x.elKey(el, l.Path)
		so := arraySort(SInt, l.S)
		h := x.get(st, key, arraySort(SInt, so))
		fi := c.Fresh("copy$"+key, so)
		i := c.BoundVar("i", SInt)
		src := c.Select(c.Select(h, s.Arr), c.Add(s.Off, c.Sub(i, d.Off)))
		st.assume(c.Forall([]*Term{i}, c.Eq(c.mk("select", l.S, fi, i), c.Ite(c.And(c.Le(d.Off, i), c.Lt(i, c.Add(d.Off, n))), src, c.Select(c.Select(h, d.Arr), i))), []*Term{c.mk("select", l.S, fi, i)}))
		x.set(st, key, c.Store(h, d.Arr, fi))
	}
	k(fr, st, n)
}

// ---------- locks ----------

func (x *Exec) lockOp(fr *Frame, st *State, name string, a *Addr, pos token.Pos) {
	c := x.c
	cur := x.lockGet(st, a)
	key, ref := x.lockKey(a)
	field := strings.TrimPrefix(key, "L:")
	// held counts the locks the running goroutine holds; when it is 0 each
	// single lock is free, whatever its own state is known to be.
	var held *Term
	free := func(cond *Term) *Term { return cond }
	if x.guardOn() {
		held = x.get(st, heldKey, SInt)
		free = func(cond *Term) *Term { return c.Or(c.Eq(held, c.Int(0)), cond) }
	}
	switch name {
	case "Lock":
		x.assert(st, free(c.Eq(cur, c.Int(0))), "lock "+field+" is free when acquired (no self deadlock)", "lock")
		x.lockSet(st, a, c.Int(-1))
	case "RLock":
		if held != nil {
			x.assert(st, free(c.Eq(cur, c.Int(0))), "lock "+field+" is free when acquired (no self deadlock)", "lock")
			x.lockSet(st, a, c.Int(1))
		} else {
			x.assert(st, c.Le(c.Int(0), cur), "lock "+field+" is not write-held when read-acquired", "lock")
			x.lockSet(st, a, c.Add(cur, c.Int(1)))
		}
	case "Unlock":
		x.assert(st, c.Eq(cur, c.Int(-1)), "lock "+field+" is write-held when released", "lock")
		x.lockSet(st, a, c.Int(0))
	case "RUnlock":
		x.assert(st, c.Lt(c.Int(0), cur), "lock "+field+" is read-held when released", "lock")
		x.lockSet(st, a, c.Sub(cur, c.Int(1)))
	}
	if held != nil {
		d := int64(1)
		if name == "Unlock" || name == "RUnlock" {
			d = -1
		}
		x.set(st, heldKey, c.Add(held, c.Int(d)))
	}
	if name == "Lock" || name == "RLock" {
		k := "X:acq:" + key
		h := x.get(st, k, arraySort(SInt, SInt))
		x.set(st, k, c.Store(h, ref, c.Add(c.Select(h, ref), c.Int(1))))
	}
}

const heldKey = "X:held"

// ---------- lock discipline ----------

type guardOwner struct {
	g    *Guard
	addr *Addr // address of the lock
	name string
}

func (x *Exec) guardOn() bool {
	if x.guardState == 0 {
		x.guardState = 2
		for _, g := range x.S.Guards {
			if visible(g.Props, x.prop) {
				x.guardState = 1
			}
		}
	}
	return x.guardState == 1
}

func (x *Exec) guardFor(a *Addr) *guardOwner {
	if a.Path == "" && a.Kind != AGlobal {
		return nil
	}
	for _, g := range x.S.Guards {
		if !visible(g.Props, x.prop) {
			continue
		}
		if g.Global {
			if a.Kind != AGlobal {
				continue
			}
			gn := shortName(a.G.RelString(nil))
			for _, f := range g.Fields {
				if f == gn {
					lk := x.findGlobal(g.Lock)
					if lk == nil {
						continue
					}
					el := lk.Type().(*types.Pointer).Elem()
					return &guardOwner{g, &Addr{Kind: AGlobal, G: lk, Root: el, T: el}, gn}
				}
			}
			continue
		}
		if a.Kind != AObj || shortName(typeName(a.Root)) != g.Type {
			continue
		}
		for _, f := range g.Fields {
			if a.Path == "."+f || strings.HasPrefix(a.Path, "."+f+".") {
				st := a.Root.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == g.Lock {
						b := *a
						b.Path = "." + g.Lock
						b.T = st.Field(i).Type()
						return &guardOwner{g, &b, g.Type + "." + f}
					}
				}
			}
		}
	}
	return nil
}

func (x *Exec) findGlobal(name string) *ssa.Global {
	for _, p := range x.P.Pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && shortName(g.RelString(nil)) == name {
				return g
			}
		}
	}
	return nil
}

func (x *Exec) guardAssert(fr *Frame, st *State, o *guardOwner, write bool, pos token.Pos) {
	c := x.c
	cur := x.lockGet(st, o.addr)
	var ok *Term
	mode := "read"
	if write {
		ok = c.Eq(cur, c.Int(-1))
		mode = "written"
	} else {
		ok = c.Not(c.Eq(cur, c.Int(0)))
	}
	if o.addr.Kind == AObj {
		ok = c.Or(c.Le(x.next0, o.addr.Ref), ok) // not yet published objects
	}
	x.guarded[shortName(fr.fn.RelString(nil))] = true
	x.assert(st, ok, fmt.Sprintf("%s is %s under its lock in %s", o.name, mode, shortName(fr.fn.RelString(nil))), "guard")
}

func (x *Exec) guardCheck(fr *Frame, st *State, a *Addr, write bool, pos token.Pos) {
	if !x.guardOn() {
		return
	}
	if a.Kind == AElem {
		x.guardRef(fr, st, a.Ref, write, pos)
		return
	}
	o := x.guardFor(a)
	if o == nil {
		return
	}
	x.guardAssert(fr, st, o, write, pos)
	if !write {
		// remember the owner of maps and slices stored in guarded fields
		switch a.T.Underlying().(type) {
		case *types.Map, *types.Slice:
			ls := x.leaves(a.T)
			r := x.leafRead(st, a, ls[0])
			x.guardOrigin[r] = o
		}
	} else {
		_ = write
	}
}

func (x *Exec) guardRef(fr *Frame, st *State, ref *Term, write bool, pos token.Pos) {
	if !x.guardOn() {
		return
	}
	if o := x.guardOrigin[ref]; o != nil {
		x.guardAssert(fr, st, o, write, pos)
	}
}

func (x *Exec) guardMap(fr *Frame, st *State, m ssa.Value, write bool, pos token.Pos) {
	if !x.guardOn() {
		return
	}
	if t, ok := x.val(fr, m).(*Term); ok {
		x.guardRef(fr, st, t, write, pos)
	}
}

// ---------- intrinsics ----------

func (x *Exec) intrinsic(fr *Frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos, k callK) bool {
	c := x.c
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		x.lockOp(fr, st, name[strings.LastIndexByte(name, '.')+1:], args[0].(*Addr), pos)
		k(fr, st, Tuple{})
		return true
	case "errors.New":
		if x.contractOf(name) != nil {
			return false
		}
		v := c.Fresh("err", SIface)
		st.assume(c.Lt(c.Int(0), x.typeof(v)))
		// distinct from the package-level errors made by other calls
		st.assume(c.Eq(c.App("errid", SInt, v), c.Int(0)))
		st.assume(c.Eq(c.App("errtext", SStr, v), args[0].(*Term)))
		k(fr, st, v)
		return true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if t := x.formatCall(st, name[len("fmt.S"):], args); t != nil {
			x.trusted[name+" (decimal, string and boolean verbs)"] = true
			k(fr, st, t)
			return true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		con := x.contractOf("io.WriteString")
		t := x.formatCall(st, name[len("fmt.F"):], args[1:])
		if t == nil || con == nil {
			return false
		}
		x.trusted[name+" (decimal, string and boolean verbs)"] = true
		x.applyContract(fr, st, con, fn.Signature, []Val{args[0], t}, []types.Type{fn.Signature.Params().At(0).Type(), types.Typ[types.String]}, pos, k)
		return true
	case "strconv.Itoa":
		k(fr, st, x.decStr(args[0].(*Term)))
		return true
	case "strconv.FormatInt", "strconv.FormatUint":
		if b := args[1].(*Term); b.I != nil && b.I.Int64() == 10 {
			k(fr, st, x.decStr(args[0].(*Term)))
			return true
		}
	case "sort.Search":
		n := args[0].(*Term)
		cl := x.asClo(args[1])
		r := c.Fresh("search", SInt)
		st.assume(c.Le(c.Int(0), r), c.Imp(c.Le(c.Int(0), n), c.Le(r, n)), c.Imp(c.Lt(n, c.Int(0)), c.Eq(r, c.Int(0))))
		// f(r) holds when r<n, f(r-1) fails when r>0 (true for any predicate)
		s1 := st.clone()
		s1.assume(c.Lt(r, n))
		if x.feasible(s1) {
			st.assume(c.Imp(c.Lt(r, n), x.evalPure(fr, s1, cl, []Val{r})))
		}
		s2 := st.clone()
		s2.assume(c.Lt(c.Int(0), r))
		if x.feasible(s2) {
			st.assume(c.Imp(c.Lt(c.Int(0), r), c.Not(x.evalPure(fr, s2, cl, []Val{c.Sub(r, c.Int(1))}))))
		}
		x.trusted["sort.Search"] = true
		k(fr, st, r)
		return true
	case "bytes.IndexFunc", "strings.IndexFunc":
		if x.contractOf(name) != nil {
			return false
		}
		k(fr, st, x.indexFunc(fr, st, name, args[0], x.asClo(args[1]), pos))
		return true
	case "math.Min", "math.Max":
		if c.FltMode == "fp" || c.FltMode == "uf" {
			a, b := args[0].(*Term), args[1].(*Term)
			k(fr, st, x.goMinMax(name == "math.Min", a, b))
			return true
		}
		if c.FltMode == "real" {
			a, b := args[0].(*Term), args[1].(*Term)
			if name == "math.Min" {
				k(fr, st, c.Ite(c.mk("<=", SBool, a, b), a, b))
			} else {
				k(fr, st, c.Ite(c.mk("<=", SBool, a, b), b, a))
			}
			return true
		}
	case "math.IsNaN":
		k(fr, st, x.fpIsNaN(args[0].(*Term)))
		return true
	case "math.Abs":
		if t := args[0].(*Term); t.S == SF64 {
			k(fr, st, x.fp("fp.abs", SF64, t))
			return true
		}
		if t := args[0].(*Term); t.S == SReal {
			zero := x.zeroTerm(SReal, types.Typ[types.Float64])
			k(fr, st, c.Ite(c.mk("<=", SBool, zero, t), t, c.mk("-", SReal, zero, t)))
			return true
		}
	case "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven", "math.Round":
		if t := args[0].(*Term); t.S == SF64 && c.FltMode == "fp" {
			m := map[string]string{"math.Floor": "RTN", "math.Ceil": "RTP", "math.Trunc": "RTZ", "math.RoundToEven": "RNE", "math.Round": "RNA"}[name]
			k(fr, st, c.mk("fp.roundToIntegral", SF64, c.mk(m, SRM), t))
			return true
		}
		if t := args[0].(*Term); t.S == SReal {
			r := c.mk("to_real", SReal, x.realToInt(name, t))
			x.repFact(st, r)
			k(fr, st, r)
			return true
		}
	case "math.Modf":
		if t := args[0].(*Term); t.S == SReal {
			i := c.mk("to_real", SReal, x.realToInt("math.Trunc", t))
			f := c.mk("-", SReal, t, i)
			x.repFact(st, i)
			x.repFact(st, f)
			k(fr, st, Tuple{i, f})
			return true
		}
	case "math.Inf":
		if s := args[0].(*Term); s.I != nil {
			f := 1
			if s.I.Sign() < 0 {
				f = -1
			}
			k(fr, st, x.f64(math.Inf(f)))
			return true
		}
	case "math.IsInf":
		t := args[0].(*Term)
		if s := args[1].(*Term); s.I != nil {
			r := x.fpIsInf(t)
			if s.I.Sign() > 0 {
				r = c.And(r, x.fp("fp.isPositive", SBool, t))
			} else if s.I.Sign() < 0 {
				r = c.And(r, x.fp("fp.isNegative", SBool, t))
			}
			k(fr, st, r)
			return true
		}
	}
	return false
}

// goMinMax models math.Min / math.Max exactly (NaN, signed zero).
func (x *Exec) goMinMax(min bool, a, b *Term) *Term {
	c := x.c
	nan := x.f64(math.NaN())
	inf := x.f64(math.Inf(1))
	if min {
		inf = x.f64(math.Inf(-1))
	}
	isZ := func(t *Term) *Term { return x.fp("fp.isZero", SBool, t) }
	neg := func(t *Term) *Term { return x.fp("fp.isNegative", SBool, t) }
	var zero, cmp *Term
	if min {
		zero = c.Ite(neg(a), a, b)
		cmp = c.Ite(x.fp("fp.lt", SBool, a, b), a, b)
	} else {
		zero = c.Ite(neg(a), b, a)
		cmp = c.Ite(x.fp("fp.lt", SBool, b, a), a, b)
	}
	return c.Ite(c.Or(x.fp("fp.eq", SBool, a, inf), x.fp("fp.eq", SBool, b, inf)), inf,
		c.Ite(c.Or(x.fpIsNaN(a), x.fpIsNaN(b)), nan,
			c.Ite(c.And(isZ(a), isZ(b)), zero, cmp)))
}

func (x *Exec) asClo(v Val) *Clo {
	switch w := v.(type) {
	case *Clo:
		return w
	case *Term:
		if cl, ok := x.cloTab[w]; ok {
			return cl
		}
	}
	unsup("unknown function value")
	return nil
}

// evalPure evaluates a side-effect free closure to a single term.
func (x *Exec) evalPure(fr *Frame, st *State, cl *Clo, args []Val) *Term {
	c := x.c
	type res struct {
		g, v *Term
	}
	var out []res
	n0 := len(st.pc)
	base := st.clone()
	nf := x.newFrame(cl.Fn, fr)
	for i, p := range cl.Fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range cl.Fn.FreeVars {
		nf.env[fv] = cl.Bind[i]
	}
	nf.ret = func(s *State, v Val) {
		if s.epoch != base.epoch {
			unsup("predicate closure has side effects")
		}
		for k, t := range s.heap {
			if o := base.heap[k]; o != nil && o != t && !strings.HasPrefix(k, "X:acq") {
				unsup("predicate closure has side effects")
			}
		}
		out = append(out, res{c.And(s.pc[n0:]...), v.(*Term)})
	}
	nf.pan = func(s *State, p *PanicInfo) {
		x.doPanic(fr.clone(), s, p)
	}
	if con := x.contractOf(shortName(cl.Fn.RelString(nil))); con != nil {
		_ = con
	}
	x.run(nf, cl.Fn.Blocks[0], 0, base.clone())
	if len(out) == 0 {
		return c.True()
	}
	r := out[len(out)-1].v
	for i := len(out) - 2; i >= 0; i-- {
		r = c.Ite(out[i].g, out[i].v, r)
	}
	// facts assumed on the way (type ranges) are consequences of st
	return r
}

// ---------- formatting ----------

func (x *Exec) decStr(t *Term) *Term {
	if t.I != nil {
		return x.c.Str(t.I.String())
	}
	return x.c.App("decstr", SStr, t)
}

func (x *Exec) decPad(w int64, t *Term) *Term {
	if t.I != nil {
		return x.c.Str(fmt.Sprintf("%0*d", w, t.I))
	}
	return x.c.App("decpad", SStr, x.c.Int(w), t)
}

// formatCall gives the text of a Print-style call as a concatenation, or nil.
func (x *Exec) formatCall(st *State, verb string, args []Val) *Term {
	c := x.c
	format := ""
	if verb == "printf" {
		ft, ok := c.litTextOK(args[0].(*Term))
		if !ok {
			return nil
		}
		format = ft
		args = args[1:]
	}
	va, ok := args[0].(*Slice)
	if !ok || va.Len.I == nil {
		return nil
	}
	n := int(va.Len.I.Int64())
	ifT := types.NewInterfaceType(nil, nil)
	el := make([]*Term, n)
	for i := range el {
		el[i] = x.leafRead(st, &Addr{Kind: AElem, Root: ifT, Ref: va.Arr, Idx: c.Add(va.Off, c.Int(int64(i))), T: ifT}, x.leaves(ifT)[0])
	}
	res := c.Str("")
	one := func(e *Term, flag string, width int64, vb byte) *Term {
		if t, ok := x.knownBox(e); ok {
			hasM := types.NewMethodSet(t).Lookup(nil, "String") != nil || types.NewMethodSet(t).Lookup(nil, "Error") != nil
			b, isB := t.Underlying().(*types.Basic)
			if isB {
				v, _ := x.unbox(e, t).(*Term)
				switch {
				case b.Info()&types.IsInteger != 0 && v.S == SInt && (vb == 'd' || vb == 'v' && !hasM):
					if flag == "0" && width > 0 {
						return x.decPad(width, v)
					}
					if flag == "" && width == 0 {
						return x.decStr(v)
					}
				case b.Info()&types.IsString != 0 && (vb == 's' || vb == 'v') && !hasM && flag == "" && width == 0:
					return v
				case b.Info()&types.IsBoolean != 0 && vb == 'v' && !hasM && flag == "" && width == 0:
					return c.Ite(v, c.Str("true"), c.Str("false"))
				}
			}
		}
		return c.App("fmtarg", SStr, c.Str(fmt.Sprintf("%%%s%d%c", flag, width, vb)), e)
	}
	switch verb {
	case "print", "println":
		prevStr := true
		for i, e := range el {
			isStr := false
			if t, ok := x.knownBox(e); ok {
				isStr = isString(t)
			}
			if i > 0 && (verb == "println" || !isStr && !prevStr) {
				res = x.strCat(res, c.Str(" "))
			}
			if _, ok := x.knownBox(e); !ok && i > 0 && verb == "print" {
				return nil
			}
			prevStr = isStr
			res = x.strCat(res, one(e, "", 0, 'v'))
		}
		if verb == "println" {
			res = x.strCat(res, c.Str("\n"))
		}
		return res
	}
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			res = x.strCat(res, c.Str(format[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			res = x.strCat(res, c.Str("%"))
			continue
		}
		flag, width := "", int64(0)
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			flag += string(format[i])
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int64(format[i]-'0')
			i++
		}
		if i >= len(format) || !(format[i] >= 'a' && format[i] <= 'z') {
			// precision etc.: opaque
			j := i
			for j < len(format) && !(format[j] >= 'a' && format[j] <= 'z') {
				j++
			}
			verb := ""
			if j < len(format) {
				verb = format[i : j+1]
			}
			if strings.HasPrefix(verb, ".*") && k+1 < n {
				// the precision is an argument
				t, ok := x.knownBox(el[k])
				if !ok {
					return nil
				}
				pv, _ := x.unbox(el[k], t).(*Term)
				if b, isB := t.Underlying().(*types.Basic); !isB || b.Kind() != types.Int || pv == nil || pv.I == nil || pv.I.Sign() < 0 {
					return nil
				}
				verb = "." + pv.I.String() + verb[2:]
				k++
			}
			if verb == "" || k >= n || strings.IndexByte(verb, '*') >= 0 {
				return nil
			}
			res = x.strCat(res, x.fmtPrec(flag, width, verb, el[k]))
			k++
			i = j
			continue
		}
		if k >= n {
			return nil
		}
		res = x.strCat(res, one(el[k], flag, width, format[i]))
		k++
	}
	if k != n {
		return nil
	}
	return res
}

// fmtPrec is the text of e under a verb with a precision; %.Nf of a float is
// the spec function fixed(N, e).
func (x *Exec) fmtPrec(flag string, width int64, verb string, e *Term) *Term {
	c := x.c
	if t, ok := x.knownBox(e); ok && flag == "" && width == 0 && verb[0] == '.' && verb[len(verb)-1] == 'f' && c.FltMode == "real" && x.S.Funs["fixed"] != nil {
		n, err := strconv.Atoi("0" + verb[1:len(verb)-1])
		if b, isB := t.Underlying().(*types.Basic); err == nil && isB && b.Kind() == types.Float64 && types.NewMethodSet(t).Lookup(nil, "Format") == nil {
			if v, _ := x.unbox(e, t).(*Term); v != nil && v.S == SReal {
				x.useFun("fixed")
				return c.App("f$fixed", SStr, c.Int(int64(n)), v)
			}
		}
	}
	return c.App("fmtarg", SStr, c.Str("%"+flag+fmt.Sprint(width)+verb), e)
}

// indexFunc is bytes.IndexFunc or strings.IndexFunc of ASCII text.
func (x *Exec) indexFunc(fr *Frame, st *State, name string, arg Val, cl *Clo, pos token.Pos) *Term {
	c := x.c
	var n *Term
	var at func(i *Term) *Term
	switch w := arg.(type) {
	case *Slice:
		n = w.Len
		el := types.Typ[types.Uint8]
		at = func(i *Term) *Term {
			return x.leafRead(st, &Addr{Kind: AElem, Root: el, Ref: w.Arr, Idx: c.Add(w.Off, i), T: el}, x.leaves(el)[0])
		}
	case *Term:
		n = x.strLen(w)
		at = func(i *Term) *Term { return x.strAt(w, i) }
	default:
		unsup("%s", name)
	}
	j := c.BoundVar("j", SInt)
	in := c.And(c.Le(c.Int(0), j), c.Lt(j, n))
	x.assert(st, c.Forall([]*Term{j}, c.Imp(in, c.Lt(at(j), c.Int(128))), []*Term{at(j)}), name+" at "+x.posStr(pos)+": the text is ASCII", "precondition")
	r := c.Fresh("index", SInt)
	st.assume(c.Le(c.Int(-1), r), c.Lt(r, n))
	// f of a character
	ch := c.Fresh("ch", SInt)
	s1 := st.clone()
	s1.assume(c.Le(c.Int(0), ch), c.Lt(ch, c.Int(128)))
	p := x.evalPure(fr, s1, cl, []Val{ch})
	f := func(i *Term) *Term { return c.Subst(p, map[*Term]*Term{ch: at(i)}) }
	st.assume(c.Imp(c.Le(c.Int(0), r), f(r)))
	st.assume(c.Forall([]*Term{j}, c.Imp(c.And(c.Le(c.Int(0), j), c.Lt(j, c.Ite(c.Lt(r, c.Int(0)), n, r))), c.Not(f(j))), []*Term{at(j)}))
	x.trusted[name+" (of ASCII text)"] = true
	return r
}

// ---------- library functions without a contract ----------

func hasFunc(sig *types.Signature) bool {
	for _, t := range paramTypes(sig) {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// lockFreeCall stands for a call into the library in a check about locks only:
// it may panic and change anything but the locks of this repository.
func (x *Exec) lockFreeCall(fr *Frame, st *State, name string, sig *types.Signature, pos token.Pos, k callK) {
	x.trusted[name+" (takes and releases no lock of the repository, may panic and change anything else)"] = true
	eff := func(s *State) {
		x.get(s, heldKey, SInt)
		kept := map[string]*Term{}
		for key, so := range x.keySort {
			if key == heldKey || strings.HasPrefix(key, "L:") || strings.HasPrefix(key, "X:acq") {
				kept[key] = x.get(s, key, so)
			}
		}
		x.havocAll(s)
		for key, t := range kept {
			x.set(s, key, t)
		}
		x.bumpNext(s)
	}
	ps := st.clone()
	eff(ps)
	ps.note(name + " panics at " + x.posStr(pos))
	x.doPanic(fr.clone(), ps, &PanicInfo{Kind: "panic in " + name, Pos: x.posStr(pos)})
	eff(st)
	r, _ := x.resultVal(st, "ret$"+name, sig)
	k(fr, st, r)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "unicode": true, "utf8": true, "errors": true, "path": true, "filepath": true, "bits": true}

func (x *Exec) externCall(fr *Frame, st *State, name string, sig *types.Signature, args []Val, pos token.Pos, k callK) {
	pk := strings.TrimLeft(name, "(*")
	if i := strings.IndexByte(pk, '.'); i >= 0 {
		pk = pk[:i]
	}
	pure := purePkgs[pk] && !strings.HasPrefix(name, "(*")
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf":
		pure = true
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(time.Duration).") {
		pure = true
	}
	if !pure {
		if x.noFeas && !hasFunc(sig) {
			x.lockFreeCall(fr, st, name, sig, pos, k)
			return
		}
		unsup("call of %s, which has no contract", name)
	}
	x.trusted[name+" (no effect, unspecified result)"] = true
	// deterministic result when all arguments are scalars
	var ts []*Term
	det := true
	for _, a := range args {
		switch w := a.(type) {
		case *Term:
			ts = append(ts, w)
		default:
			det = false
		}
	}
	if det && sig.Results().Len() >= 1 {
		tp := Tuple{}
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			var rs []*Term
			for j, l := range x.leaves(rt) {
				if l.Kind != "" {
					det = false
					break
				}
				if len(ts) == 0 {
					rs = append(rs, x.c.NamedSym(fmt.Sprintf("lib$%s.%d.%d", sanitize(name), i, j), l.S))
				} else {
					rs = append(rs, x.c.App(fmt.Sprintf("lib$%s.%d.%d", sanitize(name), i, j), l.S, ts...))
				}
			}
			if !det {
				break
			}
			x.leafFacts(st, rs, rt)
			tp = append(tp, x.unflatten(rs, rt))
		}
		if det {
			if len(tp) == 1 {
				k(fr, st, tp[0])
			} else {
				k(fr, st, tp)
			}
			return
		}
	}
	x.bumpNext(st)
	r, _ := x.resultVal(st, "lib$"+name, sig)
	if name == "fmt.Errorf" {
		st.assume(x.c.Not(x.ifaceIsNil(r.(*Term))))
	}
	k(fr, st, r)
}

// useFun attaches the axioms and lemmas about a specification function.
func (x *Exec) useFun(name string) {
	if x.usedFun[name] {
		return
	}
	x.usedFun[name] = true
	if f := x.S.Funs[name]; f != nil && f.Def != nil {
		c := x.c
		env := &SpecEnv{x: x, st: x.pureState(), vars: map[string]SV{}, inner: name}
		var vs []*Term
		for i, v := range f.Vars {
			b := c.BoundVar(v, env.specSort(f.Args[i]))
			vs = append(vs, b)
			env.vars[v] = SV{b, specVarType(env, f.Args[i])}
		}
		rs := env.specSort(f.Res)
		outer := c.App("f$"+name, rs, vs...)
		body := env.eval(f.Def)
		bt := env.coerce(body, rs, f.Def)
		ax := c.Forall(vs, c.And(c.Eq(outer, c.App("f$"+name+"!0", rs, vs...)), c.Eq(outer, bt)), []*Term{outer})
		x.c.AddAxiom("f$"+name, ax)
		x.c.heavy[ax] = true
	}
	for i, ax := range x.S.Axioms {
		for _, f := range x.S.AxFor[i] {
			if f == name {
				env := &SpecEnv{x: x, st: x.pureState(), vars: map[string]SV{}}
				t := x.evalAxiom(env, ax.E, ax.At)
				x.c.AddAxiom("f$"+name, t)
				x.assumed["axiom "+ax.Label+": "+ax.Src] = true
				break
			}
		}
	}
	for i, l := range x.S.Lemmas {
		if i >= x.lemmaLimit {
			break
		}
		attach := false
		for _, f := range l.For {
			if f == name {
				attach = true
			}
		}
		if !attach || l.Mode["manual"] != "" && !x.uses(l.Name) {
			continue
		}
		if l.Mode["float"] != "" && l.Mode["float"] != x.c.FltMode && l.Mode["use"] != x.c.FltMode {
			continue
		}
		t := x.lemmaTerm(l)
		x.c.AddAxiom("f$"+name, t)
		x.c.heavy[t] = true
		x.usedLemmas[l.Name] = true
	}
}

func (x *Exec) uses(l string) bool {
	for _, u := range x.con.Uses {
		if u == l {
			return true
		}
	}
	return false
}

func (x *Exec) pureState() *State {
	return &State{heap: map[string]*Term{}, pcm: map[*Term]bool{}, next: x.next0}
}

func (x *Exec) evalAxiom(env *SpecEnv, e ast.Expr, at string) *Term {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				panic(unsupported{u.msg + " [" + at + "]"})
			}
			panic(r)
		}
	}()
	return env.Bool(e)
}

// lemmaTerm is the universally quantified statement of a lemma.
func (x *Exec) lemmaTerm(l *Lemma) *Term {
	c := x.c
	env := &SpecEnv{x: x, st: x.pureState(), vars: map[string]SV{}}
	var vs []*Term
	var guards []*Term
	for _, v := range l.Vars {
		so := env.specSort(v.Type)
		b := c.BoundVar(v.Name, so)
		vs = append(vs, b)
		env.vars[v.Name] = SV{b, specVarType(env, v.Type)}
		guards = append(guards, env.rangeOf(b, v.Type)...)
	}
	for _, r := range l.Requires {
		guards = append(guards, x.evalAxiom(env, r.E, r.At))
	}
	var cs []*Term
	for _, r := range l.Ensures {
		cs = append(cs, x.evalAxiom(env, r.E, r.At))
	}
	var pats [][]*Term
	if len(l.Trigger) > 0 {
		var p []*Term
		for _, t := range l.Trigger {
			p = append(p, env.term(t))
		}
		pats = append(pats, p)
	}
	return c.Forall(vs, c.Imp(c.And(guards...), c.And(cs...)), pats...)
}

func specVarType(env *SpecEnv, s string) types.Type {
	switch s {
	case "int", "ref", "rv", "time", "seq", "real":
		return nil
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "float":
		return types.Typ[types.Float64]
	case "iface":
		return types.NewInterfaceType(nil, nil)
	}
	if strings.Contains(s, "(") || strings.HasPrefix(s, "bv") {
		return nil
	}
	return env.typStr(s)
}

func (e *SpecEnv) rangeOf(t *Term, ty string) []*Term {
	if ty == "int" || t.S != SInt {
		return nil
	}
	gt := specVarType(e, ty)
	if gt == nil {
		return nil
	}
	if _, _, ok := intInfo(gt); ok {
		lo, hi := intRange(gt)
		return []*Term{e.x.c.Le(e.x.c.Big(lo), t), e.x.c.Le(t, e.x.c.Big(hi))}
	}
	return nil
}

var _ = os.Getenv
