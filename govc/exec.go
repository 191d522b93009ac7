package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Func    string   `json:"function"`
	Name    string   `json:"obligation"`
	Kind    string   `json:"kind"`
	Count   int      `json:"conditions"`
	Status  string   `json:"status"` // discharged, failed, unknown
	Backend string   `json:"backend,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Model   []string `json:"model,omitempty"`
	Path    []string `json:"path,omitempty"`
}

// Exec verifies one function (task).
type Exec struct {
	P    *Program
	S    *SpecDB
	c    *Ctx
	z    *Z3
	prop string
	con  *Contract
	fn   *ssa.Function

	leafCache                                                             map[string][]leaf
	cloTab                                                                map[*Term]*Clo
	cloTerms                                                              map[*Clo]*Term
	addrTab                                                               map[*Term]*Addr
	structNames                                                           map[*types.Struct]string
	implIfaces                                                            map[string]*types.Interface
	boxed                                                                 map[string]types.Type
	keySort                                                               map[string]Sort
	satCache                                                              map[string]Result
	satMs                                                                 map[string]int
	globals                                                               map[*ssa.Global][]*Term
	trigs                                                                 map[*Term][][]*Term
	globalRefs                                                            []*Term
	constArr                                                              map[*Term]*constArr
	constStr                                                              map[*Term]*Term
	bytesLit                                                              map[*Term]*Term
	i2fAx                                                                 map[string]bool
	epochs                                                                int
	nilAx, strLenAx, strAtAx, strCatAx, strSubAx, strLtAx, s2bAx, rtypeAx bool
	errIDs                                                                int
	next0                                                                 *Term
	entry                                                                 *State
	usedFun                                                               map[string]bool

	quiet       int
	disc        int // discovery mode depth
	obs         map[string]*Obligation
	obOrder     []string
	used        map[string]bool // contracts relied on
	inlined     map[string]bool
	trusted     map[string]bool
	assumed     map[string]bool
	deadline    time.Time
	steps       int
	paths       int
	obTimeout   int // seconds, portfolio
	forms       map[*ssa.Function]*loopForest
	gcache      map[*ssa.Function]map[string]string
	guardState  int
	noFeas      bool // branches are explored without asking a solver (mode feas=0)
	guarded     map[string]bool
	guardOrigin map[*Term]*guardOwner
	lemmaLimit  int
	usedLemmas  map[string]bool
	inSpecEval  int
	verbose     bool
	bad         int // failed or undecided obligations so far
}

func newExec(p *Program, s *SpecDB, prop string) *Exec {
	x := &Exec{P: p, S: s, prop: prop, c: NewCtx(), z: &Z3{},
		leafCache: map[string][]leaf{}, cloTab: map[*Term]*Clo{}, cloTerms: map[*Clo]*Term{}, addrTab: map[*Term]*Addr{},
		structNames: map[*types.Struct]string{}, implIfaces: map[string]*types.Interface{}, boxed: map[string]types.Type{},
		keySort: map[string]Sort{}, satCache: map[string]Result{}, satMs: map[string]int{}, globals: map[*ssa.Global][]*Term{},
		constArr: map[*Term]*constArr{}, constStr: map[*Term]*Term{}, bytesLit: map[*Term]*Term{}, i2fAx: map[string]bool{},
		usedFun: map[string]bool{}, obs: map[string]*Obligation{}, used: map[string]bool{}, inlined: map[string]bool{},
		trusted: map[string]bool{}, assumed: map[string]bool{}, forms: map[*ssa.Function]*loopForest{}, obTimeout: 20,
		guarded: map[string]bool{}, guardOrigin: map[*Term]*guardOwner{}, usedLemmas: map[string]bool{}, lemmaLimit: 1 << 30}
	x.next0 = x.c.NamedSym("next!0", SInt)
	for tn := range s.TypedGhost {
		for _, pk := range p.Prog.AllPackages() {
			if strings.HasPrefix(tn, pk.Pkg.Name()+".") {
				if o, ok := pk.Pkg.Scope().Lookup(tn[len(pk.Pkg.Name())+1:]).(*types.TypeName); ok {
					x.rootKey(o.Type())
				}
			}
		}
	}
	return x
}

func (x *Exec) assumption(s string) { x.assumed[s] = true }

func (x *Exec) checkBudget() {
	if time.Now().After(x.deadline) {
		panic(unsupported{"time budget exhausted"})
	}
}

func visible(props []string, prop string) bool {
	if len(props) == 0 || prop == "" {
		return true
	}
	for _, p := range props {
		if p == prop {
			return true
		}
	}
	return false
}

// ---------- obligations ----------

func (x *Exec) ob(name, kind string) *Obligation {
	o := x.obs[name]
	if o == nil {
		o = &Obligation{Func: x.fname(), Name: name, Kind: kind, Status: "discharged"}
		x.obs[name] = o
		x.obOrder = append(x.obOrder, name)
	}
	return o
}

func (x *Exec) fname() string {
	if x.con != nil {
		return x.con.Name
	}
	return "?"
}

// assert discharges f in st (with extra facts) and then assumes it.
func (x *Exec) assert(st *State, f *Term, name, kind string) {
	if x.quiet > 0 {
		st.assume(f)
		return
	}
	o := x.ob(name, kind)
	o.Count++
	if f.IsTrue() || st.pcm[f] {
		if o.Backend == "" {
			o.Backend = "simplifier"
		}
		return
	}
	// split conjunctions
	if f.Op == "and" && len(f.Args) > 1 {
		o.Count--
		for _, a := range f.Args {
			x.assert(st, a, name, kind)
		}
		return
	}
	if o.Status != "discharged" {
		st.assume(f)
		return
	}
	x.checkBudget()
	as := append(append([]*Term{}, st.pc...), x.c.Not(f))
	body := x.c.Query(as)
	t0 := time.Now()
	r := x.z.check(body, 2500, false)
	if r != Unsat {
		r = x.z.Check(body, 2500)
	}
	back := "z3-new"
	if r == Unknown {
		r, back = Portfolio(body, x.obTimeout)
		if r == Unknown {
			r, back = race(body, x.obTimeout, portfolio2(x.obTimeout))
		}
	}
	if x.verbose {
		fmt.Fprintf(os.Stderr, "    ob %s: %s %s %v\n", name, r, back, time.Since(t0).Round(time.Millisecond))
	}
	switch r {
	case Unsat:
		if o.Backend == "" || o.Backend == "simplifier" {
			o.Backend = back
		} else if !strings.Contains(o.Backend, back) {
			o.Backend += "," + back
		}
	case Sat:
		o.Status = "failed"
		o.Backend = back
		o.Detail = x.c.Show(f)
		o.Path = append([]string{}, st.path...)
		o.Model = x.model(body)
		x.dumpQuery(name, body)
	default:
		o.Status = "unknown"
		o.Detail = "no solver answered: " + x.c.Show(f)
		o.Path = append([]string{}, st.path...)
		x.dumpQuery(name, body)
	}
	if r != Unsat {
		x.bad++
		if x.bad >= 4 {
			unsup("stopped after %d failed obligations", x.bad)
		}
	}
	st.assume(f)
}

func (x *Exec) dumpQuery(name, body string) {
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(d+"/"+sanitize(x.fname()+"_"+name)+".smt2", []byte(body+"(check-sat)\n"), 0o644)
	}
}

func (x *Exec) model(body string) []string {
	var syms []string
	for n, d := range x.c.decls {
		if len(d.Args) == 0 && strings.HasPrefix(n, "p$") && strings.Contains(body, n) {
			syms = append(syms, n)
		}
	}
	sort.Strings(syms)
	if len(syms) == 0 {
		return nil
	}
	_, m := Model(body, syms, 3)
	var out []string
	for _, s := range syms {
		if v, ok := m[s]; ok {
			out = append(out, s+" = "+v)
		}
	}
	return out
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := x.P.Fset.Position(p)
	f := pos.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pos.Line)
}

// ---------- frames and blocks ----------

func (x *Exec) newFrame(fn *ssa.Function, up *Frame) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, up: up, active: map[*ssa.BasicBlock]*loopCtl{}, unrolled: map[*ssa.BasicBlock]int{}}
	if up != nil {
		fr.depth = up.depth + 1
	}
	lf := x.forms[fn]
	if lf == nil {
		lf = buildLoops(fn)
		x.forms[fn] = lf
	}
	fr.lf = lf
	return fr
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch t := v.(type) {
	case *ssa.Const:
		return x.constOperand(t)
	case *ssa.Global:
		el := t.Type().(*types.Pointer).Elem()
		return &Addr{Kind: AGlobal, G: t, Root: el, T: el}
	case *ssa.Function:
		return &Clo{Fn: t}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constOperand(t *ssa.Const) Val {
	if t.Value == nil {
		return x.zero(t.Type())
	}
	return x.constVal(t.Value, t.Type())
}

// enter transfers control to block b coming from prev.
func (x *Exec) enter(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	// leaving loops
	for h, ctl := range fr.active {
		if !fr.lf.in[h][b] {
			if ctl.probe {
				return
			}
			delete(fr.active, h)
		}
	}
	for h := range fr.unrolled {
		if !fr.lf.in[h][b] {
			delete(fr.unrolled, h)
		}
	}
	if fr.lf.in[b] != nil { // loop header
		if ctl := fr.active[b]; ctl != nil {
			phis := x.phiVals(fr, b, prev)
			ctl.back(fr, st, phis)
			return
		}
		x.loopEnter(fr, b, prev, st)
		return
	}
	for p, v := range x.phiVals(fr, b, prev) {
		fr.env[p] = v
	}
	x.run(fr, b, 0, st)
}

func (x *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			out[phi] = x.val(fr, phi.Edges[idx])
		}
	}
	return out
}

func (x *Exec) step() {
	x.steps++
	if x.steps > 400000 {
		panic(unsupported{"step limit"})
	}
	if x.steps%64 == 0 {
		x.checkBudget()
	}
}

// check forks on a runtime safety condition.
func (x *Exec) check(fr *Frame, st *State, ok *Term, kind string, pos token.Pos) bool {
	if ok.IsTrue() || st.pcm[ok] {
		return true
	}
	if !x.noFeas && x.proveQF(st, ok, 500) {
		st.assume(ok)
		return true
	}
	if !x.noFeas && x.disc == 0 && x.prove(st, ok, 2000) {
		st.assume(ok)
		return true
	}
	// panicking path
	bad := st.clone()
	bad.assume(x.c.Not(ok))
	if x.feasible(bad) {
		bad.note(kind + " at " + x.posStr(pos))
		f2 := fr.clone()
		x.doPanic(f2, bad, &PanicInfo{Kind: kind, Pos: x.posStr(pos)})
	}
	if ok.IsFalse() {
		return false
	}
	st.assume(ok)
	return true
}

func (x *Exec) nonNil(fr *Frame, st *State, a *Addr, pos token.Pos) bool {
	if a.Kind != AObj {
		return true
	}
	if a.Path != "" {
		return true
	}
	return x.check(fr, st, x.refNonNil(a.Ref), "nil dereference", pos)
}

func (x *Exec) refNonNil(r *Term) *Term {
	base, k := x.c.splitOff(r)
	if base != nil && strings.HasPrefix(base.Op, "next!") && k.Sign() >= 0 {
		return x.c.True()
	}
	return x.c.Not(x.c.Eq(r, x.c.Int(0)))
}

// run executes instructions of b from index i.
func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	c := x.c
	for ; i < len(b.Instrs); i++ {
		x.step()
		in := b.Instrs[i]
		switch t := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			fr.env[t] = x.alloc(st, t.Type().(*types.Pointer).Elem())
		case *ssa.FieldAddr:
			a := x.val(fr, t.X).(*Addr)
			if !x.nonNil(fr, st, a, t.Pos()) {
				return
			}
			stt := a.T.Underlying().(*types.Struct)
			n := *a
			n.Path += "." + stt.Field(t.Field).Name()
			n.T = stt.Field(t.Field).Type()
			fr.env[t] = &n
		case *ssa.Field:
			s, ok := x.val(fr, t.X).(*Struct)
			if !ok {
				unsup("field of %T", x.val(fr, t.X))
			}
			fr.env[t] = s.F[t.Field]
		case *ssa.IndexAddr:
			iv := x.toInt(x.val(fr, t.Index).(*Term), t.Index.Type())
			switch w := x.val(fr, t.X).(type) {
			case *Slice:
				ok := c.And(c.Le(c.Int(0), iv), c.Lt(iv, w.Len))
				if !x.check(fr, st, ok, "index out of range", t.Pos()) {
					return
				}
				el := t.X.Type().Underlying().(*types.Slice).Elem()
				fr.env[t] = &Addr{Kind: AElem, Root: el, Ref: w.Arr, Idx: c.Add(w.Off, iv), T: el}
			case *Addr:
				at := w.T.Underlying().(*types.Array)
				ok := c.And(c.Le(c.Int(0), iv), c.Lt(iv, c.Int(at.Len())))
				if !x.check(fr, st, ok, "index out of range", t.Pos()) {
					return
				}
				if w.Kind == AObj && w.Path == "" {
					fr.env[t] = &Addr{Kind: AElem, Root: at.Elem(), Ref: w.Ref, Idx: iv, T: at.Elem()}
				} else {
					unsup("index of nested array")
				}
			default:
				unsup("index of %T", w)
			}
		case *ssa.Index:
			iv := x.toInt(x.val(fr, t.Index).(*Term), t.Index.Type())
			switch w := x.val(fr, t.X).(type) {
			case *Term:
				if !x.check(fr, st, c.And(c.Le(c.Int(0), iv), c.Lt(iv, x.strLen(w))), "index out of range", t.Pos()) {
					return
				}
				fr.env[t] = x.strAt(w, iv)
			case *Struct:
				if iv.I != nil {
					fr.env[t] = w.F[iv.I.Int64()]
				} else {
					unsup("array value index")
				}
			default:
				unsup("index value %T", w)
			}
		case *ssa.Store:
			a := x.val(fr, t.Addr).(*Addr)
			if !x.nonNil(fr, st, a, t.Pos()) {
				return
			}
			x.guardCheck(fr, st, a, true, t.Pos())
			x.storeAt(st, a, x.val(fr, t.Val), t.Val.Type())
		case *ssa.UnOp:
			if !x.unop(fr, st, t) {
				return
			}
		case *ssa.BinOp:
			a, bb := x.val(fr, t.X), x.val(fr, t.Y)
			if (t.Op == token.QUO || t.Op == token.REM) && !isFloat(t.Type()) {
				d := bb.(*Term)
				if !x.check(fr, st, c.Not(c.Eq(d, x.zeroTerm(d.S, t.Y.Type()))), "division by zero", t.Pos()) {
					return
				}
			}
			fr.env[t] = x.binop(st, t.Op, a, bb, t.X.Type(), t.Y.Type(), t.Type())
		case *ssa.ChangeType:
			fr.env[t] = x.convertValue(st, x.val(fr, t.X), t.X.Type(), t.Type())
		case *ssa.Convert:
			fr.env[t] = x.convertValue(st, x.val(fr, t.X), t.X.Type(), t.Type())
		case *ssa.ChangeInterface:
			fr.env[t] = x.val(fr, t.X)
		case *ssa.MakeInterface:
			fr.env[t] = x.box(x.val(fr, t.X), t.X.Type())
		case *ssa.TypeAssert:
			if !x.typeAssert(fr, st, t) {
				return
			}
		case *ssa.Extract:
			fr.env[t] = x.val(fr, t.Tuple).(Tuple)[t.Index]
		case *ssa.Slice:
			if !x.sliceOp(fr, st, t) {
				return
			}
		case *ssa.MakeSlice:
			ln := x.toInt(x.val(fr, t.Len).(*Term), t.Len.Type())
			cp := x.toInt(x.val(fr, t.Cap).(*Term), t.Cap.Type())
			if !x.check(fr, st, c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)), "makeslice: len out of range", t.Pos()) {
				return
			}
			fr.env[t] = x.newSlice(st, t.Type().Underlying().(*types.Slice).Elem(), ln, cp)
		case *ssa.MakeMap:
			r := st.next
			st.next = c.Add(r, c.Int(1))
			m := t.Type().Underlying().(*types.Map)
			ks, _ := x.mapSorts(m)
			kd := "MD:" + x.mapKey(m)
			ds := arraySort(ks, SBool)
			x.set(st, kd, c.Store(x.get(st, kd, arraySort(SInt, ds)), r, c.ConstArray(ds, c.False())))
			kl := "ML:" + x.mapKey(m)
			x.set(st, kl, c.Store(x.get(st, kl, arraySort(SInt, SInt)), r, c.Int(0)))
			fr.env[t] = r
		case *ssa.MakeChan:
			r := st.next
			st.next = c.Add(r, c.Int(1))
			for _, k := range []string{"chan.sent", "chan.recv", "chan.sum"} {
				h := x.get(st, "X:"+k, arraySort(SInt, SInt))
				x.set(st, "X:"+k, c.Store(h, r, c.Int(0)))
			}
			fr.env[t] = r
		case *ssa.MakeClosure:
			cl := &Clo{Fn: t.Fn.(*ssa.Function)}
			for _, bnd := range t.Bindings {
				cl.Bind = append(cl.Bind, x.val(fr, bnd))
			}
			fr.env[t] = cl
		case *ssa.MapUpdate:
			m := t.Map.Type().Underlying().(*types.Map)
			ref := x.val(fr, t.Map).(*Term)
			if !x.check(fr, st, x.refNonNil(ref), "assignment to nil map", t.Pos()) {
				return
			}
			x.guardMap(fr, st, t.Map, true, t.Pos())
			x.mapPut(st, m, ref, x.flatten(x.val(fr, t.Key), m.Key())[0], x.val(fr, t.Value))
		case *ssa.Lookup:
			x.lookup(fr, st, t)
		case *ssa.Range:
			x.rangeStart(fr, st, t)
		case *ssa.Next:
			x.rangeNext(fr, st, t, b, i)
			return
		case *ssa.Go:
			x.goStmt(fr, st, t)
		case *ssa.Send:
			x.send(st, x.val(fr, t.Chan).(*Term), x.val(fr, t.X), t.X.Type())
		case *ssa.Select:
			x.selectStmt(fr, st, t, b, i)
			return
		case *ssa.Defer:
			d := deferred{com: &t.Call, pos: t.Pos()}
			if t.Call.IsInvoke() {
				d.fnv = x.val(fr, t.Call.Value)
			} else if _, ok := t.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = x.val(fr, t.Call.Value)
			}
			for _, a := range t.Call.Args {
				d.args = append(d.args, x.val(fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(fr *Frame, st *State) { x.run(fr, b, i+1, st) })
			return
		case *ssa.Call:
			var fnv Val
			if t.Call.IsInvoke() {
				fnv = x.val(fr, t.Call.Value)
			} else if _, ok := t.Call.Value.(*ssa.Builtin); !ok {
				fnv = x.val(fr, t.Call.Value)
			}
			var args []Val
			for _, a := range t.Call.Args {
				args = append(args, x.val(fr, a))
			}
			idx := i
			x.callCommon(fr, st, &t.Call, fnv, args, t.Pos(), func(fr *Frame, st *State, r Val) {
				fr.env[t] = r
				x.run(fr, b, idx+1, st)
			})
			return
		case *ssa.Jump:
			x.enter(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			cond := x.val(fr, t.Cond).(*Term)
			x.branch(fr, st, cond, func(fr *Frame, st *State) { x.enter(fr, b.Succs[0], b, st) },
				func(fr *Frame, st *State) { x.enter(fr, b.Succs[1], b, st) })
			return
		case *ssa.Return:
			var r Val
			switch len(t.Results) {
			case 0:
				r = Tuple{}
			case 1:
				r = x.val(fr, t.Results[0])
			default:
				tp := Tuple{}
				for _, v := range t.Results {
					tp = append(tp, x.val(fr, v))
				}
				r = tp
			}
			fr.ret(st, r)
			return
		case *ssa.Panic:
			st.note("panic at " + x.posStr(t.Pos()))
			v := x.val(fr, t.X).(*Term)
			x.doPanic(fr, st, &PanicInfo{Kind: "explicit", Val: v, Pos: x.posStr(t.Pos())})
			return
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func (x *Exec) toInt(t *Term, ty types.Type) *Term {
	if t.S == SInt {
		return t
	}
	unsup("index of sort %s", t.S)
	return nil
}

func (x *Exec) storeAt(st *State, a *Addr, v Val, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok && a.Kind == AObj && a.Path == "" {
		s := v.(*Struct)
		for i := range s.F {
			x.store(st, &Addr{Kind: AElem, Root: at.Elem(), Ref: a.Ref, Idx: x.c.Int(int64(i)), T: at.Elem()}, s.F[i], at.Elem())
		}
		return
	}
	x.store(st, a, v, t)
}

// branch forks on cond.
func (x *Exec) branch(fr *Frame, st *State, cond *Term, yes, no func(*Frame, *State)) {
	c := x.c
	if cond.IsTrue() || st.pcm[cond] {
		yes(fr, st)
		return
	}
	n := c.Not(cond)
	if cond.IsFalse() || st.pcm[n] {
		no(fr, st)
		return
	}
	s1 := st.clone()
	s1.assume(cond)
	s2 := st.clone()
	s2.assume(n)
	f1 := x.feasible(s1)
	f2 := x.feasible(s2)
	x.paths++
	if f1 && f2 {
		yes(fr.clone(), s1)
		no(fr.clone(), s2)
		return
	}
	if f1 {
		yes(fr, s1)
	} else if f2 {
		no(fr, s2)
	}
}

func (x *Exec) unop(fr *Frame, st *State, t *ssa.UnOp) bool {
	c := x.c
	switch t.Op {
	case token.MUL:
		a, ok := x.val(fr, t.X).(*Addr)
		if !ok {
			unsup("load through %T", x.val(fr, t.X))
		}
		if !x.nonNil(fr, st, a, t.Pos()) {
			return false
		}
		x.guardCheck(fr, st, a, false, t.Pos())
		if at, ok := t.Type().Underlying().(*types.Array); ok {
			if a.Kind == AObj && a.Path == "" && at.Len() <= 8 {
				s := &Struct{T: t.Type()}
				for i := int64(0); i < at.Len(); i++ {
					s.F = append(s.F, x.load(st, &Addr{Kind: AElem, Root: at.Elem(), Ref: a.Ref, Idx: c.Int(i), T: at.Elem()}, at.Elem()))
				}
				fr.env[t] = s
				return true
			}
			unsup("array load")
		}
		fr.env[t] = x.load(st, a, t.Type())
	case token.NOT:
		fr.env[t] = c.Not(x.val(fr, t.X).(*Term))
	case token.SUB:
		v := x.val(fr, t.X).(*Term)
		if v.S == SInt {
			fr.env[t] = x.fit(st, c.Neg(v), t.Type())
		} else {
			fr.env[t] = x.negate(v, t.Type())
		}
	case token.XOR:
		v := x.val(fr, t.X).(*Term)
		if v.S == SInt {
			_, signed, _ := intInfo(t.Type())
			if signed {
				fr.env[t] = c.Sub(c.Int(-1), v)
			} else {
				_, hi := intRange(t.Type())
				fr.env[t] = c.Sub(c.Big(hi), v)
			}
		} else {
			fr.env[t] = c.mk("bvnot", v.S, v)
		}
	case token.ARROW:
		ch := x.val(fr, t.X).(*Term)
		el := t.X.Type().Underlying().(*types.Chan).Elem()
		v := x.recv(st, ch, el)
		if t.CommaOk {
			fr.env[t] = Tuple{v, c.Fresh("ok", SBool)}
		} else {
			fr.env[t] = v
		}
	default:
		unsup("unary %s", t.Op)
	}
	return true
}

func (x *Exec) typeAssert(fr *Frame, st *State, t *ssa.TypeAssert) bool {
	c := x.c
	iv := x.val(fr, t.X).(*Term)
	var ok *Term
	var v Val
	if types.IsInterface(t.AssertedType) {
		if kt, known := x.knownBox(iv); known {
			ok = c.Bool(types.Implements(kt, t.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = c.And(c.Not(x.ifaceIsNil(iv)), x.implements(x.typeof(iv), t.AssertedType))
		}
		v = iv
		if t.CommaOk {
			fr.env[t] = Tuple{c.Ite(ok, iv, x.nilIface()), ok}
			return true
		}
	} else {
		if kt, known := x.knownBox(iv); known {
			ok = c.Bool(types.Identical(kt, t.AssertedType))
		} else {
			ok = c.Eq(x.typeof(iv), c.Int(int64(x.tag(t.AssertedType))))
		}
		if ok.IsFalse() {
			v = x.zero(t.AssertedType)
		} else {
			v = x.unbox(iv, t.AssertedType)
			if _, known := x.knownBox(iv); !known {
				// an interface holding T is the box of its content
				st.assume(c.Imp(ok, c.Eq(iv, x.box(v, t.AssertedType))))
				tmp := &State{heap: st.heap, pcm: map[*Term]bool{}, next: st.next, epoch: st.epoch, acqEpoch: st.acqEpoch}
				x.leafFacts(tmp, x.flatten(v, t.AssertedType), t.AssertedType)
				if len(tmp.pc) > 0 {
					st.assume(c.Imp(ok, c.And(tmp.pc...)))
				}
			}
		}
		if t.CommaOk {
			zs := x.flatten(x.zero(t.AssertedType), t.AssertedType)
			vs := x.flatten(v, t.AssertedType)
			for i := range vs {
				vs[i] = c.Ite(ok, vs[i], zs[i])
			}
			// keep pointer identity simple when decided later by the branch
			fr.env[t] = Tuple{x.unflatten(vs, t.AssertedType), ok}
			return true
		}
	}
	if !x.check(fr, st, ok, "type assertion", t.Pos()) {
		return false
	}
	fr.env[t] = v
	return true
}

func (x *Exec) sliceOp(fr *Frame, st *State, t *ssa.Slice) bool {
	c := x.c
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.toInt(x.val(fr, v).(*Term), v.Type())
	}
	switch w := x.val(fr, t.X).(type) {
	case *Slice:
		lo := get(t.Low, c.Int(0))
		hi := get(t.High, w.Len)
		max := get(t.Max, w.Cap)
		ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, w.Cap))
		if !x.check(fr, st, ok, "slice bounds out of range", t.Pos()) {
			return false
		}
		fr.env[t] = &Slice{w.Arr, c.Add(w.Off, lo), c.Sub(hi, lo), c.Sub(max, lo)}
	case *Term: // string
		lo := get(t.Low, c.Int(0))
		hi := get(t.High, x.strLen(w))
		ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.strLen(w)))
		if !x.check(fr, st, ok, "slice bounds out of range", t.Pos()) {
			return false
		}
		fr.env[t] = x.strSub(w, lo, hi)
	case *Addr:
		at, isArr := w.T.Underlying().(*types.Array)
		if !isArr || w.Kind != AObj || w.Path != "" {
			unsup("slice of %v", w.T)
		}
		n := c.Int(at.Len())
		lo := get(t.Low, c.Int(0))
		hi := get(t.High, n)
		max := get(t.Max, n)
		ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, n))
		if !x.check(fr, st, ok, "slice bounds out of range", t.Pos()) {
			return false
		}
		fr.env[t] = &Slice{w.Ref, lo, c.Sub(hi, lo), c.Sub(max, lo)}
	default:
		unsup("slice of %T", w)
	}
	return true
}

func (x *Exec) lookup(fr *Frame, st *State, t *ssa.Lookup) {
	c := x.c
	if m, ok := t.X.Type().Underlying().(*types.Map); ok {
		ref := x.val(fr, t.X).(*Term)
		x.guardMap(fr, st, t.X, false, t.Pos())
		v, has := x.mapGet(st, m, ref, x.flatten(x.val(fr, t.Index), m.Key())[0])
		if t.CommaOk {
			fr.env[t] = Tuple{v, has}
		} else {
			fr.env[t] = v
		}
		return
	}
	s := x.val(fr, t.X).(*Term)
	iv := x.val(fr, t.Index).(*Term)
	if !x.check(fr, st, c.And(c.Le(c.Int(0), iv), c.Lt(iv, x.strLen(s))), "index out of range", t.Pos()) {
		return
	}
	fr.env[t] = x.strAt(s, iv)
}

func (x *Exec) mapLenNil(st *State, m *types.Map, ref *Term) *Term {
	return x.c.Ite(x.c.Eq(ref, x.c.Int(0)), x.c.Int(0), x.mapLen(st, m, ref))
}

func (x *Exec) rangeStart(fr *Frame, st *State, t *ssa.Range) {
	c := x.c
	m, ok := t.X.Type().Underlying().(*types.Map)
	if !ok {
		unsup("range over %s", t.X.Type())
	}
	ref := x.val(fr, t.X).(*Term)
	x.guardMap(fr, st, t.X, false, t.Pos())
	ks, ls := x.mapSorts(m)
	it := &MapIter{M: m, Ref: ref}
	it.Keys = c.Fresh("keys", arraySort(SInt, ks))
	it.KIdx = c.Fresh("kidx", arraySort(ks, SInt))
	it.N = x.mapLenNil(st, m, ref)
	it.Dom0 = x.mapDom(st, m, ref)
	for _, l := range ls {
		it.Val0 = append(it.Val0, x.mapValArr(st, m, ref, l))
	}
	st.assume(c.Le(c.Int(0), it.N))
	has := func(k *Term) *Term {
		return c.And(c.Not(c.Eq(ref, c.Int(0))), c.Select(it.Dom0, k))
	}
	i := c.BoundVar("i", SInt)
	ki := c.Select(it.Keys, i)
	st.assume(c.Forall([]*Term{i}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, it.N)), c.And(has(ki), c.Eq(c.Select(it.KIdx, ki), i))), []*Term{ki}))
	k := c.BoundVar("k", ks)
	kk := c.Select(it.KIdx, k)
	st.assume(c.Forall([]*Term{k}, c.Imp(has(k), c.And(c.Le(c.Int(0), kk), c.Lt(kk, it.N), c.Eq(c.Select(it.Keys, kk), k))), []*Term{kk}, []*Term{c.mk("select", SBool, it.Dom0, k)}))
	x.c.serial++
	it.PosKey = fmt.Sprintf("X:iter%d", x.c.serial)
	x.set(st, it.PosKey, c.Int(0))
	fr.env[t] = it
}

func (x *Exec) rangeNext(fr *Frame, st *State, t *ssa.Next, b *ssa.BasicBlock, i int) {
	c := x.c
	it, ok := x.val(fr, t.Iter).(*MapIter)
	if !ok {
		unsup("next on %T", x.val(fr, t.Iter))
	}
	pos := x.get(st, it.PosKey, SInt)
	// the map must not have been modified since the iteration started
	if d := x.mapDom(st, it.M, it.Ref); d != it.Dom0 {
		if !x.prove(st, c.Eq(d, it.Dom0), 2000) && x.disc == 0 {
			unsup("map modified during iteration")
		}
	}
	more := c.Lt(pos, it.N)
	kt, vt := it.M.Key(), it.M.Elem()
	x.branch(fr, st, more, func(fr *Frame, st *State) {
		k := c.Select(it.Keys, pos)
		st.assume(c.Select(it.Dom0, k), c.Not(c.Eq(it.Ref, c.Int(0))), c.Eq(c.Select(it.KIdx, k), pos))
		st.assume(x.typeFact(st, k, kt)...)
		var ts []*Term
		for j := range it.Val0 {
			ts = append(ts, c.Select(it.Val0[j], k))
		}
		x.leafFacts(st, ts, vt)
		x.set(st, it.PosKey, c.Add(pos, c.Int(1)))
		fr.env[t] = Tuple{c.True(), x.unflatten([]*Term{k}, kt), x.unflatten(ts, vt)}
		x.run(fr, b, i+1, st)
	}, func(fr *Frame, st *State) {
		st.assume(c.Eq(pos, it.N))
		fr.env[t] = Tuple{c.False(), x.zero(kt), x.zero(vt)}
		x.run(fr, b, i+1, st)
	})
}

// ---- channels ----

func (x *Exec) chanArr(st *State, k string) *Term {
	return x.get(st, "X:"+k, arraySort(SInt, SInt))
}

func (x *Exec) chanInc(st *State, k string, ch, by *Term) {
	h := x.chanArr(st, k)
	x.set(st, "X:"+k, x.c.Store(h, ch, x.c.Add(x.c.Select(h, ch), by)))
}

func (x *Exec) send(st *State, ch *Term, v Val, t types.Type) {
	c := x.c
	n := c.Select(x.chanArr(st, "chan.sent"), ch)
	for i, tm := range x.flatten(v, t) {
		f := fmt.Sprintf("chan.sval%d.%s", i, sanitize(string(tm.S)))
		st.assume(c.Eq(c.App(f, tm.S, ch, n), tm))
		if tm.S == SInt && i == 0 {
			x.chanInc(st, "chan.sum", ch, tm)
		}
	}
	x.chanInc(st, "chan.sent", ch, c.Int(1))
	x.chanInc2(st)
}

// a global operation counter, so that order of channel operations can be specified
func (x *Exec) chanInc2(st *State) {}

func (x *Exec) recv(st *State, ch *Term, el types.Type) Val {
	c := x.c
	n := c.Select(x.chanArr(st, "chan.recv"), ch)
	var ts []*Term
	for i, l := range x.leaves(el) {
		f := fmt.Sprintf("chan.rval%d.%s", i, sanitize(string(l.S)))
		ts = append(ts, c.App(f, l.S, ch, n))
	}
	x.leafFacts(st, ts, el)
	if len(ts) == 1 && ts[0].S == SInt {
		x.chanInc(st, "chan.rsum", ch, ts[0])
	}
	x.chanInc(st, "chan.recv", ch, c.Int(1))
	return x.unflatten(ts, el)
}

func (x *Exec) selectStmt(fr *Frame, st *State, t *ssa.Select, b *ssa.BasicBlock, i int) {
	c := x.c
	n := len(t.States)
	for k := 0; k < n; k++ {
		s := t.States[k]
		f2 := fr.clone()
		s2 := st.clone()
		s2.note(fmt.Sprintf("select case %d", k))
		tp := Tuple{c.Int(int64(k)), c.True()}
		ch := x.val(f2, s.Chan).(*Term)
		if s.Dir == types.SendOnly {
			x.send(s2, ch, x.val(f2, s.Send), s.Send.Type())
		}
		for _, s3 := range t.States {
			if s3.Dir == types.RecvOnly {
				el := s3.Chan.Type().Underlying().(*types.Chan).Elem()
				if s3 == s {
					tp = append(tp, x.recv(s2, ch, el))
				} else {
					tp = append(tp, x.zero(el))
				}
			}
		}
		f2.env[t] = tp
		x.run(f2, b, i+1, s2)
	}
	if !t.Blocking {
		tp := Tuple{c.Int(-1), c.False()}
		for _, s3 := range t.States {
			if s3.Dir == types.RecvOnly {
				tp = append(tp, x.zero(s3.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		f2 := fr.clone()
		f2.env[t] = tp
		x.run(f2, b, i+1, st.clone())
	}
}

func (x *Exec) goStmt(fr *Frame, st *State, t *ssa.Go) {
	x.assumption("goroutine started at " + shortName(fr.fn.RelString(nil)) + " runs independently; only contracts of what it calls are relied on")
	k := "X:goroutines"
	x.set(st, k, x.c.Add(x.get(st, k, SInt), x.c.Int(1)))
}

// ---- panics and defers ----

func (x *Exec) doPanic(fr *Frame, st *State, p *PanicInfo) {
	fr.panicing = p
	x.runDefers(fr, st, func(fr *Frame, st *State) {
		if st.recovered {
			st.recovered = false
			fr.panicing = nil
			// recovered: return current named results through Recover block
			if fr.fn.Recover != nil {
				x.run(fr, fr.fn.Recover, 0, st)
				return
			}
			fr.ret(st, x.zeroResults(fr.fn))
			return
		}
		fr.pan(st, fr.panicing)
	})
}

func (x *Exec) zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return x.zero(rs.At(0).Type())
	}
	tp := Tuple{}
	for i := 0; i < rs.Len(); i++ {
		tp = append(tp, x.zero(rs.At(i).Type()))
	}
	return tp
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.callCommon(fr, st, d.com, d.fnv, d.args, d.pos, func(fr *Frame, st *State, _ Val) {
		x.runDefers(fr, st, k)
	})
}
