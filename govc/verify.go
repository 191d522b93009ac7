package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// TaskResult is what verifying one function (or lemma) produced.
type TaskResult struct {
	Name        string        `json:"name"`
	Kind        string        `json:"kind"`
	Obligations []*Obligation `json:"obligations"`
	Used        []string      `json:"contracts_used"`
	Lemmas      []string      `json:"lemmas_used,omitempty"`
	Inlined     []string      `json:"inlined,omitempty"`
	Trusted     []string      `json:"trusted,omitempty"`
	Assumed     []string      `json:"assumed,omitempty"`
	Guarded     []string      `json:"-"`
	Unsupported string        `json:"unsupported,omitempty"`
	Missing     bool          `json:"missing,omitempty"`
	Paths       int           `json:"paths"`
	Seconds     float64       `json:"seconds"`
	Mode        string        `json:"mode,omitempty"`
}

func (r *TaskResult) ok() bool {
	if r.Unsupported != "" {
		return false
	}
	for _, o := range r.Obligations {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

func setKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Program) findFunc(name string) *ssa.Function {
	if p.funcIdx == nil {
		p.funcIdx = map[string]*ssa.Function{}
		for _, f := range p.allFuncs() {
			p.funcIdx[shortName(f.RelString(nil))] = f
		}
	}
	if i := strings.IndexByte(name, '@'); i >= 0 {
		name = name[:i]
	}
	return p.funcIdx[name]
}

func (x *Exec) result(name, kind string, start time.Time) *TaskResult {
	r := &TaskResult{Name: name, Kind: kind, Used: setKeys(x.used), Lemmas: setKeys(x.usedLemmas), Inlined: setKeys(x.inlined), Trusted: setKeys(x.trusted),
		Assumed: setKeys(x.assumed), Guarded: setKeys(x.guarded), Paths: x.paths + 1, Seconds: time.Since(start).Seconds()}
	for _, n := range x.obOrder {
		r.Obligations = append(r.Obligations, x.obs[n])
	}
	r.Mode = "float=" + x.c.FltMode
	if x.c.Rnd {
		r.Mode = "float=finite reals with a rounding function"
	}
	if x.c.BV {
		r.Mode += ",bitvector integers"
	} else {
		r.Mode += ",mathematical integers with exact wrap-around"
	}
	return r
}

func (x *Exec) setMode(m map[string]string) {
	if f := m["float"]; f != "" {
		x.c.FltMode = f
		if f == "rnd" {
			x.c.FltMode, x.c.Rnd = "real", true
		}
	}
	if m["bv"] != "" {
		x.c.BV = true
	}
	if t := m["obtime"]; t != "" {
		fmt.Sscanf(t, "%d", &x.obTimeout)
	}
}

// VerifyFunc verifies the body of the function named by con against con.
func VerifyFunc(p *Program, s *SpecDB, con *Contract, prop string, budget time.Duration, obTimeout int) (res *TaskResult) {
	start := time.Now()
	x := newExec(p, s, prop)
	x.verbose = os.Getenv("GOVC_TIME") != ""
	x.con = con
	x.obTimeout = obTimeout
	x.deadline = start.Add(budget)
	x.setMode(con.Mode)
	defer x.z.Close()
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			res = x.result(con.Name, "function", start)
			res.Unsupported = u.msg
		}
	}()
	fn := p.findFunc(con.Name)
	if fn == nil || len(fn.Blocks) == 0 {
		res = x.result(con.Name, "function", start)
		res.Missing = true
		res.Unsupported = "function not found in the repository"
		return res
	}
	if len(fn.Params) != len(con.Params) {
		unsup("contract has %d parameters, function has %d", len(con.Params), len(fn.Params))
	}
	x.fn = fn
	c := x.c
	st := &State{heap: map[string]*Term{}, pcm: map[*Term]bool{}, next: x.next0}
	st.assume(c.Lt(c.Int(0), x.next0))
	fr := x.newFrame(fn, nil)
	vars := map[string]SV{}
	for i, pr := range fn.Params {
		var ts []*Term
		for _, l := range x.leaves(pr.Type()) {
			ts = append(ts, c.NamedSym("p$"+con.Params[i]+sanitize(l.Path), l.S))
		}
		x.leafFacts(st, ts, pr.Type())
		v := x.unflatten(ts, pr.Type())
		fr.env[pr] = v
		vars[con.Params[i]] = SV{v, pr.Type()}
		if i == 0 && fn.Signature.Recv() != nil {
			if a, ok := v.(*Addr); ok {
				st.assume(c.Not(c.Eq(a.Ref, c.Int(0))))
			}
		}
	}
	for i, fv := range fn.FreeVars {
		v := x.fresh(st, fmt.Sprintf("p$free%d", i), fv.Type())
		fr.env[fv] = v
	}
	x.noFeas = con.Mode["feas"] == "0"
	env := &SpecEnv{x: x, st: st, old: st, vars: vars, pkg: pkgOf(fn)}
	if con.Mode["pkginit"] != "" {
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				a := &Addr{Kind: AGlobal, G: g, Root: t, T: t}
				z := x.flatten(x.zero(t), t)
				for i, l := range x.leaves(t) {
					if z[i] != nil && (g.Name() == "init$guard" || p.storedGlobals[g]) {
						st.assume(c.Eq(x.leafRead(st, a, l), z[i]))
					}
				}
			}
		}
	}
	for _, cl := range con.Requires {
		if visible(cl.Props, prop) {
			st.assume(x.evalClause(env, cl))
		}
	}
	for _, cl := range con.Assumes {
		if visible(cl.Props, prop) && !usesResult(cl) {
			st.assume(x.evalClause(env, cl))
			x.assumption("assumed in " + con.Name + ": " + cl.Src)
		}
	}
	if x.unsat(st.pc, 3000) {
		o := x.ob("preconditions are satisfiable", "vacuity")
		o.Status = "failed"
		return x.result(con.Name, "function", start)
	}
	pre := st.clone()
	x.entry = pre
	preEnv := &SpecEnv{x: x, st: pre, old: pre, vars: vars, pkg: pkgOf(fn)}
	ms := x.modSetOf(con, preEnv)
	var pcond *Term = c.False()
	if con.HasPanics {
		var ors []*Term
		for _, cl := range con.PanicWhen {
			if visible(cl.Props, prop) {
				ors = append(ors, x.evalClause(preEnv, cl))
			}
		}
		pcond = c.Or(ors...)
	}
	st = pre.clone()
	fr.con = con
	fr.cenv = &SpecEnv{x: x, st: st, old: pre, vars: vars, pkg: pkgOf(fn)}
	exits := 0
	consistent := false
	returns := 0
	var finish func(s *State, v Val)
	fr.ret = func(s *State, v Val) {
		var step func(i int, s *State)
		step = func(i int, s *State) {
			if i >= len(con.After) || x.quiet > 0 {
				finish(s, v)
				return
			}
			e := &SpecEnv{x: x, st: s, old: pre, vars: vars, pkg: pkgOf(fn)}
			cl := x.resolveClo(s, e.eval(con.After[i].E).V)
			x.callFn(fr, s, cl.Fn, cl.Bind, nil, token.NoPos, func(_ *Frame, s2 *State, _ Val) { step(i+1, s2) })
		}
		step(0, s)
	}
	finish = func(s *State, v Val) {
		exits++
		if x.quiet > 0 {
			return
		}
		s.note("return")
		e := &SpecEnv{x: x, st: s, old: pre, vars: map[string]SV{}, pkg: pkgOf(fn)}
		for n, sv := range vars {
			e.vars[n] = sv
		}
		var svs []SV
		rs := fn.Signature.Results()
		switch rs.Len() {
		case 0:
		case 1:
			svs = []SV{{v, rs.At(0).Type()}}
		default:
			tp := v.(Tuple)
			for i := range tp {
				svs = append(svs, SV{tp[i], rs.At(i).Type()})
			}
		}
		bindResults(e, con, svs)
		if con.HasPanics && !con.MayPanic {
			x.assert(s, c.Not(pcond), "panics when it must", "postcondition")
		}
		for _, cl := range con.Ensures {
			if !visible(cl.Props, prop) {
				continue
			}
			t := x.evalClause(e, cl)
			x.assert(s, t, "ensures "+cl.Label, "postcondition")
		}
		returns++
		x.noLock(s, pre, con)
		if vacuitySec > 0 && !consistent {
			// assuming everything proved on the way, is a contradiction to be found?
			if r, _ := Portfolio(x.c.Query(s.pc), vacuitySec); r != Unsat {
				consistent = true
			}
		}
		x.frame(s, pre, ms, con)
	}
	fr.pan = func(s *State, pi *PanicInfo) {
		exits++
		if x.quiet > 0 {
			return
		}
		e := &SpecEnv{x: x, st: s, old: pre, vars: vars, pkg: pkgOf(fn)}
		if !con.MayPanic {
			x.assert(s, pcond, "does not panic unexpectedly", "panic freedom")
		}
		x.noLock(s, pre, con)
		if con.HasPanics || con.MayPanic {
			for _, cl := range con.PanicEnsures {
				if visible(cl.Props, prop) {
					x.assert(s, x.evalClause(e, cl), "on panic ensures "+cl.Label, "postcondition")
				}
			}
			x.frame(s, pre, ms, con)
		}
	}
	x.run(fr, fn.Blocks[0], 0, st)
	if exits == 0 && con.Mode["noreturn"] == "" {
		o := x.ob("some execution reaches the end", "vacuity")
		o.Status = "failed"
	}
	if vacuitySec > 0 && con.Mode["noreturn"] == "" {
		o := x.ob("some exit is free of contradictions", "vacuity")
		o.Count++
		o.Backend = "portfolio"
		if !consistent && returns > 0 {
			o.Status = "failed"
		}
	}
	return x.result(con.Name, "function", start)
}

// noLock checks that a function declared to take no locks took none.
func (x *Exec) noLock(s, pre *State, con *Contract) {
	if con.Mode["nolock"] == "" {
		return
	}
	ok := s.acqEpoch == pre.acqEpoch
	for k, t := range s.heap {
		if strings.HasPrefix(k, "X:acq") && x.get(pre, k, t.S) != t {
			ok = false
		}
	}
	f := x.c.True()
	if !ok {
		f = x.c.False()
	}
	x.assert(s, f, "takes no lock", "frame")
}

// vacuitySec is the time given to the search for a contradiction at the exits
// of each function (0: no search).
var vacuitySec int

// resolveClo finds the closure a function value is proved to be.
func (x *Exec) resolveClo(st *State, v Val) *Clo {
	t, ok := v.(*Term)
	if !ok {
		return x.asClo(v)
	}
	if cl, ok := x.cloTab[t]; ok {
		return cl
	}
	var cands []*Term
	for c := range x.cloTab {
		cands = append(cands, c)
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Op < cands[j].Op })
	for _, c := range cands {
		if x.unsat(append(append([]*Term{}, st.pc...), x.c.Not(x.c.Eq(t, c))), 3000) {
			return x.cloTab[c]
		}
	}
	unsup("unknown function value %s", t.Op)
	return nil
}

func usesResult(cl Clause) bool {
	return strings.Contains(cl.Src, "result") || strings.Contains(cl.Src, "r0") || strings.Contains(cl.Src, "r1")
}

// frame checks that only locations in ms changed.
func (x *Exec) frame(s, pre *State, ms modSet, con *Contract) {
	if con.ModAll {
		return
	}
	c := x.c
	if s.epoch != pre.epoch {
		x.assert(s, c.False(), "modifies only what is declared: a callee may modify anything", "frame")
		return
	}
	keys := make([]string, 0, len(s.heap))
	for k := range s.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "X:acq") || strings.HasPrefix(k, "X:iter") || k == "X:goroutines" {
			continue
		}
		cur := s.heap[k]
		old := pre.heap[k]
		if old == nil {
			old = x.get(pre, k, cur.S)
		}
		if cur == old {
			continue
		}
		e := ms[k]
		if e != nil && e.all {
			continue
		}
		if !strings.HasPrefix(string(cur.S), "(Array Int") || strings.HasPrefix(k, "G:") || x.isAllocGhost(k) {
			if e == nil {
				x.assert(s, c.Eq(cur, old), "modifies only what is declared: "+k, "frame")
			}
			continue
		}
		// strip stores to new objects and to declared locations
		t := cur
		for t.Op == "store" && t != old {
			r := t.Args[1]
			base, off := c.splitOff(r)
			skip := base != nil && strings.HasPrefix(base.Op, "next!") && off.Sign() >= 0
			if e != nil && !skip {
				for _, m := range e.refs {
					if m == r {
						skip = true
					}
				}
			}
			if !skip {
				break
			}
			t = t.Args[0]
		}
		if t == old {
			continue
		}
		r := c.BoundVar("r", SInt)
		g := []*Term{c.Lt(c.Int(0), r), c.Lt(r, x.next0)}
		if e != nil {
			for _, m := range e.refs {
				g = append(g, c.Not(c.Eq(r, m)))
			}
		}
		x.assert(s, c.Forall([]*Term{r}, c.Imp(c.And(g...), c.Eq(c.Select(cur, r), c.Select(old, r)))), "modifies only what is declared: "+k, "frame")
	}
}

// VerifyLemma proves a lemma from the axioms and the lemmas before it.
func VerifyLemma(p *Program, s *SpecDB, idx int, budget time.Duration, obTimeout int) (res *TaskResult) {
	start := time.Now()
	l := s.Lemmas[idx]
	x := newExec(p, s, "")
	x.lemmaLimit = idx
	x.obTimeout = obTimeout
	x.con = &Contract{Name: "lemma " + l.Name, Uses: l.Uses}
	x.deadline = start.Add(budget)
	x.setMode(l.Mode)
	defer x.z.Close()
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			res = x.result("lemma "+l.Name, "lemma", start)
			res.Unsupported = u.msg
		}
	}()
	c := x.c
	st := x.pureState()
	env := &SpecEnv{x: x, st: st, vars: map[string]SV{}}
	for _, v := range l.Vars {
		so := env.specSort(v.Type)
		t := c.NamedSym("p$"+v.Name, so)
		env.vars[v.Name] = SV{t, specVarType(env, v.Type)}
		st.assume(env.rangeOf(t, v.Type)...)
	}
	for _, r := range l.Requires {
		st.assume(x.evalAxiom(env, r.E, r.At))
	}
	if l.Induct != "" {
		// strong induction: the statement holds for all smaller non-negative values
		e2 := &SpecEnv{x: x, st: st, vars: map[string]SV{}}
		var vs []*Term
		var gs []*Term
		for _, v := range l.Vars {
			b := c.BoundVar(v.Name, env.specSort(v.Type))
			vs = append(vs, b)
			e2.vars[v.Name] = SV{b, specVarType(env, v.Type)}
			gs = append(gs, env.rangeOf(b, v.Type)...)
			if v.Name == l.Induct {
				n := env.vars[v.Name].V.(*Term)
				gs = append(gs, c.Le(c.Int(0), b), c.Lt(b, n))
			}
		}
		for _, r := range l.Requires {
			gs = append(gs, x.evalAxiom(e2, r.E, r.At))
		}
		var cs []*Term
		for _, r := range l.Ensures {
			cs = append(cs, x.evalAxiom(e2, r.E, r.At))
		}
		var pats [][]*Term
		if len(l.Trigger) > 0 {
			var pt []*Term
			for _, t := range l.Trigger {
				pt = append(pt, e2.term(t))
			}
			pats = append(pats, pt)
		}
		st.assume(c.Forall(vs, c.Imp(c.And(gs...), c.And(cs...)), pats...))
		// and its direct predecessor
		m := map[*Term]*Term{}
		for i, v := range l.Vars {
			t := env.vars[v.Name].V.(*Term)
			if v.Name == l.Induct {
				m[vs[i]] = c.Sub(t, c.Int(1))
			} else {
				m[vs[i]] = t
			}
		}
		st.assume(c.Subst(c.Imp(c.And(gs...), c.And(cs...)), m))
	}
	for _, r := range l.Ensures {
		x.assert(st, x.evalAxiom(env, r.E, r.At), "lemma "+l.Name+" "+r.Label, "lemma")
	}
	return x.result("lemma "+l.Name, "lemma", start)
}

var _ = types.Identical

func (x *Exec) isAllocGhost(k string) bool {
	for _, g := range x.S.AllocGhost {
		if k == "X:"+g {
			return true
		}
	}
	return false
}
