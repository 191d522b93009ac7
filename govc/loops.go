package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopForest struct {
	in map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks (incl. header)
}

// buildLoops finds natural loops.
func buildLoops(fn *ssa.Function) *loopForest {
	lf := &loopForest{in: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := lf.in[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					lf.in[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return lf
}

// loopCtl is the action taken when control returns to an active loop header.
type loopCtl struct {
	back  func(fr *Frame, st *State, phis map[*ssa.Phi]Val)
	probe bool // leaving the loop ends the path
}

// candidate is a candidate loop invariant.
type candidate struct {
	name string
	spec bool
	must string
	f    func(phis map[*ssa.Phi]Val, st *State) *Term
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// concreteHeader reports whether the loop condition is syntactically decided.
func (x *Exec) concreteHeader(fr *Frame, b *ssa.BasicBlock, st *State, phis map[*ssa.Phi]Val) bool {
	f2 := fr.clone()
	for p, v := range phis {
		f2.env[p] = v
	}
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupported); !is {
					panic(r)
				}
			}
		}()
		for _, in := range b.Instrs {
			switch t := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				if t.Op == token.QUO || t.Op == token.REM {
					return
				}
				av, aok := x.val(f2, t.X).(*Term)
				bv, bok := x.val(f2, t.Y).(*Term)
				if !aok || !bok || av.I == nil || bv.I == nil {
					return
				}
				f2.env[t] = x.binop(st, t.Op, av, bv, t.X.Type(), t.Y.Type(), t.Type())
			case *ssa.Call:
				bi, isb := t.Call.Value.(*ssa.Builtin)
				if !isb || bi.Name() != "len" {
					return
				}
				s, iss := x.val(f2, t.Call.Args[0]).(*Slice)
				if !iss || s.Len.I == nil {
					return
				}
				f2.env[t] = s.Len
			case *ssa.UnOp:
				// loads of loop-invariant global slices
				if t.Op != token.MUL {
					return
				}
				g, isg := t.X.(*ssa.Global)
				if !isg || x.P.storedGlobals[g] {
					return
				}
				el := g.Type().(*types.Pointer).Elem()
				f2.env[t] = x.load(st, &Addr{Kind: AGlobal, G: g, Root: el, T: el}, el)
			case *ssa.If:
				cv, isT := x.val(f2, t.Cond).(*Term)
				ok = isT && (cv.IsTrue() || cv.IsFalse())
				return
			default:
				return
			}
		}
	}()
	return ok
}

func (x *Exec) loopEnter(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	phis := x.phiVals(fr, b, prev)
	limit := 0
	for f := fr; f != nil; f = f.up {
		if f.con != nil {
			limit = f.con.Unroll
			break
		}
	}
	if fr.unrolled[b] < 70 && x.concreteHeader(fr, b, st, phis) || fr.unrolled[b] < limit {
		for p, v := range phis {
			fr.env[p] = v
		}
		fr.unrolled[b]++
		x.run(fr, b, 0, st)
		return
	}
	x.cutLoop(fr, b, st, phis)
}

// havocked header state
func (x *Exec) loopHavoc(fr *Frame, b *ssa.BasicBlock, st *State, entry map[*ssa.Phi]Val, mod map[string]bool, phiMod map[*ssa.Phi]bool) (*Frame, *State, map[*ssa.Phi]Val) {
	c := x.c
	f2 := fr.clone()
	s2 := st.clone()
	nx := c.Fresh("next", SInt)
	s2.assume(c.Le(st.next, nx))
	s2.next = nx
	keys := make([]string, 0, len(mod))
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if mod["*"] {
		x.havocAll(s2)
	}
	if mod["*acq"] {
		x.havocAcq(s2)
	}
	for _, k := range keys {
		if k[0] == '*' {
			continue
		}
		s2.heap[k] = c.Fresh("h$"+k, x.keySort[k])
	}
	vals := map[*ssa.Phi]Val{}
	for _, p := range headerPhis(b) {
		if phiMod == nil || phiMod[p] {
			vals[p] = x.freshLike(s2, p.Comment+p.Name(), p.Type(), entry[p])
		} else {
			vals[p] = entry[p]
		}
		f2.env[p] = vals[p]
	}
	return f2, s2, vals
}

// freshLike makes an arbitrary value; closures and iterators cannot vary.
func (x *Exec) freshLike(st *State, hint string, t types.Type, entry Val) Val {
	if _, ok := entry.(*Clo); ok {
		return entry
	}
	if a, ok := entry.(*Addr); ok && (a.Kind != AObj || a.Path != "") {
		unsup("loop-carried interior pointer")
	}
	return x.fresh(st, hint, t)
}

func (x *Exec) sameValSyntactic(a, b Val, t types.Type) bool {
	if a == b {
		return true
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	for i := range fa {
		if fa[i] != fb[i] {
			return false
		}
	}
	return true
}

func (x *Exec) probeLoop(fr *Frame, b *ssa.BasicBlock, st *State, on func(fr *Frame, st *State, phis map[*ssa.Phi]Val)) {
	x.quiet++
	defer func() { x.quiet-- }()
	fr.active[b] = &loopCtl{back: on, probe: true}
	fr.ret = func(*State, Val) {}
	fr.pan = func(*State, *PanicInfo) {}
	x.run(fr, b, 0, st)
}

func (x *Exec) cutLoop(fr *Frame, b *ssa.BasicBlock, st *State, entry map[*ssa.Phi]Val) {
	c := x.c
	serial0 := c.serial
	mod := map[string]bool{}
	phiMod := map[*ssa.Phi]bool{}
	writes := map[string]map[*Term]bool{} // key -> loop-invariant refs written
	wild := map[string]bool{}             // key -> written at a loop-dependent pre-existing ref
	// phis and keys start unmodified; grow to a fixpoint
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop discovery does not converge in %s", fr.fn)
		}
		changed := false
		f2, s2, vals := x.loopHavoc(fr, b, st, entry, mod, phiMod)
		h0 := map[string]*Term{}
		for k, v := range s2.heap {
			h0[k] = v
		}
		nextH := s2.next
		ep, aep := s2.epoch, s2.acqEpoch
		x.disc++
		func() {
			defer func() { x.disc-- }()
			x.probeLoop(f2, b, s2, func(fr2 *Frame, st2 *State, ph map[*ssa.Phi]Val) {
				if st2.epoch != ep && !mod["*"] {
					mod["*"] = true
					changed = true
				}
				if st2.acqEpoch != aep && !mod["*acq"] {
					mod["*acq"] = true
					changed = true
				}
				for p, v := range ph {
					if phiMod[p] {
						continue
					}
					if !x.sameValSyntactic(v, vals[p], p.Type()) {
						phiMod[p] = true
						changed = true
					}
				}
				for k, v := range st2.heap {
					if strings.HasPrefix(k, "X:iter") && h0[k] == nil {
						continue
					}
					old, ok := h0[k]
					if !ok {
						old = x.get(&State{heap: map[string]*Term{}, epoch: ep, acqEpoch: aep}, k, v.S)
					}
					if v == old {
						continue
					}
					if !mod[k] {
						mod[k] = true
						changed = true
					}
					x.collectWrites(k, v, old, st.next, nextH, serial0, writes, wild)
				}
			})
		}()
		if !changed {
			break
		}
	}
	if os.Getenv("GOVC_LOOPS") != "" && x.quiet == 0 {
		var ks []string
		for k := range mod {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(os.Stderr, "  loop in %s at %s: mod=%v wild=%v\n", fr.fn.Name(), x.posStr(blockPos(b)), ks, wild)
	}
	// candidates
	cands := x.loopCandidates(fr, b, st, entry, mod, phiMod, writes, wild)
	if x.noFeas {
		// only what the specification states
		var spec []*candidate
		for _, cd := range cands {
			if cd.spec || cd.must != "" {
				spec = append(spec, cd)
			}
		}
		cands = spec
	}
	musts := map[string]bool{}
	for _, cd := range cands {
		if cd.must != "" {
			musts[cd.must] = true
		}
	}
	// initiation
	var keep []*candidate
	for _, cd := range cands {
		t := x.safeCand(cd, entry, st)
		if t == nil {
			continue
		}
		if x.prove(st, t, 700) || cd.spec && x.prove2(st, t) {
			keep = append(keep, cd)
		} else if x.quiet == 0 && os.Getenv("GOVC_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "    drop(init) %s\n", cd.name)
		}
	}
	cands = keep
	// consecution
	for round := 0; ; round++ {
		if round > 30 {
			unsup("loop invariant inference does not converge in %s", fr.fn)
		}
		f2, s2, vals := x.loopHavoc(fr, b, st, entry, mod, phiMod)
		for _, cd := range cands {
			s2.assume(x.safeCandMust(cd, vals, s2))
		}
		h0 := map[string]*Term{}
		for k, v := range s2.heap {
			h0[k] = v
		}
		ep, aep := s2.epoch, s2.acqEpoch
		alive := make([]bool, len(cands))
		for i := range alive {
			alive[i] = true
		}
		dropped := false
		x.probeLoop(f2, b, s2, func(fr2 *Frame, st2 *State, ph map[*ssa.Phi]Val) {
			if st2.epoch != ep && !mod["*"] || st2.acqEpoch != aep && !mod["*acq"] {
				unsup("loop modifies anything only after invariants were assumed")
			}
			for k, v := range st2.heap {
				if mod["*"] || mod["*acq"] && strings.HasPrefix(k, "X:acq") {
					continue
				}
				if mod[k] || strings.HasPrefix(k, "X:iter") && h0[k] == nil {
					continue
				}
				old, ok := h0[k]
				if !ok {
					old = x.get(&State{heap: map[string]*Term{}, epoch: ep, acqEpoch: aep}, k, v.S)
				}
				if old != v {
					unsup("loop modifies %s only after invariants were assumed", k)
				}
			}
			// try all at once
			var ts []*Term
			var idx []int
			for i, cd := range cands {
				if !alive[i] {
					continue
				}
				t := x.safeCand(cd, ph, st2)
				if t == nil {
					alive[i] = false
					dropped = true
					continue
				}
				ts = append(ts, t)
				idx = append(idx, i)
			}
			if len(ts) == 0 {
				return
			}
			if x.prove(st2, c.And(ts...), 1500) {
				return
			}
			for j, t := range ts {
				if !x.prove(st2, t, 2500) && !(cands[idx[j]].spec && x.prove2(st2, t)) {
					alive[idx[j]] = false
					dropped = true
					if x.quiet == 1 && os.Getenv("GOVC_LOOPS") != "" {
						fmt.Fprintf(os.Stderr, "    drop %s\n", cands[idx[j]].name)
						x.dumpQuery("inv_"+cands[idx[j]].name, x.c.Query(append(append([]*Term{}, st2.pc...), x.c.Not(t))))
					}
				}
			}
		})
		if !dropped {
			break
		}
		var k2 []*candidate
		for i, cd := range cands {
			if alive[i] {
				k2 = append(k2, cd)
			}
		}
		cands = k2
	}
	if os.Getenv("GOVC_LOOPS") != "" && x.quiet == 0 {
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "    kept %s\n", cd.name)
		}
	}
	if x.quiet == 0 {
		for _, cd := range cands {
			if cd.spec {
				o := x.ob("loop invariant: "+cd.name, "invariant")
				o.Count++
				if o.Backend == "" {
					o.Backend = "z3-new"
				}
			}
		}
	}
	if x.quiet == 0 {
		for _, cd := range cands {
			delete(musts, cd.must)
		}
		for src := range musts {
			o := x.ob("maintains "+src, "invariant")
			o.Count++
			o.Status = "unknown"
			o.Detail = "not shown to hold at every iteration of the loop at " + x.posStr(blockPos(b))
		}
	}
	// final pass
	f2, s2, vals := x.loopHavoc(fr, b, st, entry, mod, phiMod)
	for _, cd := range cands {
		s2.assume(x.safeCandMust(cd, vals, s2))
	}
	f2.active[b] = &loopCtl{back: func(*Frame, *State, map[*ssa.Phi]Val) {}}
	x.run(f2, b, 0, s2)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func (x *Exec) safeCand(cd *candidate, ph map[*ssa.Phi]Val, st *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok && !strings.HasPrefix(u.msg, "time budget") {
				if os.Getenv("GOVC_LOOPS") != "" {
					fmt.Fprintf(os.Stderr, "    inv %s: %s\n", cd.name, u.msg)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	return cd.f(ph, st)
}

func (x *Exec) safeCandMust(cd *candidate, ph map[*ssa.Phi]Val, st *State) *Term {
	t := x.safeCand(cd, ph, st)
	if t == nil {
		return x.c.True()
	}
	return t
}

// collectWrites walks the store chain from v down to old.
func (x *Exec) collectWrites(k string, v, old, nextE, nextH *Term, serial0 int, writes map[string]map[*Term]bool, wild map[string]bool) {
	if !strings.HasPrefix(string(v.S), "(Array Int") {
		return
	}
	cur := v
	for cur != old && cur.Op == "store" {
		r := cur.Args[1]
		switch {
		case r.maxSer <= serial0:
			if writes[k] == nil {
				writes[k] = map[*Term]bool{}
			}
			writes[k][r] = true
		default:
			base, off := x.c.splitOff(r)
			if base != nil && strings.HasPrefix(base.Op, "next!") && off.Sign() >= 0 {
				// freshly allocated in the loop
			} else {
				wild[k] = true
			}
		}
		cur = cur.Args[0]
	}
	if cur != old {
		wild[k] = true
	}
}

func (x *Exec) loopCandidates(fr *Frame, b *ssa.BasicBlock, st *State, entry map[*ssa.Phi]Val, mod map[string]bool, phiMod map[*ssa.Phi]bool, writes map[string]map[*Term]bool, wild map[string]bool) []*candidate {
	c := x.c
	var out []*candidate
	add := func(name string, f func(ph map[*ssa.Phi]Val, st *State) *Term) {
		out = append(out, &candidate{name: name, f: f})
	}
	// heap frames
	keys := make([]string, 0, len(mod))
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if k[0] == '*' {
			continue
		}
		k := k
		so := x.keySort[k]
		if strings.HasPrefix(k, "X:iter") || so == SInt {
			e0 := x.get(st, k, so)
			if so == SInt {
				add("counter "+k+" grows", func(_ map[*ssa.Phi]Val, s *State) *Term { return c.Le(e0, x.get(s, k, so)) })
			}
			if strings.HasPrefix(k, "X:iter") {
				for v, iv := range fr.env {
					if it, ok := iv.(*MapIter); ok && it.PosKey == k {
						_ = v
						it := it
						add("iter bound", func(_ map[*ssa.Phi]Val, s *State) *Term {
							return c.And(c.Le(c.Int(0), x.get(s, k, so)), c.Le(x.get(s, k, so), it.N))
						})
					}
				}
			}
			continue
		}
		if !strings.HasPrefix(string(so), "(Array Int") {
			continue
		}
		e0 := x.get(st, k, so)
		nextE := st.next
		var ws []*Term
		for w := range writes[k] {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].ID < ws[j].ID })
		add("frame "+k, func(_ map[*ssa.Phi]Val, s *State) *Term {
			cur := x.get(s, k, so)
			r := c.BoundVar("r", SInt)
			g := []*Term{c.Lt(r, nextE)}
			for _, w := range ws {
				g = append(g, c.Not(c.Eq(r, w)))
			}
			return c.Forall([]*Term{r}, c.Imp(c.And(g...), c.Eq(c.Select(cur, r), c.Select(e0, r))), []*Term{c.mk("select", mustVal(so), cur, r)})
		})
		if strings.HasPrefix(k, "L:") {
			add("locks unchanged "+k, func(_ map[*ssa.Phi]Val, s *State) *Term { return c.Eq(x.get(s, k, so), e0) })
		}
		for _, w := range ws {
			w := w
			if mustVal(so) == SInt {
				add("cell grows "+k, func(_ map[*ssa.Phi]Val, s *State) *Term {
					return c.Le(c.Select(e0, w), c.Select(x.get(s, k, so), w))
				})
				add("cell non-negative "+k, func(_ map[*ssa.Phi]Val, s *State) *Term {
					return c.Le(c.Int(0), c.Select(x.get(s, k, so), w))
				})
			}
		}
	}
	// phis
	ps := headerPhis(b)
	body := fr.lf.in[b]
	isInt := func(p *ssa.Phi) bool { t, ok := entry[p].(*Term); return ok && t.S == SInt && isIntegerType(p.Type()) }
	for _, p := range ps {
		p := p
		if !phiMod[p] {
			continue
		}
		if isInt(p) {
			e0 := entry[p].(*Term)
			get := func(ph map[*ssa.Phi]Val) *Term { return ph[p].(*Term) }
			add(p.Name()+">=entry", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(e0, get(ph)) })
			add(p.Name()+"<=entry", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(get(ph), e0) })
			add(p.Name()+">=0", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(c.Int(0), get(ph)) })
			for _, n := range x.boundsOf(fr, b, body, p) {
				n := n
				add(p.Name()+"<=bound", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(get(ph), n) })
				add(p.Name()+"<bound", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Lt(get(ph), n) })
				add(p.Name()+">=bound", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(n, get(ph)) })
			}
			for _, q := range ps {
				q := q
				if q == p || !isInt(q) || !phiMod[q] {
					continue
				}
				f0 := entry[q].(*Term)
				if q.Name() > p.Name() {
					add(p.Name()+"~"+q.Name(), func(ph map[*ssa.Phi]Val, s *State) *Term {
						return c.Eq(c.Sub(get(ph), e0), c.Sub(ph[q].(*Term), f0))
					})
				}
				add(p.Name()+"<="+q.Name(), func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(get(ph), ph[q].(*Term)) })
			}
		}
		if s0, ok := entry[p].(*Slice); ok {
			get := func(ph map[*ssa.Phi]Val) *Slice { return ph[p].(*Slice) }
			nextE := st.next
			add(p.Name()+" fresh or entry", func(ph map[*ssa.Phi]Val, s *State) *Term {
				w := get(ph)
				return c.Or(c.Le(nextE, w.Arr), c.And(c.Eq(w.Arr, s0.Arr), c.Eq(w.Off, s0.Off), c.Eq(w.Cap, s0.Cap)))
			})
			add(p.Name()+" same array", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Eq(get(ph).Arr, s0.Arr) })
			add(p.Name()+" offset zero", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Eq(get(ph).Off, c.Int(0)) })
			add(p.Name()+" len grows", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Le(s0.Len, get(ph).Len) })
			for _, q := range ps {
				q := q
				if !isInt(q) || !phiMod[q] {
					continue
				}
				f0 := entry[q].(*Term)
				add("len "+p.Name()+"~"+q.Name(), func(ph map[*ssa.Phi]Val, s *State) *Term {
					return c.Eq(c.Sub(get(ph).Len, s0.Len), c.Sub(ph[q].(*Term), f0))
				})
				add("len "+p.Name()+"<="+q.Name(), func(ph map[*ssa.Phi]Val, s *State) *Term {
					return c.Le(c.Sub(get(ph).Len, s0.Len), c.Sub(ph[q].(*Term), f0))
				})
			}
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			add(p.Name()+" non-nil", func(ph map[*ssa.Phi]Val, s *State) *Term { return c.Not(x.isNil(ph[p])) })
		}
	}
	// specification invariants from every contract on the inline stack
	for f := fr; f != nil; f = f.up {
		if f.con == nil || f.cenv == nil {
			continue
		}
		for _, inv := range f.con.Invs {
			if !visible(inv.Props, x.prop) {
				continue
			}
			n0 := len(out)
			x.instInv(fr, f, b, inv, st, entry, &out)
			if inv.Must && f == fr && f.up == nil {
				for _, cd := range out[n0:] {
					cd.must = inv.Src
				}
			}
		}
	}
	return out
}

func mustVal(s Sort) Sort { _, v := splitArray(s); return v }

func isIntegerType(t types.Type) bool { _, _, ok := intInfo(t); return ok }

// boundsOf finds loop-invariant terms that p (or p+1) is compared with.
func (x *Exec) boundsOf(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *ssa.Phi) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	isP := func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == p {
			return true
		}
		return false
	}
	for blk := range body {
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			var o ssa.Value
			if isP(bo.X) {
				o = bo.Y
			} else if isP(bo.Y) {
				o = bo.X
			} else {
				continue
			}
			var t *Term
			if cst, ok := o.(*ssa.Const); ok {
				if v, ok := x.constOperand(cst).(*Term); ok {
					t = v
				}
			} else if v, ok := fr.env[o].(*Term); ok {
				if oi, ok := o.(ssa.Instruction); !ok || !body[oi.Block()] {
					t = v
				}
			} else if call, ok := o.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if s, ok := fr.env[call.Call.Args[0]].(*Slice); ok {
						t = s.Len
					}
					if s, ok := fr.env[call.Call.Args[0]].(*Term); ok && s.S == SStr {
						t = x.strLen(s)
					}
				}
			}
			if t != nil && t.S == SInt && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

type metaCand struct {
	name string
	get  func(ph map[*ssa.Phi]Val, st *State) SV
}

// instInv instantiates a specification invariant over the values in scope.
func (x *Exec) instInv(fr, cf *Frame, b *ssa.BasicBlock, inv InvClause, st *State, entry map[*ssa.Phi]Val, out *[]*candidate) {
	env0 := cf.cenv
	choices := make([][]metaCand, len(inv.Vars))
	for i, v := range inv.Vars {
		ty := v.Type
		any := strings.HasPrefix(ty, "~")
		ty = strings.TrimPrefix(ty, "~")
		if ty == "iter" {
			for sv, iv := range fr.env {
				if it, ok := iv.(*MapIter); ok {
					it := it
					choices[i] = append(choices[i], metaCand{sv.Name(), func(map[*ssa.Phi]Val, *State) SV { return SV{it, nil} }})
				}
			}
			continue
		}
		t := env0.typStr(ty)
		match := func(o types.Type) bool { return types.Identical(o, t) }
		for _, p := range headerPhis(b) {
			if match(p.Type()) {
				p := p
				choices[i] = append(choices[i], metaCand{p.Name(), func(ph map[*ssa.Phi]Val, _ *State) SV { return SV{ph[p], t} }})
			}
		}
		var names []ssa.Value
		for f := fr; f != nil; f = f.up {
			for sv := range f.env {
				names = append(names, sv)
			}
			if f == cf {
				break
			}
		}
		sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
		seen := map[*Term]bool{}
		for _, sv := range names {
			var val Val
			var owner *Frame
			for f := fr; f != nil; f = f.up {
				if v, ok := f.env[sv]; ok {
					val, owner = v, f
					break
				}
			}
			if p, ok := sv.(*ssa.Phi); ok && owner == fr && p.Block() == b {
				continue
			}
			// local cells
			if al, ok := sv.(*ssa.Alloc); ok {
				el := al.Type().(*types.Pointer).Elem()
				if match(el) {
					if a, ok := val.(*Addr); ok {
						choices[i] = append(choices[i], metaCand{"*" + sv.Name(), func(_ map[*ssa.Phi]Val, s *State) SV {
							return (&SpecEnv{x: x, st: s}).load(a, el)
						}})
					}
				}
			}
			if fv, ok := sv.(*ssa.FreeVar); ok {
				if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && match(pt.Elem()) {
					if a, ok := val.(*Addr); ok {
						el := pt.Elem()
						choices[i] = append(choices[i], metaCand{"*" + sv.Name(), func(_ map[*ssa.Phi]Val, s *State) SV {
							return (&SpecEnv{x: x, st: s}).load(a, el)
						}})
					}
				}
			}
			_, isPhi := sv.(*ssa.Phi)
			if (any || isPhi) && match(sv.Type()) {
				if in, ok := sv.(ssa.Instruction); ok && owner == fr {
					if in.Block() != nil && !in.Block().Dominates(b) {
						continue
					}
				}
				v := val
				fl := x.flatten(v, t)
				if len(fl) > 0 {
					if seen[fl[0]] && len(fl) == 1 {
						continue
					}
					seen[fl[0]] = true
				}
				choices[i] = append(choices[i], metaCand{sv.Name(), func(map[*ssa.Phi]Val, *State) SV { return SV{v, t} }})
			}
		}
		if len(choices[i]) == 0 {
			return
		}
	}
	total := 1
	for _, ch := range choices {
		total *= len(ch)
	}
	if total > 64 {
		total = 64
	}
	for n := 0; n < total; n++ {
		m := n
		pick := make([]metaCand, len(choices))
		names := []string{}
		dup := false
		for i, ch := range choices {
			pick[i] = ch[m%len(ch)]
			m /= len(ch)
			for j := 0; j < i; j++ {
				if pick[j].name == pick[i].name && inv.Vars[i].Type != "~" {
					dup = true
				}
			}
			names = append(names, inv.Vars[i].Name+"="+pick[i].name)
		}
		if dup {
			continue
		}
		vars := inv.Vars
		e := inv.E
		pre := st
		*out = append(*out, &candidate{name: inv.Src + " {" + strings.Join(names, ",") + "}", spec: true, f: func(ph map[*ssa.Phi]Val, s *State) *Term {
			env := *env0
			env.st = s
			if env0.old == nil {
				env.old = x.entry
			}
			env.vars = map[string]SV{}
			for k, v := range env0.vars {
				env.vars[k] = v
			}
			for i, v := range vars {
				env.vars[v.Name] = pick[i].get(ph, s)
			}
			env.pre = pre
			var facts []*Term
			env.facts = &facts
			r := env.Bool(e)
			s.assume(facts...)
			return r
		}})
	}
}
