package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic program state: heap arrays, path condition, allocation
// frontier.
type State struct {
	heap      map[string]*Term
	pc        []*Term
	pcm       map[*Term]bool
	next      *Term
	path      []string
	recovered bool
	// epoch numbers the last time everything was forgotten (a call that may
	// modify anything), acqEpoch the last time lock acquisitions were; a heap
	// key not in heap stands for its value then
	epoch, acqEpoch int
}

func (st *State) clone() *State {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	m := make(map[*Term]bool, len(st.pcm))
	for k := range st.pcm {
		m[k] = true
	}
	return &State{heap: h, pc: st.pc[:len(st.pc):len(st.pc)], pcm: m, next: st.next, path: st.path[:len(st.path):len(st.path)], recovered: st.recovered, epoch: st.epoch, acqEpoch: st.acqEpoch}
}

func (st *State) assume(fs ...*Term) {
	for _, f := range fs {
		if f.IsTrue() || st.pcm[f] {
			continue
		}
		if f.Op == "and" {
			st.assume(f.Args...)
			continue
		}
		st.pcm[f] = true
		st.pc = append(st.pc, f)
	}
}

func (st *State) note(s string) { st.path = append(st.path, s) }

// Frame is one activation.
type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	defers   []deferred
	up       *Frame
	con      *Contract
	cenv     *SpecEnv
	lf       *loopForest
	active   map[*ssa.BasicBlock]*loopCtl
	unrolled map[*ssa.BasicBlock]int
	ret      func(*State, Val)
	pan      func(*State, *PanicInfo)
	depth    int
	panicing *PanicInfo
}

type deferred struct {
	com  *ssa.CallCommon
	fnv  Val
	args []Val
	pos  token.Pos
}

type PanicInfo struct {
	Kind string // "explicit" or runtime kind
	Val  *Term  // interface value of explicit panic
	Pos  string
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.active = map[*ssa.BasicBlock]*loopCtl{}
	for k, v := range fr.active {
		n.active[k] = v
	}
	n.unrolled = map[*ssa.BasicBlock]int{}
	for k, v := range fr.unrolled {
		n.unrolled[k] = v
	}
	return &n
}

// MapIter is the value of an ssa.Range over a map.
type MapIter struct {
	M      *types.Map
	Ref    *Term
	Keys   *Term // Array Int K
	KIdx   *Term // Array K Int
	N      *Term
	PosKey string
	Dom0   *Term
	Val0   []*Term
}

// ---------- heap access ----------

func (x *Exec) get(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	x.keySort[key] = s
	e := st.epoch
	if strings.HasPrefix(key, "X:acq") {
		e = st.acqEpoch
	} else if strings.HasPrefix(key, "X:iter") {
		e = 0
	}
	return x.c.NamedSym(fmt.Sprintf("H%d$%s", e, sanitize(key)), s)
}

func (x *Exec) set(st *State, key string, t *Term) {
	x.keySort[key] = t.S
	st.heap[key] = t
}

func (x *Exec) objKey(root types.Type, path string) string { return "F:" + x.rootKey(root) + path }
func (x *Exec) elKey(root types.Type, path string) string  { return "E:" + x.rootKey(root) + path }

func (x *Exec) leafRead(st *State, a *Addr, l leaf) *Term {
	t := x.leafRead0(st, a, l)
	// a slice known to start at its array's base: keep index terms simple
	if l.Kind == "off" && t.I == nil && st.pcm[x.c.Eq(t, x.c.Int(0))] {
		return x.c.Int(0)
	}
	return t
}

func (x *Exec) leafRead0(st *State, a *Addr, l leaf) *Term {
	c := x.c
	switch a.Kind {
	case AObj:
		return c.Select(x.get(st, x.objKey(a.Root, a.Path+l.Path), arraySort(SInt, l.S)), a.Ref)
	case AElem:
		if ca, ok := x.constArr[a.Ref]; ok {
			for i, rl := range x.leaves(a.Root) {
				if rl.Path != a.Path+l.Path {
					continue
				}
				vs := ca.vals[i]
				if a.Idx.I != nil && a.Idx.I.IsInt64() && a.Idx.I.Int64() >= 0 && a.Idx.I.Int64() < int64(len(vs)) {
					return vs[a.Idx.I.Int64()]
				}
				if len(vs) > 0 && len(vs) <= 16 {
					r := vs[len(vs)-1]
					for j := len(vs) - 2; j >= 0; j-- {
						r = c.Ite(c.Eq(a.Idx, c.Int(int64(j))), vs[j], r)
					}
					return r
				}
			}
		}
		arr := x.get(st, x.elKey(a.Root, a.Path+l.Path), arraySort(SInt, arraySort(SInt, l.S)))
		return c.Select(c.Select(arr, a.Ref), a.Idx)
	case AGlobal:
		return x.globalRead(st, a, l)
	}
	panic("leafRead")
}

func (x *Exec) leafWrite(st *State, a *Addr, l leaf, v *Term) {
	c := x.c
	switch a.Kind {
	case AObj:
		k := x.objKey(a.Root, a.Path+l.Path)
		x.set(st, k, c.Store(x.get(st, k, arraySort(SInt, l.S)), a.Ref, v))
	case AElem:
		k := x.elKey(a.Root, a.Path+l.Path)
		arr := x.get(st, k, arraySort(SInt, arraySort(SInt, l.S)))
		x.set(st, k, c.Store(arr, a.Ref, c.Store(c.Select(arr, a.Ref), a.Idx, v)))
	case AGlobal:
		x.set(st, "G:"+a.G.RelString(nil)+a.Path+l.Path, v)
	}
}

func (x *Exec) load(st *State, a *Addr, t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		v := x.leafRead(st, a, l)
		ts = append(ts, v)
	}
	x.leafFacts(st, ts, t)
	return x.unflatten(ts, t)
}

func (x *Exec) store(st *State, a *Addr, v Val, t types.Type) {
	ts := x.flatten(v, t)
	for i, l := range x.leaves(t) {
		x.leafWrite(st, a, l, ts[i])
	}
}

// leafFacts assumes what the Go type system guarantees about leaf values.
func (x *Exec) leafFacts(st *State, ts []*Term, t types.Type) {
	ls := x.leaves(t)
	for i := 0; i < len(ls); i++ {
		if ts[i].hasBV {
			return
		}
		if ls[i].Kind == "arr" {
			st.assume(x.sliceFacts(st, ts[i], ts[i+1], ts[i+2], ts[i+3])...)
			i += 3
			continue
		}
		st.assume(x.typeFact(st, ts[i], ls[i].T)...)
	}
}

func (x *Exec) sliceFacts(st *State, arr, off, ln, cp *Term) []*Term {
	c := x.c
	if arr.I != nil && ln.I != nil && cp.I != nil {
		return nil
	}
	// Go allocates at most 2^48 bytes of heap, so no slice has more than 2^62 elements (elements of size zero aside)
	maxInt := c.Int(1 << 62)
	fs := []*Term{c.Le(c.Int(0), arr), c.Lt(arr, st.next), c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp), c.Le(c.Add(off, cp), maxInt),
		c.Imp(c.Eq(arr, c.Int(0)), c.Eq(cp, c.Int(0)))}
	return fs
}

// typeFact returns the range fact of a scalar leaf.
func (x *Exec) typeFact(st *State, t *Term, ty types.Type) []*Term {
	c := x.c
	if ty == nil || t.I != nil {
		return nil
	}
	if t.Op == "ite" {
		return append(x.typeFact(st, t.Args[1], ty), x.typeFact(st, t.Args[2], ty)...)
	}
	if _, ok := opaqueSort(ty); ok {
		return nil
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if t.S == SInt && u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(ty)
			return []*Term{c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))}
		}
	case *types.Pointer, *types.Map:
		if _, ok := x.addrTab[t]; ok {
			return nil
		}
		fs := []*Term{c.Le(c.Int(0), t), c.Lt(t, st.next)}
		if p, ok := u.(*types.Pointer); ok && len(x.S.TypedGhost) > 0 {
			// objects of the type are made only by allocating them, never inside others
			if g := x.S.TypedGhost[x.rootKey(p.Elem())]; g != "" {
				fs = append(fs, c.Or(c.Eq(t, c.Int(0)), c.Select(x.get(st, "X:"+g, arraySort(SInt, SBool)), t)))
			}
		}
		return fs
	}
	return nil
}

// fresh makes an arbitrary value of type t.
func (x *Exec) fresh(st *State, hint string, t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.c.Fresh(hint+l.Path, l.S))
	}
	x.leafFacts(st, ts, t)
	return x.unflatten(ts, t)
}

func (x *Exec) alloc(st *State, t types.Type) *Addr {
	r := st.next
	st.next = x.c.Add(r, x.c.Int(1))
	a := &Addr{Kind: AObj, Root: t, Ref: r, T: t}
	if at, ok := t.Underlying().(*types.Array); ok {
		// arrays live as element arrays so that they can be sliced
		x.allocElems(st, r, at.Elem())
		return a
	}
	for _, l := range x.leaves(t) {
		x.leafWrite(st, a, l, x.zeroTerm(l.S, l.T))
	}
	x.zeroLocks(st, a, t)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if g := x.S.AllocGhost[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; g != "" {
			so := arraySort(SInt, SBool)
			x.set(st, "X:"+g, x.c.Store(x.get(st, "X:"+g, so), r, x.c.True()))
		}
	}
	return a
}

func (x *Exec) zeroLocks(st *State, a *Addr, t types.Type) {
	if isLockType(t) {
		x.lockSet(st, a, x.c.Int(0))
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if _, op := opaqueSort(t); op {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			b := *a
			b.Path += "." + f.Name()
			b.T = f.Type()
			x.zeroLocks(st, &b, f.Type())
		}
	}
}

func (x *Exec) allocElems(st *State, r *Term, elem types.Type) {
	for _, l := range x.leaves(elem) {
		k := x.elKey(elem, l.Path)
		s := arraySort(SInt, l.S)
		arr := x.get(st, k, arraySort(SInt, s))
		x.set(st, k, x.c.Store(arr, r, x.c.ConstArray(s, x.zeroTerm(l.S, l.T))))
	}
}

func (x *Exec) newSlice(st *State, elem types.Type, ln, cp *Term) *Slice {
	r := st.next
	st.next = x.c.Add(r, x.c.Int(1))
	x.allocElems(st, r, elem)
	return &Slice{r, x.c.Int(0), ln, cp}
}

// ---- locks ----

func (x *Exec) lockKey(a *Addr) (string, *Term) {
	switch a.Kind {
	case AObj:
		return "L:" + x.rootKey(a.Root) + a.Path, a.Ref
	case AGlobal:
		return "L:" + a.G.RelString(nil) + a.Path, x.c.Int(1)
	}
	unsup("lock at %v", a)
	return "", nil
}

func (x *Exec) lockGet(st *State, a *Addr) *Term {
	k, r := x.lockKey(a)
	return x.c.Select(x.get(st, k, arraySort(SInt, SInt)), r)
}

func (x *Exec) lockSet(st *State, a *Addr, v *Term) {
	k, r := x.lockKey(a)
	x.set(st, k, x.c.Store(x.get(st, k, arraySort(SInt, SInt)), r, v))
}

// ---- maps ----

func (x *Exec) mapSorts(m *types.Map) (Sort, []leaf) {
	kl := x.leaves(m.Key())
	if len(kl) != 1 {
		unsup("map key type %s", m.Key())
	}
	return kl[0].S, x.leaves(m.Elem())
}

func (x *Exec) mapDom(st *State, m *types.Map, ref *Term) *Term {
	ks, _ := x.mapSorts(m)
	return x.c.Select(x.get(st, "MD:"+x.mapKey(m), arraySort(SInt, arraySort(ks, SBool))), ref)
}
func (x *Exec) mapLen(st *State, m *types.Map, ref *Term) *Term {
	return x.c.Select(x.get(st, "ML:"+x.mapKey(m), arraySort(SInt, SInt)), ref)
}
func (x *Exec) mapValArr(st *State, m *types.Map, ref *Term, l leaf) *Term {
	ks, _ := x.mapSorts(m)
	return x.c.Select(x.get(st, "MV:"+x.mapKey(m)+l.Path, arraySort(SInt, arraySort(ks, l.S))), ref)
}

func (x *Exec) mapHas(st *State, m *types.Map, ref, k *Term) *Term {
	return x.c.And(x.c.Not(x.c.Eq(ref, x.c.Int(0))), x.c.Select(x.mapDom(st, m, ref), k))
}

// mapGet returns the looked up value (zero when absent) and presence.
func (x *Exec) mapGet(st *State, m *types.Map, ref, k *Term) (Val, *Term) {
	c := x.c
	has := x.mapHas(st, m, ref, k)
	_, ls := x.mapSorts(m)
	var ts []*Term
	for _, l := range ls {
		v := c.Select(x.mapValArr(st, m, ref, l), k)
		ts = append(ts, v)
	}
	if !k.hasBV && !ref.hasBV {
		// facts hold for stored values; guard by presence
		tmp := &State{heap: st.heap, pcm: map[*Term]bool{}, next: st.next, epoch: st.epoch, acqEpoch: st.acqEpoch}
		x.leafFacts(tmp, ts, m.Elem())
		if len(tmp.pc) > 0 {
			st.assume(c.Imp(has, c.And(tmp.pc...)))
		}
	}
	for i, l := range ls {
		ts[i] = c.Ite(has, ts[i], x.zeroTerm(l.S, l.T))
	}
	return x.unflatten(ts, m.Elem()), has
}

func (x *Exec) mapPut(st *State, m *types.Map, ref, k *Term, v Val) {
	c := x.c
	ks, ls := x.mapSorts(m)
	has := x.mapHas(st, m, ref, k)
	kd := "MD:" + x.mapKey(m)
	dom := x.get(st, kd, arraySort(SInt, arraySort(ks, SBool)))
	kl := "ML:" + x.mapKey(m)
	ln := x.get(st, kl, arraySort(SInt, SInt))
	x.set(st, kl, c.Store(ln, ref, c.Ite(has, c.Select(ln, ref), c.Add(c.Select(ln, ref), c.Int(1)))))
	x.set(st, kd, c.Store(dom, ref, c.Store(c.Select(dom, ref), k, c.True())))
	for i, t := range x.flatten(v, m.Elem()) {
		kk := "MV:" + x.mapKey(m) + ls[i].Path
		arr := x.get(st, kk, arraySort(SInt, arraySort(ks, ls[i].S)))
		x.set(st, kk, c.Store(arr, ref, c.Store(c.Select(arr, ref), k, t)))
	}
}

func (x *Exec) mapDelete(st *State, m *types.Map, ref, k *Term) {
	c := x.c
	ks, _ := x.mapSorts(m)
	has := x.mapHas(st, m, ref, k)
	kd := "MD:" + x.mapKey(m)
	dom := x.get(st, kd, arraySort(SInt, arraySort(ks, SBool)))
	kl := "ML:" + x.mapKey(m)
	ln := x.get(st, kl, arraySort(SInt, SInt))
	x.set(st, kl, c.Store(ln, ref, c.Ite(has, c.Sub(c.Select(ln, ref), c.Int(1)), c.Select(ln, ref))))
	x.set(st, kd, c.Store(dom, ref, c.Store(c.Select(dom, ref), k, c.False())))
}

// ---- global variables ----

func (x *Exec) globalRead(st *State, a *Addr, l leaf) *Term {
	key := "G:" + a.G.RelString(nil) + a.Path + l.Path
	if t, ok := st.heap[key]; ok {
		return t
	}
	if !x.P.storedGlobals[a.G] {
		if t := x.globalConst(st, a, l); t != nil {
			return t
		}
	}
	return x.get(st, key, l.S)
}

// ---- proving ----

func (x *Exec) prove(st *State, f *Term, ms int) bool {
	if f.IsTrue() || st.pcm[f] {
		return true
	}
	if f.IsFalse() && len(st.pc) == 0 {
		return false
	}
	return x.unsat(append(append([]*Term{}, st.pc...), x.c.Not(f)), ms)
}

// prove2 asks all back ends, for a few seconds.
func (x *Exec) prove2(st *State, f *Term) bool {
	as := append(append([]*Term{}, st.pc...), x.c.Not(f))
	k := "2:"
	for _, a := range as {
		k += fmt.Sprintf("%d,", a.ID)
	}
	if r, ok := x.satCache[k]; ok {
		return r == Unsat
	}
	x.checkBudget()
	r, _ := Portfolio(x.c.Query(as), 4)
	x.satCache[k] = r
	return r == Unsat
}

func (x *Exec) proveQF(st *State, f *Term, ms int) bool {
	if f.IsTrue() || st.pcm[f] {
		return true
	}
	var as []*Term
	for _, p := range st.pc {
		if !p.hasQ {
			as = append(as, p)
		}
	}
	return x.unsatL(append(as, x.c.Not(f)), ms, true)
}

func (x *Exec) unsat(as []*Term, ms int) bool { return x.unsatL(as, ms, false) }

func (x *Exec) unsatL(as []*Term, ms int, light bool) bool {
	ids := make([]int, 0, len(as))
	for _, a := range as {
		if a.IsFalse() {
			return true
		}
		if a.IsTrue() {
			continue
		}
		ids = append(ids, a.ID)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	if light {
		sb.WriteString("L")
	}
	k := sb.String()
	if r, ok := x.satCache[k]; ok && (r == Unsat || x.satMs[k] >= ms) {
		return r == Unsat
	}
	x.checkBudget()
	t0 := time.Now()
	r := x.z.check(x.c.query(as, light), ms, false)
	if x.verbose && time.Since(t0) > 200*time.Millisecond {
		if d := os.Getenv("GOVC_SLOW"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Now().UnixNano()), []byte(x.c.query(as, light)), 0o644)
		}
		fmt.Fprintf(os.Stderr, "    slow query (%d ms): %s %v\n", ms, r, time.Since(t0).Round(time.Millisecond))
	}
	x.satCache[k] = r
	x.satMs[k] = ms
	return r == Unsat
}

// feasible reports whether st's path condition may be satisfiable.
func (x *Exec) feasible(st *State) bool {
	for _, p := range st.pc {
		if p.IsFalse() {
			return false
		}
	}
	if x.noFeas {
		return true
	}
	var as []*Term
	for _, p := range st.pc {
		if !p.hasQ {
			as = append(as, p)
		}
	}
	return !x.unsatL(as, 400, true)
}
