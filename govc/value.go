package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of *Term, *Struct, *Slice, *Addr, *Clo, Tuple.
type Val interface{}

type Struct struct {
	T types.Type // named or struct type
	F []Val
}

type Slice struct {
	Arr, Off, Len, Cap *Term
}

type AddrKind int

const (
	AObj AddrKind = iota
	AElem
	AGlobal
)

// Addr is a pointer value.
type Addr struct {
	Kind AddrKind
	Root types.Type // type of the allocated object (AObj), element type (AElem)
	Ref  *Term      // object or backing array
	Idx  *Term      // AElem
	G    *ssa.Global
	Path string     // ".f.g" inside the root
	T    types.Type // pointee type
}

type Clo struct {
	Fn   *ssa.Function
	Bind []Val
	Recv Val // bound method receiver (unused for ssa closures)
}

type Tuple []Val

// ---- type classification ----

func named(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func typeName(t types.Type) string {
	if n := named(t); n != nil {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func opaqueSort(t types.Type) (Sort, bool) {
	switch typeName(t) {
	case "time.Time":
		return STime, true
	case "reflect.Value":
		return SRV, true
	}
	return "", false
}

func isLockType(t types.Type) bool {
	switch typeName(t) {
	case "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isF32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func intRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, _ := intInfo(t)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
		return
	}
	return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

type leaf struct {
	Path string
	S    Sort
	T    types.Type // Go type of the leaf (nil for slice parts)
	Kind string     // "", "arr", "off", "len", "cap"
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (x *Exec) floatSort(t types.Type) Sort {
	if x.c.FltMode == "real" {
		return SReal
	}
	if isF32(t) {
		return SF32
	}
	return SF64
}

func (x *Exec) leafSort(t types.Type) (Sort, bool) {
	if s, ok := opaqueSort(t); ok {
		return s, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			if x.c.BV {
				b, _, _ := intInfo(t)
				return bvSort(b), true
			}
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return x.floatSort(t), true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Kind() == types.UnsafePointer:
			return SInt, true
		case u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.Interface:
		return SIface, true
	}
	return "", false
}

func (x *Exec) leaves(t types.Type) []leaf {
	key := typeText(t, nil)
	if l, ok := x.leafCache[key]; ok {
		return l
	}
	var out []leaf
	if isLockType(t) {
		x.leafCache[key] = nil
		return nil
	}
	if s, ok := x.leafSort(t); ok {
		out = []leaf{{"", s, t, ""}}
	} else {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			out = []leaf{{"", SInt, t, "arr"}, {"#off", SInt, nil, "off"}, {"#len", SInt, nil, "len"}, {"#cap", SInt, nil, "cap"}}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				for _, l := range x.leaves(f.Type()) {
					out = append(out, leaf{"." + f.Name() + l.Path, l.S, l.T, l.Kind})
				}
			}
		case *types.Array:
			if u.Len() > 8 {
				unsup("array value of type %s", t)
			}
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range x.leaves(u.Elem()) {
					out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.Path), l.S, l.T, l.Kind})
				}
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range x.leaves(u.At(i).Type()) {
					out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.Path), l.S, l.T, l.Kind})
				}
			}
		default:
			unsup("type %s", t)
		}
	}
	x.leafCache[key] = out
	return out
}

// flatten turns a value into its leaf terms.
func (x *Exec) flatten(v Val, t types.Type) []*Term {
	if isLockType(t) {
		return nil
	}
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *Slice:
		return []*Term{w.Arr, w.Off, w.Len, w.Cap}
	case *Struct:
		st := w.T.Underlying()
		var out []*Term
		switch u := st.(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, x.flatten(w.F[i], u.Field(i).Type())...)
			}
		case *types.Array:
			for i := range w.F {
				out = append(out, x.flatten(w.F[i], u.Elem())...)
			}
		}
		return out
	case *Addr:
		return []*Term{x.addrTerm(w)}
	case *Clo:
		return []*Term{x.cloTerm(w)}
	case nil:
		unsup("flatten of missing value of type %v", t)
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func (x *Exec) unflatten(ts []*Term, t types.Type) Val {
	v, rest := x.unfl(ts, t)
	if len(rest) != 0 {
		panic("unflatten: leftover terms for " + t.String())
	}
	return v
}

func (x *Exec) unfl(ts []*Term, t types.Type) (Val, []*Term) {
	if isLockType(t) {
		return &Struct{T: types.NewStruct(nil, nil)}, ts
	}
	if _, ok := x.leafSort(t); ok {
		tm := ts[0]
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return x.ptrVal(tm, u.Elem()), ts[1:]
		case *types.Signature:
			if cl, ok := x.cloTab[tm]; ok {
				return cl, ts[1:]
			}
		}
		return tm, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &Slice{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = x.unfl(ts, u.Field(i).Type())
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		s := &Struct{T: t}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ts = x.unfl(ts, u.Elem())
			s.F = append(s.F, f)
		}
		return s, ts
	}
	panic("unfl " + t.String())
}

// ptrVal makes a pointer value from a reference term.
func (x *Exec) ptrVal(t *Term, elem types.Type) *Addr {
	if a, ok := x.addrTab[t]; ok {
		b := *a
		if types.Identical(b.T.Underlying(), elem.Underlying()) {
			b.T = elem
		}
		return &b
	}
	return &Addr{Kind: AObj, Root: elem, Ref: t, T: elem}
}

func (x *Exec) addrTerm(a *Addr) *Term {
	if a.Kind == AObj && a.Path == "" {
		return a.Ref
	}
	var t *Term
	switch a.Kind {
	case AObj:
		t = x.c.App("addr$"+sanitize(x.rootKey(a.Root)+a.Path), SInt, a.Ref)
	case AElem:
		t = x.c.App("addrE$"+sanitize(x.elemKey(a.Root)+a.Path), SInt, a.Ref, a.Idx)
	case AGlobal:
		t = x.c.NamedSym("addrG$"+sanitize(a.G.RelString(nil)+a.Path), SInt)
		x.c.AddAxiom(t.Op, x.c.Not(x.c.Eq(t, x.c.Int(0))))
	}
	if len(t.Args) > 0 {
		// non-nil for the arguments used
		x.c.AddAxiom(t.Op, x.c.Not(x.c.Eq(t, x.c.Int(0))))
	}
	x.addrTab[t] = a
	return t
}

func (x *Exec) cloTerm(cl *Clo) *Term {
	var t *Term
	if len(cl.Bind) == 0 && cl.Recv == nil {
		t = x.c.NamedSym("fn$"+sanitize(cl.Fn.RelString(nil)), SInt)
	} else {
		if old, ok := x.cloTerms[cl]; ok {
			return old
		}
		t = x.c.Fresh("clo$"+cl.Fn.Name(), SInt)
		x.cloTerms[cl] = t
	}
	x.c.AddAxiom(t.Op, x.c.Not(x.c.Eq(t, x.c.Int(0))))
	x.cloTab[t] = cl
	return t
}

var aliasRE = regexp.MustCompile(`(^|[^.\w])(byte|rune|any)\b`)

// typeText is the text of a type with the predeclared aliases resolved, so
// that identical types have the same text.
func typeText(t types.Type, q types.Qualifier) string {
	s := types.TypeString(t, q)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") || strings.Contains(s, "any") {
		s = aliasRE.ReplaceAllStringFunc(s, func(m string) string {
			for a, b := range map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"} {
				if strings.HasSuffix(m, a) {
					return strings.TrimSuffix(m, a) + b
				}
			}
			return m
		})
	}
	return s
}

// rootKey names the family of heap arrays of an object type.
func (x *Exec) rootKey(t types.Type) string {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
		if k, ok := x.structNames[st]; ok {
			return k
		}
		k := typeText(t, shortQual)
		for _, used := range x.structNames {
			if used == k {
				k = fmt.Sprintf("%s~%d", k, len(x.structNames))
			}
		}
		x.structNames[st] = k
		return k
	}
	return typeText(t.Underlying(), shortQual)
}

func (x *Exec) elemKey(t types.Type) string { return "[]" + x.rootKey(t) }

func shortQual(p *types.Package) string { return p.Name() }

func (x *Exec) mapKey(m *types.Map) string {
	return "map[" + typeText(m.Key(), shortQual) + "]" + typeText(m.Elem(), shortQual)
}

// ---- zero values and constants ----

func (x *Exec) zeroTerm(s Sort, t types.Type) *Term {
	c := x.c
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False()
	case SReal:
		return c.Real(new(big.Rat))
	case SF64:
		return x.f64(0)
	case SF32:
		return x.f32(0)
	case SStr:
		return c.Str("")
	case SIface:
		return x.nilIface()
	case STime:
		z := c.NamedSym("time$zero", STime)
		if x.S.Funs["tns"] != nil {
			// January 1, year 1, 00:00:00 UTC
			n, _ := new(big.Int).SetString("-62135596800000000000", 10)
			c.AddAxiom("time$zero", c.Eq(c.App("f$tns", SInt, z), c.Big(n)))
		}
		return z
	case SRV:
		return c.NamedSym("rv$zero", SRV)
	}
	if strings.HasPrefix(string(s), "(_ BitVec") {
		var n int
		fmt.Sscanf(string(s), "(_ BitVec %d)", &n)
		return c.BVLit(new(big.Int), n)
	}
	panic("zero of sort " + string(s))
}

func (x *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.zeroTerm(l.S, l.T))
	}
	return x.unflatten(ts, t)
}

func (x *Exec) f64(f float64) *Term {
	if x.c.FltMode == "real" {
		r := new(big.Rat)
		r.SetFloat64(f)
		return x.c.Real(r)
	}
	if x.c.FltMode == "uf" {
		return x.ufLit(f, SF64)
	}
	if math.IsNaN(f) {
		return x.c.mk("(_ NaN 11 53)", SF64)
	}
	b := math.Float64bits(f)
	bin := fmt.Sprintf("%064b", b)
	return x.c.mk(fmt.Sprintf("(fp #b%s #b%s #b%s)", bin[:1], bin[1:12], bin[12:]), SF64)
}

func (x *Exec) f32(f float32) *Term {
	if x.c.FltMode == "real" {
		r := new(big.Rat)
		r.SetFloat64(float64(f))
		return x.c.Real(r)
	}
	if x.c.FltMode == "uf" {
		return x.ufLit(float64(f), SF32)
	}
	b := math.Float32bits(f)
	bin := fmt.Sprintf("%032b", b)
	return x.c.mk(fmt.Sprintf("(fp #b%s #b%s #b%s)", bin[:1], bin[1:9], bin[9:]), SF32)
}

func (x *Exec) nilIface() *Term {
	t := x.c.NamedSym("iface$nil", SIface)
	x.c.AddAxiom(t.Op, x.c.Eq(x.typeof(t), x.c.Int(0)))
	return t
}

func (x *Exec) typeof(t *Term) *Term { return x.c.App("typeof", SInt, t) }

type tagInfo struct {
	T types.Type
}

// tag returns the integer tag of a concrete Go type.
func (x *Exec) tag(t types.Type) int {
	k := typeText(t, nil)
	if n, ok := x.c.tagOf[k]; ok {
		return n
	}
	x.c.tags = append(x.c.tags, tagInfo{t})
	n := len(x.c.tags)
	x.c.tagOf[k] = n
	// facts about interface satisfaction known so far
	for name, it := range x.implIfaces {
		x.implFact(name, it, n, t)
	}
	return n
}

func (x *Exec) implFact(name string, it *types.Interface, tag int, t types.Type) {
	ap := x.c.App(name, SBool, x.c.Int(int64(tag)))
	if types.Implements(t, it) {
		x.c.AddAxiom(name, ap)
	} else {
		x.c.AddAxiom(name, x.c.Not(ap))
	}
}

func (x *Exec) implements(tagTerm *Term, it types.Type) *Term {
	name := "impl$" + sanitize(typeText(it, shortQual))
	iface := it.Underlying().(*types.Interface)
	if _, ok := x.implIfaces[name]; !ok {
		x.implIfaces[name] = iface
		x.c.DeclFun(name, []Sort{SInt}, SBool)
		x.c.AddAxiom(name, x.c.Not(x.c.App(name, SBool, x.c.Int(0))))
		for i, ti := range x.c.tags {
			x.implFact(name, iface, i+1, ti.T)
		}
	}
	if tagTerm.I != nil && tagTerm.I.IsInt64() && tagTerm.I.Int64() > 0 {
		return x.c.Bool(types.Implements(x.c.tags[tagTerm.I.Int64()-1].T, iface))
	}
	return x.c.App(name, SBool, tagTerm)
}

func (x *Exec) boxName(t types.Type) string {
	return "box$" + sanitize(typeText(t, shortQual))
}

// box makes an interface value.
func (x *Exec) box(v Val, t types.Type) *Term {
	ts := x.flatten(v, t)
	c := x.c
	name := x.boxName(t)
	tag := c.Int(int64(x.tag(t)))
	if len(ts) == 0 {
		b := c.NamedSym(name, SIface)
		c.AddAxiom(name, c.Eq(x.typeof(b), tag))
		return b
	}
	b := c.App(name, SIface, ts...)
	if _, ok := x.boxed[name]; !ok {
		x.boxed[name] = t
		var vs []*Term
		for i, l := range x.leaves(t) {
			_ = i
			vs = append(vs, c.BoundVar("b", l.S))
		}
		bb := c.App(name, SIface, vs...)
		conj := []*Term{c.Eq(x.typeof(bb), tag)}
		for i, v := range vs {
			conj = append(conj, c.Eq(c.App(fmt.Sprintf("un%s.%d", name, i), v.S, bb), v))
		}
		c.AddAxiom(name, c.Forall(vs, c.And(conj...), []*Term{bb}))
	}
	return b
}

// unbox returns the concrete value of type t inside an interface term.
func (x *Exec) unbox(i *Term, t types.Type) Val {
	c := x.c
	name := x.boxName(t)
	if i.Op == name {
		if len(i.Args) == 0 {
			return x.zero(t)
		}
		return x.unflatten(i.Args, t)
	}
	var ts []*Term
	for k, l := range x.leaves(t) {
		ts = append(ts, c.App(fmt.Sprintf("un%s.%d", name, k), l.S, i))
	}
	return x.unflatten(ts, t)
}

// knownBox reports the concrete type of an interface term when syntactically known.
func (x *Exec) knownBox(i *Term) (types.Type, bool) {
	t, ok := x.boxed[i.Op]
	return t, ok
}
