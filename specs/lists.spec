# ---- reflection over slices (C14) ----
# The elements behind a slice are the ghost cont[base][offset + i], each as an interface value of its own type.
ghost cont map(int,map(int,iface))
fun sl_base(rv) int
fun sl_off(rv) int
fun rv_loc(rv) int
fun rv_loci(rv) int
fun rv_ival(rv) iface
pred E_(v, i) = cont[sl_base(v)][sl_off(v) + i]
pred cur(v) = ite(rv_loc(v) != 0, cont[rv_loc(v)][rv_loci(v)], rv_ival(v))
axiom forall(i, iface, trig(rv_loc(rv_of(i)) == 0 && rv_ival(rv_of(i)) == i && (rv_valid(rv_of(i)) <==> i != nil) && (i != nil ==> rv_type(rv_of(i)) == rtypeof(i)), rv_of(i)))
axiom forall(v, rv, forall(i, int, trig(rv_loc(rv_index(v, i)) == sl_base(v) && rv_loci(rv_index(v, i)) == sl_off(v) + i && rv_type(rv_index(v, i)) == rt_elem(rv_type(v)) && rv_valid(rv_index(v, i)), rv_index(v, i))))
# the number, string, .. in an interface value whose type is of that kind
fun evint(iface) int
fun evuint(iface) int
fun evflt(iface) float
fun evstr(iface) string
fun evbool(iface) bool
pred rkind(x) = rt_kind(rtypeof(x))
axiom forall(x, iface, trig((typeis(x, int8) ==> evint(x) == x.(int8)) && (typeis(x, int16) ==> evint(x) == x.(int16)) && (typeis(x, int32) ==> evint(x) == x.(int32)) && (typeis(x, int64) ==> evint(x) == x.(int64)) && (typeis(x, time.Duration) ==> evint(x) == x.(time.Duration)), evint(x)))
axiom forall(x, iface, trig((rkind(x) == 3 ==> inrange(evint(x), int8)) && (rkind(x) == 4 ==> inrange(evint(x), int16)) && (rkind(x) == 5 ==> inrange(evint(x), int32)) && (rkind(x) == 2 || rkind(x) == 6 ==> inrange(evint(x), int64)), evint(x)))
axiom forall(x, iface, trig((typeis(x, uint8) ==> evuint(x) == x.(uint8)) && (typeis(x, uint16) ==> evuint(x) == x.(uint16)) && (typeis(x, uint32) ==> evuint(x) == x.(uint32)) && (typeis(x, uint64) ==> evuint(x) == x.(uint64)), evuint(x)))
axiom forall(x, iface, trig((rkind(x) == 8 ==> inrange(evuint(x), uint8)) && (rkind(x) == 9 ==> inrange(evuint(x), uint16)) && (rkind(x) == 10 ==> inrange(evuint(x), uint32)) && (rkind(x) == 7 || rkind(x) == 11 ==> inrange(evuint(x), uint64)), evuint(x)))
axiom forall(x, iface, trig((typeis(x, float64) ==> same(evflt(x), x.(float64))), evflt(x)))
axiom forall(x, iface, trig(typeis(x, string) ==> evstr(x) == x.(string), evstr(x)))
axiom forall(x, iface, trig(typeis(x, bool) ==> evbool(x) == x.(bool), evbool(x)))
axiom rt_kind(rtype(bool)) == 1 && rt_kind(rtype(int8)) == 3 && rt_kind(rtype(int16)) == 4 && rt_kind(rtype(int32)) == 5 && rt_kind(rtype(int64)) == 6 && rt_kind(rtype(uint8)) == 8 && rt_kind(rtype(uint16)) == 9 && rt_kind(rtype(uint32)) == 10 && rt_kind(rtype(uint64)) == 11
  && rt_kind(rtype(float32)) == 13 && rt_kind(rtype(float64)) == 14 && rt_kind(rtype(string)) == 24 && rt_kind(rtype(time.Time)) == 25 && rt_kind(rtype(time.Duration)) == 6 && rt_kind(rtype(*time.Time)) == 22
axiom rt_kind(rtype([]bool)) == 23 && rt_kind(rtype([]int8)) == 23 && rt_kind(rtype([]int16)) == 23 && rt_kind(rtype([]int32)) == 23 && rt_kind(rtype([]int64)) == 23 && rt_kind(rtype([]uint8)) == 23 && rt_kind(rtype([]uint16)) == 23 && rt_kind(rtype([]uint32)) == 23 && rt_kind(rtype([]uint64)) == 23 && rt_kind(rtype([]float32)) == 23 && rt_kind(rtype([]float64)) == 23 && rt_kind(rtype([]string)) == 23 && rt_kind(rtype([]time.Time)) == 23 && rt_kind(rtype([]time.Duration)) == 23
axiom rt_elem(rtype([]bool)) == rtype(bool) && rt_elem(rtype([]int8)) == rtype(int8) && rt_elem(rtype([]int16)) == rtype(int16) && rt_elem(rtype([]int32)) == rtype(int32) && rt_elem(rtype([]int64)) == rtype(int64) && rt_elem(rtype([]uint8)) == rtype(uint8) && rt_elem(rtype([]uint16)) == rtype(uint16) && rt_elem(rtype([]uint32)) == rtype(uint32) && rt_elem(rtype([]uint64)) == rtype(uint64)
  && rt_elem(rtype([]float32)) == rtype(float32) && rt_elem(rtype([]float64)) == rtype(float64) && rt_elem(rtype([]string)) == rtype(string) && rt_elem(rtype([]time.Time)) == rtype(time.Time) && rt_elem(rtype([]time.Duration)) == rtype(time.Duration)
# the metric type documented for a Go type
pred kindt(k) = ite(k == 1, types.Bool, ite(k == 3, types.Int8, ite(k == 4, types.Int16, ite(k == 5, types.Int32, ite((k == 6 || k == 2), types.Int64, ite(k == 8, types.Uint8, ite(k == 9, types.Uint16, ite(k == 10, types.Uint32, ite((k == 11 || k == 7), types.Uint64, ite(k == 13, types.Float32, ite(k == 14, types.Float64, ite(k == 24, types.String, types.Unknown))))))))))))
def primt(t iface) string = ite(t == rtype(time.Time) || t == rtype(*time.Time), types.GoTime, ite(t == rtype(time.Duration), types.GoDuration, kindt(rt_kind(t))))
pred bitsof(t) = ite(t == types.Int8 || t == types.Uint8, 8, ite(t == types.Int16 || t == types.Uint16, 16, ite(t == types.Int32 || t == types.Uint32 || t == types.Float32, 32, ite(t == types.Int64 || t == types.Uint64 || t == types.Float64, 64, 0))))
pred supported(t) = primt(t) != types.Unknown
# the slice type lists of type t are reported with
def stdslice(t string) iface = ite(t == types.GoTime, rtype([]time.Time), ite(t == types.String, rtype([]string), ite(t == types.Float64, rtype([]float64), ite(t == types.Float32, rtype([]float32), ite(t == types.Uint64, rtype([]uint64), ite(t == types.Uint32, rtype([]uint32), ite(t == types.Uint16, rtype([]uint16), ite(t == types.Uint8, rtype([]uint8), ite(t == types.Int64, rtype([]int64), ite(t == types.Int32, rtype([]int32), ite(t == types.Int16, rtype([]int16), ite(t == types.Int8, rtype([]int8), ite(t == types.Bool, rtype([]bool), rtype([]time.Duration))))))))))))))
# y is x as the documented Go type for metric type t
def isnorm(t string, x iface, y iface) bool = (t == types.Bool ==> typeis(y, bool) && (y.(bool) <==> evbool(x)))
  && (t == types.Int8 ==> typeis(y, int8) && y.(int8) == evint(x))
  && (t == types.Int16 ==> typeis(y, int16) && y.(int16) == evint(x))
  && (t == types.Int32 ==> typeis(y, int32) && y.(int32) == evint(x))
  && (t == types.Int64 ==> typeis(y, int64) && y.(int64) == evint(x))
  && (t == types.Uint8 ==> typeis(y, uint8) && y.(uint8) == evuint(x))
  && (t == types.Uint16 ==> typeis(y, uint16) && y.(uint16) == evuint(x))
  && (t == types.Uint32 ==> typeis(y, uint32) && y.(uint32) == evuint(x))
  && (t == types.Uint64 ==> typeis(y, uint64) && y.(uint64) == evuint(x))
  && (t == types.Float32 ==> typeis(y, float32) && same(y.(float32), evf32(x)))
  && (t == types.Float64 ==> typeis(y, float64) && same(y.(float64), evflt(x)))
  && (t == types.String ==> typeis(y, string) && y.(string) == evstr(x))
  && (t == types.GoTime ==> y == x && typeis(y, time.Time))
  && (t == types.GoDuration ==> typeis(y, time.Duration) && y.(time.Duration) == evint(x))
# float32 elements: evflt is the float64 of equal value
fun evf32(iface) float32
axiom forall(x, iface, trig(typeis(x, float32) ==> same(evf32(x), x.(float32)), evf32(x)))
axiom forall(x, iface, trig(rkind(x) == 13 ==> same(float32(evflt(x)), evf32(x)), evflt(x)))
extern (reflect.Value).Kind(v) (k)
  ensures k == ite(rv_valid(v), rt_kind(rv_type(v)), 0)
extern (reflect.Value).Type@C13,C14,C19(v) (t)
  requires rv_valid(v)
  ensures t == rv_type(v) && t != nil
fun rt_name(iface) string
fun rt_pkgpath(iface) string
fun rt_string(iface) string
extern (reflect.Type).Name@C13,C14,C19(t) (n)
  ensures n == rt_name(t)
extern (reflect.Type).PkgPath@C13,C14,C19(t) (n)
  ensures n == rt_pkgpath(t)
extern (reflect.Type).String@C13,C14,C19(t) (n)
  ensures n == rt_string(t)
extern (reflect.Type).Elem@C14(t) (o)
  requires rt_kind(t) == 23 || rt_kind(t) == 22
  ensures o == rt_elem(t) && o != nil
# memory is well typed
pred wellread(v) = rv_valid(v) && rt_kind(rv_type(v)) != 20 ==> rtypeof(cur(v)) == rv_type(v)
extern (reflect.Value).Int@C13,C14,C19(v) (f)
  requires 2 <= rt_kind(rv_type(v)) && rt_kind(rv_type(v)) <= 6
  ensures f == evint(cur(v))
  ensures wellread(v)
extern (reflect.Value).Uint@C13,C14,C19(v) (f)
  requires 7 <= rt_kind(rv_type(v)) && rt_kind(rv_type(v)) <= 11
  ensures f == evuint(cur(v))
  ensures wellread(v)
extern (reflect.Value).Float@C13,C14,C19(v) (f)
  requires 13 <= rt_kind(rv_type(v)) && rt_kind(rv_type(v)) <= 14
  ensures same(f, evflt(cur(v)))
  ensures wellread(v)
extern (reflect.Value).String@C13,C14,C19(v) (f)
  ensures rt_kind(rv_type(v)) == 24 ==> f == evstr(cur(v))
  ensures wellread(v)
extern (reflect.Value).Bool@C13,C14,C19(v) (f)
  requires rt_kind(rv_type(v)) == 1
  ensures f == evbool(cur(v))
  ensures wellread(v)
# the interface value of a slice has the same elements behind it
fun rv_ifc(rv) iface
axiom forall(v, rv, trig(sl_base(rv_of(rv_ifc(v))) == sl_base(v) && sl_off(rv_of(rv_ifc(v))) == sl_off(v) && rv_len(rv_of(rv_ifc(v))) == rv_len(v) && rtypeof(rv_ifc(v)) == rv_type(v) && rv_ifc(v) != nil, rv_ifc(v)))
extern (reflect.Value).Interface@C13,C14,C19(v) (f)
  requires rv_valid(v)
  ensures ite(rt_kind(rv_type(v)) == 23, f == rv_ifc(v), f == cur(v))
  ensures wellread(v)
extern (reflect.Value).Len@C14,C19(v) (n)
  requires rt_kind(rv_type(v)) == 23
  ensures n >= 0 && n == rv_len(v)
extern (reflect.Value).Cap(v) (n)
  requires rt_kind(rv_type(v)) == 23
  ensures n >= rv_len(v)
extern (reflect.Value).Index@C14,C19(v, i) (e)
  requires rt_kind(rv_type(v)) == 23 && 0 <= i && i < rv_len(v)
  ensures e == rv_index(v, i)
extern (reflect.Value).Set@C14(v, x)
  requires rv_loc(v) != 0 && rv_valid(x) && rv_type(x) == rv_type(v)
  modifies cont[rv_loc(v)]
  ensures cont[rv_loc(v)] == store(old(cont[rv_loc(v)]), rv_loci(v), old(cur(x)))
extern reflect.MakeSlice@C14(t, n, c) (v)
  requires rt_kind(t) == 23 && 0 <= n && n <= c
  modifies cont
  ensures fresh(sl_base(v)) && rv_type(v) == t && rv_len(v) == n && rv_valid(v) && sl_off(v) == 0 && rv_loc(v) == 0
  ensures forall(b, int, trig(b < old(next()) ==> cont[b] == old(cont[b]), cont[b]))
  ensures forall(i, 0, n, rtypeof(E_(v, i)) == rt_elem(t))
extern reflect.Copy@C14(d, s) (n)
  requires rt_kind(rv_type(d)) == 23 && rv_type(d) == rv_type(s)
  modifies cont[sl_base(d)]
  ensures n == ite(rv_len(d) < rv_len(s), rv_len(d), rv_len(s))
  ensures forall(i, int, trig(ite(sl_off(d) <= i && i < sl_off(d) + n, cont[sl_base(d)][i] == old(cont[sl_base(s)][i - sl_off(d) + sl_off(s)]), cont[sl_base(d)][i] == old(cont[sl_base(d)][i])), cont[sl_base(d)][i]))
extern reflect.AppendSlice@C14(d, s) (r)
  requires rt_kind(rv_type(d)) == 23 && rv_type(d) == rv_type(s)
  modifies cont
  ensures rv_type(r) == rv_type(d) && rv_len(r) == rv_len(d) + rv_len(s) && rv_valid(r) && rv_loc(r) == 0 && (sl_base(r) == sl_base(d) && sl_off(r) == sl_off(d) || fresh(sl_base(r)) && sl_off(r) == 0)
  ensures forall(i, 0, rv_len(d), E_(r, i) == old(E_(d, i))) && forall(i, 0, rv_len(s), E_(r, rv_len(d) + i) == old(E_(s, i)))
  ensures forall(b, int, trig(b < old(next()) && b != sl_base(d) ==> cont[b] == old(cont[b]), cont[b]))

# v is a slice given by a caller: its elements are of its element type
pred A_(v, j) = cont[sl_base(v)][j]
pred typed(v) = forall(j, int, trig(sl_off(v) <= j && j < sl_off(v) + rv_len(v) ==> rtypeof(A_(v, j)) == rt_elem(rv_type(v)), A_(v, j)))
pred given(a) = a != nil && rt_kind(rtypeof(a)) == 23 ==> rv_len(rv_of(a)) >= 0 && 0 < sl_base(rv_of(a)) && sl_base(rv_of(a)) < next() && typed(rv_of(a)) && rt_elem(rtypeof(a)) != nil
# a is a slice whose elements can be listed
pred listable(a) = a != nil && rt_kind(rtypeof(a)) == 23 && supported(rt_elem(rtypeof(a))) && rt_elem(rtypeof(a)) != rtype(*time.Time)
pred lelem(a) = rt_elem(rtypeof(a))
# the first n elements of v are those a held
pred normed(v, a, n) = forall(j, int, trig(sl_off(v) <= j && j < sl_off(v) + n ==> isnorm(primt(lelem(a)), old(A_(rv_of(a), j - sl_off(v) + sl_off(rv_of(a)))), A_(v, j)), A_(v, j)))
# slice v now holds what slice a held
pred holdsl(v, a) = rv_valid(v) && rv_len(v) == rv_len(rv_of(a)) && rv_type(v) == stdslice(primt(lelem(a))) && normed(v, a, rv_len(v))
pred frame_cont() = forall(b, int, trig(b < old(next()) ==> cont[b] == old(cont[b]), cont[b]))

lemma stdnorm(t string, x iface)
  prop C14
  requires t != types.Unknown && rtypeof(x) == rt_elem(stdslice(t))
  ensures isnorm(t, x, x)
  trigger isnorm(t, x, x)
func (types.Type).NilSlice@C14(t) (r)
  prop C14
  mode nolock=1
  panics !haszero(t)
  ensures[C14] type: r != nil && (t != types.Time && t != types.Duration ==> rtypeof(r) == stdslice(t))
# y is the time that pointer x points to, or zero
pred timeat(x, y) = ite(x.(*time.Time) == nil, tzero(y), y == *x.(*time.Time))
func tricorder.getPrimitiveType@C13,C14(t) (o, p, ok)
  prop C14
  mode nolock=1
  optional
  requires t != nil
  ensures ok: ok <==> supported(t)
  ensures type: ok ==> o == primt(t)
  ensures pointer: ok ==> (p <==> t == rtype(*time.Time))
func tricorder.valueToInterface@C13,C14(value, t, p) (r)
  prop C14
  mode nolock=1
  optional
  requires rv_valid(value) && supported(rv_type(value)) && t == primt(rv_type(value)) && (p <==> rv_type(value) == rtype(*time.Time))
  ensures value: !p ==> isnorm(t, cur(value), r) && r != nil
  ensures pointer: p ==> typeis(r, time.Time) && timeat(cur(value), r.(time.Time))
func tricorder.asSliceValue@C14(aSlice, m) (v, t)
  prop C14
  mode nolock=1
  optional
  requires given(aSlice)
  modifies cont
  panics !listable(aSlice)
  inv frame_cont()
  inv <i int, d ~reflect.Value> fresh(sl_base(d)) ==> normed(d, aSlice, i)
  panic_ensures[C14] untouched: frame_cont()
  ensures[C14] alive: 0 < sl_base(v) && sl_base(v) < next()
  ensures[C14] type: t == primt(lelem(aSlice)) && t != types.Unknown
  ensures[C14] elements: holdsl(v, aSlice)
  ensures[C14] isolated: m ==> fresh(sl_base(v))
  ensures[C14] others: frame_cont()

# ---- the lists themselves ----
guard[C12,C14] tricorder.listType lock: aSlice timeStamp
pred listok(l) = lockstate(l.lock) == 0 && rv_valid(l.aSlice) && rv_len(l.aSlice) >= 0 && l.subType != types.Unknown && rv_type(l.aSlice) == stdslice(l.subType) && 0 < sl_base(l.aSlice) && sl_base(l.aSlice) < next()
func tricorder.NewList@C14(aSlice, m) (l)
  prop C14
  requires given(aSlice)
  modifies cont, lastnow, chanof(idGenerator)
  panics !listable(aSlice)
  ensures[C14] new: l != nil && fresh(l) && listok(l)
  ensures[C14] type: l.subType == primt(lelem(aSlice))
  ensures[C14] elements: holdsl(l.aSlice, aSlice)
  ensures[C14] isolated: m ==> fresh(sl_base(l.aSlice))
  ensures[C14] time: l.timeStamp == lastnow
  ensures[C14] others: frame_cont()
pred kept_list(l) = l.subType == old(l.subType) && l.aSlice == old(l.aSlice) && l.timeStamp == old(l.timeStamp) && l.groupId == old(l.groupId) && lockstate(l.lock) == 0
func (*tricorder.List).Change@C14(l, aSlice, m)
  prop C14
  requires given(aSlice) && l != nil && listok(l)
  modifies *l, cont, lastnow
  panics !listable(aSlice) || primt(lelem(aSlice)) != l.subType
  panic_ensures[C14] refused: kept_list(l) && frame_cont()
  ensures[C14] type: l.subType == old(l.subType) && l.groupId == old(l.groupId)
  ensures[C14] elements: holdsl(l.aSlice, aSlice)
  ensures[C14] isolated: m ==> fresh(sl_base(l.aSlice))
  ensures[C14] time: l.timeStamp == lastnow
  ensures[C14] others: frame_cont()
  ensures[C14] list: listok(l)
  ensures[C14] once: acquired(l.lock) == old(acquired(l.lock)) + 1
func (*tricorder.listType).AsSlice@C14(l) (r, ts)
  prop C14
  optional
  requires l != nil && listok(l)
  modifies l.lock
  ensures[C14] slice: r == rv_ifc(l.aSlice)
  ensures[C14] time: ts == l.timeStamp
  ensures[C14] free: lockstate(l.lock) == 0
  ensures[C14] once: acquired(l.lock) == old(acquired(l.lock)) + 1
func (*tricorder.value).UpdateRpcMetric@C14(v, s, m)
  prop C14
  optional
  requires v != nil && m != nil && v.valType == types.List && v.alist != nil && listok(v.alist)
  modifies *m, v.alist.lock
  ensures[C14] value: m.Value == rv_ifc(v.alist.aSlice)
  ensures[C14] time: m.TimeStamp == v.alist.timeStamp
  ensures[C14] type: m.Kind == types.List && m.SubType == v.alist.subType && m.Bits == bitsof(v.alist.subType)
  ensures[C14] group: m.GroupId == v.alist.groupId
  ensures[C14] unit: m.Unit == v.unit
