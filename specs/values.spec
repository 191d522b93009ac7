# ---- the values of single variables and callbacks (C13) ----
pred callable(t) = rt_numin(t) == 0 || rt_numin(t) == 1 && rt_variadic(t)
# the type of what reading v gives: that of the variable, or of the callback's result
# (a flag's Get gives an interface; the value in it is assumed to be of one type always)
fun flagt(rv) iface
pred resultt(f) = ite(rt_kind(rt_out(rv_type(f), 0)) == 20, flagt(f), rt_out(rv_type(f), 0))
pred readt(v) = ite(v.isfunc, resultt(v.val), rv_type(v.val))
def readable(isf bool, ptr bool, t string, f rv) bool = rv_valid(f) && ite(isf, rt_kind(rv_type(f)) == 19 && !rv_nil(f) && callable(rv_type(f)) && rt_numout(rv_type(f)) == 1, rv_loc(f) != 0)
  && supported(ite(isf, resultt(f), rv_type(f))) && t == primt(ite(isf, resultt(f), rv_type(f))) && (ptr <==> ite(isf, resultt(f), rv_type(f)) == rtype(*time.Time))
pred ready(v) = readable(v.isfunc, v.isValAPointer, v.valType, v.val)
extern (reflect.Value).Call@C13(v, in) (out)
  requires rv_valid(v) && rt_kind(rv_type(v)) == 19 && !rv_nil(v) && (len(in) == rt_numin(rv_type(v)) || rt_variadic(rv_type(v)) && len(in) >= rt_numin(rv_type(v)) - 1)
  modifies cont, callsum
  ensures fresh(out) && len(out) == rt_numout(rv_type(v))
  ensures forall(i, 0, len(out), callres(v, out[i]) && rv_valid(out[i]) && rv_type(out[i]) == rt_out(rv_type(v), i) && (rt_kind(rt_out(rv_type(v), i)) == 20 ==> rv_valid(rv_elem(out[i])) && rv_type(rv_elem(out[i])) == flagt(v)))
extern (reflect.Value).Elem@C13(v) (e)
  requires rv_valid(v) && (rt_kind(rv_type(v)) == 20 || rt_kind(rv_type(v)) == 22)
  ensures e == rv_elem(v) && (rt_kind(rv_type(v)) == 22 && !rv_nil(v) ==> rv_valid(e) && rv_type(e) == rt_elem(rv_type(v)) && rv_loc(e) != 0)
extern (reflect.Value).IsNil@C13(v) (b)
  requires rv_valid(v) && (rt_kind(rv_type(v)) == 19 || rt_kind(rv_type(v)) == 22)
  ensures b == rv_nil(v)
extern (reflect.Type).NumOut@C13(t) (n)
  requires rt_kind(t) == 19
  ensures n == rt_numout(t) && n >= 0
extern (reflect.Type).NumIn@C13(t) (n)
  requires rt_kind(t) == 19
  ensures n == rt_numin(t) && n >= 0
extern (reflect.Type).IsVariadic@C13(t) (b)
  requires rt_kind(t) == 19
  ensures b == rt_variadic(t)
extern (reflect.Type).Out@C13(t, i) (o)
  requires rt_kind(t) == 19 && 0 <= i && i < rt_numout(t)
  ensures o == rt_out(t, i) && o != nil

# y is the value x as the documented Go type
pred isval(v, x, y) = ite(v.isValAPointer, typeis(y, time.Time) && timeat(x, y.(time.Time)), isnorm(v.valType, x, y))
# r is what reading v gives
pred given13(v, r) = ite(v.isfunc, exists(q, rv, trig(callres(v.val, q) && r == ite(rt_kind(rt_out(rv_type(v.val), 0)) == 20, rv_elem(q), q), callres(v.val, q))), r == v.val)
# while a group is first visited its update function may change any variable
func (*tricorder.session).Visit@C13(s, r) (t)
  prop C13
  optional
  requires sess(s) && r != nil
  modifies mapof(s.visitedRegions), anychan(), cont
  ensures visited: vis(s, ref(r))
  ensures session: sess(s) && grows(s)
  ensures again: old(vis(s, ref(r))) ==> cont == old(cont)
func (*tricorder.value).evaluate@C13(v, s) (r)
  prop C13
  optional
  requires v != nil && sess(s) && ready(v)
  modifies mapof(s.visitedRegions), anychan(), callsum, cont
  ensures value: given13(v, r)
  ensures type: rv_valid(r) && rv_type(r) == readt(v)
  ensures session: sess(s) && grows(s) && (v.region != nil ==> vis(s, ref(v.region)))
func (*tricorder.value).AsInterface@C13(v, s) (r)
  prop C13
  optional
  requires v != nil && sess(s) && ready(v)
  modifies mapof(s.visitedRegions), anychan(), callsum, cont
  ensures value: exists(e, rv, given13(v, e) && isval(v, cur(e), r))
  ensures session: sess(s) && grows(s) && (v.region != nil ==> vis(s, ref(v.region)))
pred reportable(v) = v != nil && (v.valType == types.Dist ==> v.dist != nil && based(v.dist) && distok(v.dist) && lockstate(v.dist.lock) == 0)
    && (v.valType == types.List ==> v.alist != nil && listok(v.alist))
    && (v.valType != types.Dist && v.valType != types.List ==> v.region != nil && ready(v))
pred onevalue(v) = v.valType != types.Dist && v.valType != types.List
# (C05 proves this of Snapshot)
trusted (*tricorder.distribution).Snapshot@C13(d) (r)
  prop C13
  requires based(d) && distok(d) && lockstate(d.lock) == 0
  modifies d.lock
  ensures r != nil && fresh(r) && off(r.Breakdown) == 0 && lockstate(d.lock) == 0
  ensures len(r.Breakdown) == len(d.pieces) && forall(i, 0, len(d.pieces), r.Breakdown[i].bucketPiece == d.pieces[i])
# m reports v
pred reports(m, v) = m.Kind == v.valType && m.SubType == ite(v.valType == types.List, v.alist.subType, types.Unknown) && m.Bits == ite(v.valType == types.List, bitsof(v.alist.subType), bitsof(v.valType)) && m.Unit == v.unit
func (*tricorder.value).UpdateRpcMetric@C13(v, s, m)
  prop C13
  optional
  mode float=uf
  requires m != nil && sess(s) && reportable(v)
  modifies *m, v.dist.lock, v.alist.lock, mapof(s.visitedRegions), anychan(), callsum, cont
  ensures kind: reports(m, v)
  ensures dist: v.valType == types.Dist ==> typeis(m.Value, *messages.Distribution)
  ensures list: v.valType == types.List ==> m.Value == rv_ifc(v.alist.aSlice)
  ensures value: onevalue(v) ==> exists(e, rv, given13(v, e) && isval(v, cur(e), m.Value))
  ensures rest: m.Path == old(m.Path) && m.Description == old(m.Description)
func (*tricorder.metric).InitRpcMetric@C13(m, s, r)
  prop C13
  optional
  mode float=uf
  requires m != nil && r != nil && sess(s) && reportable(m.value)
  modifies *r, m.value.dist.lock, m.value.alist.lock, mapof(s.visitedRegions), anychan(), callsum, cont
  ensures kind: reports(r, m.value)
  ensures path: r.Path == mpath(ref(m)) && r.Description == m.Description
  ensures dist: m.value.valType == types.Dist ==> typeis(r.Value, *messages.Distribution)
  ensures list: m.value.valType == types.List ==> r.Value == rv_ifc(m.value.alist.aSlice)
  ensures value: onevalue(m.value) ==> exists(e, rv, given13(m.value, e) && isval(m.value, cur(e), r.Value))

# ---- registration ----
pred isdistp(x) = typeis(x, *tricorder.NonCumulativeDistribution) || typeis(x, *tricorder.CumulativeDistribution) || typeis(x, *tricorder.distribution)
pred islistp(x) = typeis(x, *tricorder.List) || typeis(x, *tricorder.listType)
pred distp(x) = ite(typeis(x, *tricorder.NonCumulativeDistribution), ref(x.(*tricorder.NonCumulativeDistribution)), ite(typeis(x, *tricorder.CumulativeDistribution), ref(x.(*tricorder.CumulativeDistribution)), ref(x.(*tricorder.distribution))))
pred listp(x) = ite(typeis(x, *tricorder.List), ref(x.(*tricorder.List)), ref(x.(*tricorder.listType)))
# the type of the value behind a variable or callback
pred behind(x) = ite(rt_kind(rtypeof(x)) == 19, rt_out(rtypeof(x), 0), rt_elem(rtypeof(x)))
pred regable(x) = x != nil && !rv_nil(rv_of(x)) && (rt_kind(rtypeof(x)) == 19 && callable(rtypeof(x)) && rt_numout(rtypeof(x)) == 1 || rt_kind(rtypeof(x)) == 22) && supported(behind(x))
pred plain(x) = !isdistp(x) && !islistp(x) && !implements(x, flag.Value)
extern (flag.Getter).Get@C13(g) (r)
extern (flag.Value).String@C13(g) (r)
func tricorder.newValue@C13(spec, region, unit) (v, err)
  prop C13
  optional
  requires wf_dunlocked() && (isdistp(spec) ==> distp(spec) != 0)
  modifies any(tricorder.distribution.unit), any(tricorder.distribution.unitSet), any(tricorder.distribution.lock)
  ensures unlocked: wf_dunlocked()
  ensures refused: plain(spec) && !regable(spec) ==> v == nil && err == old(ErrWrongType)
  ensures accepted: plain(spec) && regable(spec) ==> err == nil && v != nil && fresh(v) && ready(v)
  ensures type: plain(spec) && regable(spec) ==> v.valType == primt(behind(spec)) && readt(v) == behind(spec)
  ensures what: plain(spec) && regable(spec) ==> (v.isfunc <==> rt_kind(rtypeof(spec)) == 19) && v.val == ite(v.isfunc, rv_of(spec), rv_elem(rv_of(spec)))
  ensures region: plain(spec) && regable(spec) ==> v.region == region
  ensures unit: err == nil ==> v != nil && v.unit == unit
  ensures dist: isdistp(spec) && err == nil ==> v.valType == types.Dist && ref(v.dist) == distp(spec)
  ensures list: islistp(spec) ==> err == nil && v.valType == types.List && ref(v.alist) == listp(spec)
  ensures flag: !isdistp(spec) && !islistp(spec) && implements(spec, flag.Value) ==> err == nil && hasgo(v.valType) && v.isfunc && v.region == region
# what registration stores
pred stored13(d, path) = lmet(ch(at(d, path, len(path)-1), path[len(path)-1]))
pred storedv(d, path) = hp(tricorder.metric.value)[stored13(d, path)]
func (*tricorder.directory).registerMetric@C13(d, path, value, region, unit, description) (err)
  prop C13
  optional
  requires d != nil && isdir(d) && wf() && wf_unlocked()
  requires wf_dunlocked() && (isdistp(value) ==> distp(value) != 0) && ErrWrongType != nil && ErrPathInUse != nil
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet), any(tricorder.distribution.lock)
  ensures invariant: wf() && wf_unlocked() && wf_dunlocked()
  ensures unsupported: plain(value) && !regable(value) ==> err != nil && (err == old(ErrWrongType) || err == old(ErrPathInUse))
  ensures not_registered: err != nil ==> onlydirs()
  ensures registered: err == nil ==> stored13(d, path) != 0 && storedv(d, path) != 0
  ensures described: err == nil ==> hp(tricorder.metric.Description)[stored13(d, path)] == description
  ensures unit: err == nil ==> hp(tricorder.value.unit)[storedv(d, path)] == unit
  ensures type: err == nil && plain(value) ==> hp(tricorder.value.valType)[storedv(d, path)] == primt(behind(value))
  ensures region: err == nil && plain(value) ==> hp(tricorder.value.region)[storedv(d, path)] == ref(region)
  ensures what: err == nil && plain(value) ==> (hp(tricorder.value.isfunc)[storedv(d, path)] <==> rt_kind(rtypeof(value)) == 19) && hp(tricorder.value.val)[storedv(d, path)] == ite(rt_kind(rtypeof(value)) == 19, rv_of(value), rv_elem(rv_of(value)))
  ensures pointer: err == nil && plain(value) ==> (hp(tricorder.value.isValAPointer)[storedv(d, path)] <==> behind(value) == rtype(*time.Time))
  ensures dist: err == nil && isdistp(value) ==> hp(tricorder.value.valType)[storedv(d, path)] == types.Dist && hp(tricorder.value.dist)[storedv(d, path)] == distp(value)
  ensures list: err == nil && islistp(value) ==> hp(tricorder.value.valType)[storedv(d, path)] == types.List && hp(tricorder.value.alist)[storedv(d, path)] == listp(value)
