# ---- bucketers (C08) ----
lemma add_up(x float, y float)
  mode float=fp use=uf
  trigger x + y
  requires !isnan(x) && !isnan(y) && y > 0.0 && (!isinf(x) || x > 0.0)
  ensures !isnan(x + y) && x + y >= x && (!isinf(x + y) || x + y > 0.0)
lemma mul_up(x float, y float)
  mode float=fp use=uf
  trigger x * y
  requires x > 0.0 && y > 1.0
  ensures !isnan(x * y) && x * y >= x

pred gapless(ps, n) = len(ps) == n && n >= 2 && off(ps) == 0
  && forall(i, 0, n, ps[i] != nil && ps[i].First == (i == 0) && ps[i].Last == (i == n-1))
  && forall(i, 1, n, same(ps[i].Start, ps[i-1].End))
pred ends(ps, ep) = forall(i, 0, len(ep), same(ps[i].End, old(ep[i])))
pred ascending(ps) = forall(i, 0, len(ps)-1, !isnan(ps[i].End)) && forall(i, 0, len(ps)-2, ps[i].End <= ps[i+1].End)
pred linear(ps, start, inc) = same(ps[0].End, start) && forall(i, 1, len(ps)-1, same(ps[i].End, ps[i-1].End + inc))
pred exponential(ps, start, scale) = same(ps[0].End, start) && forall(i, 1, len(ps)-1, same(ps[i].End, ps[i-1].End * scale))

func tricorder.newBucketerFromEndpoints(endpoints) b
  prop C08
  optional
  mode float=uf
  requires off(endpoints) == 0
  panics len(endpoints) == 0
  inv <ps []*bucketPiece, lower float64, k int> off(ps) == 0 && len(ps) == k+2 && k+1 < len(endpoints) && same(lower, endpoints[k+1]) && forall(i, 0, len(ps), ps[i] != nil && fresh(ps[i]) && allocated(ps[i]) && ps[i].First == (i == 0) && !ps[i].Last && same(ps[i].End, endpoints[i])) && forall(i, 1, len(ps), same(ps[i].Start, endpoints[i-1]))
  inv <ps []*bucketPiece, lower float64, k int> off(ps) == 0 && len(ps) == k+1 && k < len(endpoints) && same(lower, endpoints[k]) && forall(i, 0, len(ps), ps[i] != nil && fresh(ps[i]) && allocated(ps[i]) && ps[i].First == (i == 0) && !ps[i].Last && same(ps[i].End, endpoints[i])) && forall(i, 1, len(ps), same(ps[i].Start, endpoints[i-1]))
  inv <ps ~[]*bucketPiece, k int> off(ps) == 0 && len(ps) == len(endpoints)+1 && 1 <= k && k <= len(endpoints) && forall(i, 0, k, ps[i] != nil && fresh(ps[i]) && allocated(ps[i]) && ps[i].First == (i == 0) && !ps[i].Last && same(ps[i].End, endpoints[i])) && forall(i, 1, k, same(ps[i].Start, endpoints[i-1]))
  ensures[C08] new: b != nil && fresh(b)
  ensures[C08] partition: gapless(b.pieces, len(endpoints)+1)
  ensures[C08] endpoints: ends(b.pieces, endpoints)

func tricorder.NewArbitraryBucketer(endpoints) b
  prop C08
  mode float=uf
  requires off(endpoints) == 0
  panics len(endpoints) == 0
  ensures[C08] partition: gapless(b.pieces, len(endpoints)+1)
  ensures[C08] endpoints: ends(b.pieces, endpoints)

func tricorder.NewLinearBucketer(count, start, increment) b
  prop C08
  mode float=uf
  requires !isnan(start) && !isinf(start) && !isnan(increment)
  panics count < 2 || increment <= 0.0
  inv <r ~[]float64, c float64, i int> i >= 0 && len(r) == count-1 && !isnan(c) && (!isinf(c) || c > 0.0) && (i == 0 ==> same(c, start)) && (i > 0 ==> same(r[0], start) && same(c, r[i-1] + increment) && r[i-1] <= c) && forall(j, 1, i, same(r[j], r[j-1] + increment) && r[j-1] <= r[j]) && forall(j, 0, i, !isnan(r[j]))
  ensures[C08] partition: gapless(b.pieces, count)
  ensures[C08] endpoints: linear(b.pieces, start, increment)
  ensures[C08] order: ascending(b.pieces)
func tricorder.NewExponentialBucketer(count, start, scale) b
  prop C08
  mode float=uf
  requires !isnan(start) && !isnan(scale)
  panics count < 2 || start <= 0.0 || scale <= 1.0
  inv <r ~[]float64, c float64, i int> i >= 0 && len(r) == count-1 && c > 0.0 && (i == 0 ==> same(c, start)) && (i > 0 ==> same(r[0], start) && same(c, r[i-1] * scale) && r[i-1] <= c) && forall(j, 1, i, same(r[j], r[j-1] * scale) && r[j-1] <= r[j]) && forall(j, 0, i, !isnan(r[j]))
  ensures[C08] partition: gapless(b.pieces, count)
  ensures[C08] endpoints: exponential(b.pieces, start, scale)
  ensures[C08] order: ascending(b.pieces)

# ---- geometric bucketers: machine floats treated as reals ----
# p10(x): x is a power of ten
fun p10(real) bool
axiom p10(1.0)
axiom forall(x, real, p10(x) ==> x > 0.0)
axiom forall(x, real, forall(y, real, p10(x) && p10(y) == false ==> y != 10.0*x && x != 10.0*y))
pred nextstep(e, f) = p10(e) && f == 2.0*e || p10(e/2.0) && f == 2.5*e || p10(e/5.0) && f == 2.0*e
pred geolow(e, lower) = e <= lower && (p10(e) && lower < 2.0*e || p10(e/2.0) && lower < 2.5*e || p10(e/5.0) && lower < 2.0*e)
func tricorder.findGeometricBaseAndOffset(v) (base, o)
  prop C08
  optional
  mode float=real
  requires v > 0.0
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == v && x > 0.0
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == v && x > 0.0 && x < 10.0
  ensures[C08] p10(base) && 0 <= o && o < 3
  ensures[C08] (o == 0 ==> base <= v && v < 2.0*base) && (o == 1 ==> 2.0*base <= v && v < 5.0*base) && (o == 2 ==> 5.0*base <= v && v < 10.0*base)
func tricorder.newGeometricBucketerStream(lower, upper) r
  prop C08
  optional
  mode float=real
  panics lower <= 0.0 || upper < lower
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == lower && x > 0.0
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == lower && x > 0.0 && x < 10.0
  inv <r []float64, e float64, base float64, o int> 0 <= o && o < 3 && p10(base) && base > 0.0 && e == ite(o == 0, base, ite(o == 1, 2.0*base, 5.0*base)) && off(r) == 0 && (len(r) == 0 ==> geolow(e, lower)) && (len(r) > 0 ==> geolow(r[0], lower) && nextstep(r[len(r)-1], e)) && forall(i, 1, len(r), nextstep(r[i-1], r[i])) && forall(i, 0, len(r), r[i] < upper)
  ensures[C08] off(r) == 0 && len(r) > 0
  ensures[C08] geolow(r[0], lower)
  ensures[C08] forall(i, 1, len(r), nextstep(r[i-1], r[i]))
  ensures[C08] upper <= r[len(r)-1] && forall(i, 0, len(r)-1, r[i] < upper)
func tricorder.NewGeometricBucketer(lower, upper) b
  prop C08
  mode float=real
  panics lower <= 0.0 || upper < lower
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == lower && x > 0.0
  inv <x float64, base float64> base > 0.0 && p10(base) && x*base == lower && x > 0.0 && x < 10.0
  inv <r []float64, e float64, base float64, o int> 0 <= o && o < 3 && p10(base) && base > 0.0 && e == ite(o == 0, base, ite(o == 1, 2.0*base, 5.0*base)) && off(r) == 0 && (len(r) == 0 ==> geolow(e, lower)) && (len(r) > 0 ==> geolow(r[0], lower) && nextstep(r[len(r)-1], e)) && forall(i, 1, len(r), nextstep(r[i-1], r[i])) && forall(i, 0, len(r), r[i] < upper)
  ensures[C08] partition: gapless(b.pieces, len(b.pieces))
  ensures[C08] first: geolow(b.pieces[0].End, lower)
  ensures[C08] steps: forall(i, 1, len(b.pieces)-1, nextstep(b.pieces[i-1].End, b.pieces[i].End))
  ensures[C08] last: upper <= b.pieces[len(b.pieces)-2].End && forall(i, 0, len(b.pieces)-2, b.pieces[i].End < upper)
