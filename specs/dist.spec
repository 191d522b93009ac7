# ---- distributions: C05, C06, C07, C09, C12 ----

# csum(a, o, n): a[o] + ... + a[o+n-1]
def csum(a arr(int), o int, n int) int = ite(n <= 0, 0, csum(a, o, n-1) + a[o+n-1])
def nonneg(a arr(int), o int, n int) bool = forall(i, o, o+n, 0 <= a[i])
lemma csum_store(a arr(int), o int, n int, j int, v int)
  induction n
  trigger csum(store(a, j, v), o, n)
  ensures csum(store(a, j, v), o, n) == csum(a, o, n) + ite(o <= j && j < o+n, v - a[j], 0)
def allzero(a arr(int), o int, n int) bool = forall(i, o, o+n, a[i] == 0)
lemma csum_zero(a arr(int), o int, n int)
  induction n
  trigger allzero(a, o, n)
  requires allzero(a, o, n)
  ensures csum(a, o, n) == 0
lemma csum_part(a arr(int), o int, n int, j int)
  induction n
  trigger csum(a, o, n), a[j]
  requires nonneg(a, o, n)
  ensures 0 <= csum(a, o, n)
  ensures o <= j && j < o+n ==> a[j] <= csum(a, o, n)
lemma csum_step(a arr(int), o int, n int, j int, k int)
  mode float=real
  induction k
  trigger csum(a, o, j), csum(a, o, k), nonneg(a, o, n)
  requires nonneg(a, o, n)
  ensures 0 <= j && j < k && k <= n ==> csum(a, o, j) + a[o+j] <= csum(a, o, k)

# ps: pieces of a bucketer whose endpoints ascend
pred piecesok(ps) = len(ps) >= 2 && forall(i, 0, len(ps), ps[i] != nil)
  && forall(i, 0, len(ps)-1, !isnan(ps[i].End))
  && forall(i, 1, len(ps), ps[i].Start == ps[i-1].End)
  && forall(i, 0, len(ps)-1, forall(j, i, len(ps)-1, ps[i].End <= ps[j].End))
pred contains(ps, i, v) = (i == 0 || ps[i].Start <= v) && (i == len(ps)-1 || v < ps[i].End)
pred total(d) = csum(elems(d.counts), off(d.counts), len(d.counts))
pred distok(d) = piecesok(d.pieces) && len(d.counts) == len(d.pieces) && total(d) == d.count
  && nonneg(elems(d.counts), off(d.counts), len(d.counts))
  && (d.count > 0 ==> d.min <= d.max)
pred based(d) = off(d.pieces) == 0 && off(d.counts) == 0
# every bucket that holds values reaches into [min, max]
pred spread(d) = forall(i, 0, len(d.counts), d.counts[i] > 0 ==> (i == 0 || d.pieces[i].Start <= d.max) && (i == len(d.counts)-1 || d.min <= d.pieces[i].End))
pred room(d) = d.count < 9223372036854775807

pred dkept(d) = d.isNotCumulative == old(d.isNotCumulative) && d.groupId == old(d.groupId) && d.unit == old(d.unit) && d.unitSet == old(d.unitSet)
  && same(d.pieces, old(d.pieces)) && same(d.counts, old(d.counts))

pred timeunit(u) = u == units.Second || u == units.Millisecond
pred accepted(d, v) = d.unitSet && (typeis(v, float64) || typeis(v, float32) || typeis(v, time.Duration) && timeunit(d.unit))
pred num(d, v) = ite(typeis(v, float64), v.(float64), ite(typeis(v, float32), float64(v.(float32)),
   ite(d.unit == units.Second, float64(v.(time.Duration)) / float64(time.Second), float64(v.(time.Duration)) / float64(time.Millisecond))))
pred isnum(d, v) = accepted(d, v) ==> !isnan(num(d, v))
pred lo(x, m) = ite(x < m, x, m)
pred hi(x, m) = ite(x > m, x, m)

pred counted(d, x) = forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]) + ite(contains(d.pieces, i, x), 1, 0))
pred moved(d, x, y) = forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]) - ite(contains(d.pieces, i, x), 1, 0) + ite(contains(d.pieces, i, y), 1, 0))
pred dremoved(d, x) = forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]) - ite(contains(d.pieces, i, x), 1, 0))
pred gone(d, x) = forall(i, 0, len(d.counts), contains(d.pieces, i, x) ==> d.counts[i] == 0)

pred before(ps, i, v) = i == 0 || !(v < ps[i-1].End)
pred upto(ps, i, v) = i == len(ps)-1 || v < ps[i].End
func tricorder.findDistributionIndex(pieces, value) r
  prop C05 C06 C07 C09
  optional
  mode float=uf
  requires off(pieces) == 0 && len(pieces) >= 1 && forall(i, 0, len(pieces), pieces[i] != nil)
  inv <a int, b int> 0 <= a && a <= b && b <= len(pieces)-1 && before(pieces, a, value) && upto(pieces, b, value)
  inv <a int> 0 <= a && a <= len(pieces)-1 && before(pieces, a, value)
  inv <a int> 0 <= a+1 && a+1 <= len(pieces)-1 && before(pieces, a+1, value)
  ensures[C05,C06,C07,C09] bucket: 0 <= r && r < len(pieces) && before(pieces, r, value) && upto(pieces, r, value)

func (*tricorder.distribution).AddWithTs(d, value, ts)
  prop C05 C06 C07 C09
  optional
  mode float=uf
  requires based(d)
  requires distok(d) && room(d) && isnum(d, value)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts)
  panics !accepted(d, value)
  panic_ensures[C05] refused-kept: forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures based: based(d)
  panic_ensures[C05,C06] refused-kept-count: d.count == old(d.count)
  panic_ensures[C05,C06,C07] refused-consistent: distok(d)
  panic_ensures[C07] refused-spread: spread(d)
  panic_ensures[C06] refused-kept-stats: same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max)) && d.generation == old(d.generation) && d.timeStamp == old(d.timeStamp)
  ensures based: based(d)
  ensures fixed: dkept(d)
  panic_ensures fixed: dkept(d)
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  ensures[C05] counted: counted(d, old(num(d, value)))
  ensures[C06] count: d.count == old(d.count) + 1
  ensures[C06,C09] sum: same(d.total, old(d.total) + old(num(d, value)))
  ensures[C06] min: same(d.min, ite(old(d.count) == 0, old(num(d, value)), lo(old(num(d, value)), old(d.min))))
  ensures[C06] max: same(d.max, ite(old(d.count) == 0, old(num(d, value)), hi(old(num(d, value)), old(d.max))))
  ensures[C06] generation: d.generation == wrap(old(d.generation) + 1, uint64)
  ensures[C06] timestamp: d.timeStamp == ts

func (*tricorder.distribution).UpdateWithTs(d, oldValue, newValue, ts)
  prop C05 C06 C07 C09
  optional
  mode float=uf
  requires based(d)
  requires distok(d) && isnum(d, oldValue) && isnum(d, newValue)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts)
  panics !accepted(d, oldValue) || !accepted(d, newValue) || !d.isNotCumulative || d.count == 0 || gone(d, num(d, oldValue))
  panic_ensures[C05] refused-kept: forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures based: based(d)
  panic_ensures[C05,C06] refused-kept-count: d.count == old(d.count)
  panic_ensures[C05,C06,C07] refused-consistent: distok(d)
  panic_ensures[C07] refused-spread: spread(d)
  panic_ensures[C06] refused-kept-stats: same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max)) && d.generation == old(d.generation) && d.timeStamp == old(d.timeStamp)
  ensures based: based(d)
  ensures fixed: dkept(d)
  panic_ensures fixed: dkept(d)
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  ensures[C05] moved: moved(d, old(num(d, oldValue)), old(num(d, newValue)))
  ensures[C06] count: d.count == old(d.count)
  ensures[C06,C09] sum: same(d.total, old(d.total) + (old(num(d, newValue)) - old(num(d, oldValue))))
  ensures[C06] min: same(d.min, lo(old(num(d, newValue)), old(d.min)))
  ensures[C06] max: same(d.max, hi(old(num(d, newValue)), old(d.max)))
  ensures[C06] generation: d.generation == wrap(old(d.generation) + 1, uint64)
  ensures[C06] timestamp: d.timeStamp == ts

func (*tricorder.distribution).RemoveWithTs(d, value, ts)
  prop C05 C06 C07 C09
  optional
  mode float=uf
  requires based(d)
  requires distok(d) && isnum(d, value)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts)
  panics !accepted(d, value) || !d.isNotCumulative || d.count == 0 || gone(d, num(d, value))
  panic_ensures[C05] refused-kept: forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures based: based(d)
  panic_ensures[C05,C06] refused-kept-count: d.count == old(d.count)
  panic_ensures[C05,C06,C07] refused-consistent: distok(d)
  panic_ensures[C07] refused-spread: spread(d)
  panic_ensures[C06] refused-kept-stats: same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max)) && d.generation == old(d.generation) && d.timeStamp == old(d.timeStamp)
  ensures based: based(d)
  ensures fixed: dkept(d)
  panic_ensures fixed: dkept(d)
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  ensures[C05] removed: dremoved(d, old(num(d, value)))
  ensures[C06] count: d.count == old(d.count) - 1
  ensures[C06,C09] sum: same(d.total, old(d.total) - old(num(d, value)))
  ensures[C06] min: same(d.min, old(d.min))
  ensures[C06] max: same(d.max, old(d.max))
  ensures[C06] generation: d.generation == wrap(old(d.generation) + 1, uint64)
  ensures[C06] timestamp: d.timeStamp == ts

func (*tricorder.distribution).SetUnit(d, unit) ok
  prop C05 C06 C09
  optional
  requires lockstate(d.lock) == 0
  modifies d.unit, d.unitSet, d.lock
  ensures[C09] first: !old(d.unitSet) ==> ok && d.unitSet && d.unit == unit
  ensures[C09] again: old(d.unitSet) ==> d.unitSet && d.unit == old(d.unit) && ok == (unit == old(d.unit))

func (*tricorder.distribution).Sum(d) r
  prop C06
  optional
  mode float=uf
  requires lockstate(d.lock) == 0
  modifies d.lock
  ensures[C06] sum: same(r, d.total)
func (*tricorder.distribution).Count(d) r
  prop C06
  optional
  mode float=uf
  requires lockstate(d.lock) == 0
  modifies d.lock
  ensures[C06] count: r == d.count

func (*tricorder.distribution).indexToValue(d, valueIdx) r
  prop C05 C06
  optional
  mode float=uf
  requires based(d)
  requires distok(d) && valueIdx < d.count
  requires lockstate(d.lock) != 0
  inv <p int, s uint64> 0 <= p && p < len(d.counts) && s == csum(elems(d.counts), 0, p) && s <= valueIdx
  inv <p int, v uint64> 0 <= p && p < len(d.counts) && v == valueIdx - csum(elems(d.counts), 0, p)
  ensures[C05,C06] safe: true

func (*tricorder.distribution).Snapshot(d) r
  prop C05 C06
  optional
  mode float=uf
  requires based(d)
  requires distok(d)
  requires lockstate(d.lock) == 0
  modifies d.lock
  inv <p int, s uint64> 0 <= p && p < len(d.counts) && s == csum(elems(d.counts), 0, p)
  inv <p int, b ~breakdown> forall(j, 0, p, b[j].bucketPiece == d.pieces[j])
  inv <p int, b ~breakdown> forall(j, 0, p+1, b[j].bucketPiece == d.pieces[j])
  inv <b ~breakdown> forall(j, 0, len(b), b[j].bucketPiece == d.pieces[j])
  inv <p int, b ~breakdown> forall(j, 0, p, b[j].Count == d.counts[j])
  inv <p int, b ~breakdown> forall(j, 0, p+1, b[j].Count == d.counts[j])
  ensures fresh: r != nil && fresh(r)
  ensures based: off(r.Breakdown) == 0
  ensures[C05,C06] buckets: len(r.Breakdown) == len(d.pieces) && forall(i, 0, len(d.pieces), r.Breakdown[i].bucketPiece == d.pieces[i] && r.Breakdown[i].Count == d.counts[i])
  ensures[C05,C06] count: r.Count == d.count
  ensures[C06] generation: r.Generation == d.generation
  ensures[C06] flag: r.IsNotCumulative == d.isNotCumulative
  ensures[C06] timestamp: r.TimeStamp == d.timeStamp
  ensures[C06] stats: d.count > 0 ==> same(r.Min, d.min) && same(r.Max, d.max) && same(r.Sum, d.total) && same(r.Average, d.total / float64(d.count))
  ensures[C06] empty: d.count == 0 ==> same(r.Min, 0.0) && same(r.Max, 0.0) && same(r.Average, 0.0)

func (*tricorder.CumulativeDistribution).Add(d, value)
  prop C05 C06 C07 C09
  mode float=uf
  requires based(d)
  requires distok(d) && room(d) && isnum(d, value)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts), lastnow
  panics[C05,C06,C09] !accepted(d, value)
  maypanic
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  panic_ensures[C07] refused: distok(d) && spread(d)
  ensures[C05] counted: counted(d, old(num(d, value)))
  ensures[C06] stats: d.count == old(d.count) + 1 && d.generation == wrap(old(d.generation) + 1, uint64) && d.timeStamp == lastnow
  ensures[C06,C09] sum: same(d.total, old(d.total) + old(num(d, value)))
  ensures[C06] min: same(d.min, ite(old(d.count) == 0, old(num(d, value)), lo(old(num(d, value)), old(d.min))))
  ensures[C06] max: same(d.max, ite(old(d.count) == 0, old(num(d, value)), hi(old(num(d, value)), old(d.max))))
  ensures fixed: dkept(d)
  panic_ensures[C05] refused-counts: distok(d) && d.count == old(d.count) && forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures[C06] refused: distok(d) && d.count == old(d.count) && d.generation == old(d.generation) && same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max))
  panic_ensures fixed: dkept(d)

func (*tricorder.NonCumulativeDistribution).Add(d, value)
  prop C05 C06 C07 C09
  mode float=uf
  requires based(d)
  requires distok(d) && room(d) && isnum(d, value)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts), lastnow
  panics[C05,C06,C09] !accepted(d, value)
  maypanic
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  panic_ensures[C07] refused: distok(d) && spread(d)
  ensures[C05] counted: counted(d, old(num(d, value)))
  ensures[C06] stats: d.count == old(d.count) + 1 && d.generation == wrap(old(d.generation) + 1, uint64) && d.timeStamp == lastnow
  ensures[C06,C09] sum: same(d.total, old(d.total) + old(num(d, value)))
  ensures[C06] min: same(d.min, ite(old(d.count) == 0, old(num(d, value)), lo(old(num(d, value)), old(d.min))))
  ensures[C06] max: same(d.max, ite(old(d.count) == 0, old(num(d, value)), hi(old(num(d, value)), old(d.max))))
  ensures fixed: dkept(d)
  panic_ensures[C05] refused-counts: distok(d) && d.count == old(d.count) && forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures[C06] refused: distok(d) && d.count == old(d.count) && d.generation == old(d.generation) && same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max))
  panic_ensures fixed: dkept(d)

func (*tricorder.NonCumulativeDistribution).Update(d, oldValue, newValue)
  prop C05 C06 C07 C09
  mode float=uf
  requires based(d)
  requires distok(d) && isnum(d, oldValue) && isnum(d, newValue)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts), lastnow
  panics[C05,C06,C09] !accepted(d, oldValue) || !accepted(d, newValue) || !d.isNotCumulative || d.count == 0 || gone(d, num(d, oldValue))
  maypanic
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  panic_ensures[C07] refused: distok(d) && spread(d)
  ensures[C05] moved: moved(d, old(num(d, oldValue)), old(num(d, newValue)))
  ensures[C06] stats: d.count == old(d.count) && d.generation == wrap(old(d.generation) + 1, uint64) && d.timeStamp == lastnow
  ensures[C06,C09] sum: same(d.total, old(d.total) + (old(num(d, newValue)) - old(num(d, oldValue))))
  ensures[C06] min: same(d.min, lo(old(num(d, newValue)), old(d.min)))
  ensures[C06] max: same(d.max, hi(old(num(d, newValue)), old(d.max)))
  ensures fixed: dkept(d)
  panic_ensures[C05] refused-counts: distok(d) && d.count == old(d.count) && forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures[C06] refused: distok(d) && d.count == old(d.count) && d.generation == old(d.generation) && same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max))
  panic_ensures fixed: dkept(d)

func (*tricorder.NonCumulativeDistribution).Remove(d, value)
  prop C05 C06 C07 C09
  mode float=uf
  requires based(d)
  requires distok(d) && isnum(d, value)
  requires[C07] spread(d)
  requires lockstate(d.lock) == 0
  modifies *d, elems(d.counts), lastnow
  panics[C05,C06,C09] !accepted(d, value) || !d.isNotCumulative || d.count == 0 || gone(d, num(d, value))
  maypanic
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
  panic_ensures[C07] refused: distok(d) && spread(d)
  ensures[C05] removed: dremoved(d, old(num(d, value)))
  ensures[C06] stats: d.count == old(d.count) - 1 && d.generation == wrap(old(d.generation) + 1, uint64) && d.timeStamp == lastnow
  ensures[C06,C09] sum: same(d.total, old(d.total) - old(num(d, value)))
  ensures[C06] minmax: same(d.min, old(d.min)) && same(d.max, old(d.max))
  ensures fixed: dkept(d)
  panic_ensures[C05] refused-counts: distok(d) && d.count == old(d.count) && forall(i, 0, len(d.counts), d.counts[i] == old(d.counts[i]))
  panic_ensures[C06] refused: distok(d) && d.count == old(d.count) && d.generation == old(d.generation) && same(d.total, old(d.total)) && same(d.min, old(d.min)) && same(d.max, old(d.max))
  panic_ensures fixed: dkept(d)

func (*tricorder.NonCumulativeDistribution).Sum(d) r
  mode float=uf
  requires lockstate(d.lock) == 0
  modifies d.lock
  ensures[C06] sum: same(r, d.total)
func (*tricorder.NonCumulativeDistribution).Count(d) r
  mode float=uf
  requires lockstate(d.lock) == 0
  modifies d.lock
  ensures[C06] count: r == d.count

pred newdist(d, b) = based(d) && same(d.pieces, b.pieces) && len(d.counts) == len(b.pieces) && forall(i, 0, len(d.counts), d.counts[i] == 0) && d.count == 0 && d.generation == 0 && !d.unitSet && d.timeStamp == lastnow && lockstate(d.lock) == 0

func (*tricorder.Bucketer).NewCumulativeDistribution(b) d
  prop C05 C06 C09
  mode float=uf
  requires b != nil && off(b.pieces) == 0 && piecesok(b.pieces)
  modifies lastnow, chanof(idGenerator)
  ensures fresh: d != nil && fresh(d)
  ensures[C05,C06,C07] zero: off(d.counts) == 0 && allzero(elems(d.counts), 0, len(d.counts))
  ensures[C05,C06,C07,C09] empty: newdist(d, b) && !d.isNotCumulative
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)
func (*tricorder.Bucketer).NewNonCumulativeDistribution(b) d
  prop C05 C06 C09
  mode float=uf
  requires b != nil && off(b.pieces) == 0 && piecesok(b.pieces)
  modifies lastnow, chanof(idGenerator)
  ensures fresh: d != nil && fresh(d)
  ensures[C05,C06,C07] zero: off(d.counts) == 0 && allzero(elems(d.counts), 0, len(d.counts))
  ensures[C05,C06,C07,C09] empty: newdist(d, b) && d.isNotCumulative
  ensures[C05,C06,C07] consistent: distok(d)
  ensures[C07] spread: spread(d)

# what a client sees of a distribution
pred shown(m) = m.Value.(*messages.Distribution)
func (*tricorder.value).UpdateRpcMetric@C05(v, s, metric)
  mode float=uf
  requires v != nil && metric != nil && v.valType == types.Dist && v.dist != nil
  requires based(v.dist)
  requires distok(v.dist) && lockstate(v.dist.lock) == 0
  modifies *metric, v.dist.lock
  inv <p int, r ~[]*messages.RangeWithCount, b ~breakdown> forall(j, 0, p, r[j] != nil && allocated(r[j]) && r[j].Count == b[j].Count && same(r[j].Lower, b[j].Start) && same(r[j].Upper, b[j].End))
  inv <p int, r ~[]*messages.RangeWithCount, b ~breakdown> forall(j, 0, p+1, r[j] != nil && allocated(r[j]) && r[j].Count == b[j].Count && same(r[j].Lower, b[j].Start) && same(r[j].Upper, b[j].End))
  ensures[C05] kind: typeis(metric.Value, *messages.Distribution) && shown(metric) != nil
  ensures[C05] ranges: len(shown(metric).Ranges) == len(v.dist.counts) && forall(i, 0, len(v.dist.counts), shown(metric).Ranges[i].Count == v.dist.counts[i] && same(shown(metric).Ranges[i].Lower, v.dist.pieces[i].Start) && same(shown(metric).Ranges[i].Upper, v.dist.pieces[i].End))
  ensures[C05] total: shown(metric).Count == v.dist.count
func (*tricorder.value).UpdateRpcMetric@C06(v, s, metric)
  mode float=uf
  requires v != nil && metric != nil && v.valType == types.Dist && v.dist != nil
  requires based(v.dist)
  requires distok(v.dist) && lockstate(v.dist.lock) == 0
  modifies *metric, v.dist.lock
  ensures[C06] kind: typeis(metric.Value, *messages.Distribution) && shown(metric) != nil
  ensures[C06] count: shown(metric).Count == v.dist.count
  ensures[C06] generation: shown(metric).Generation == v.dist.generation
  ensures[C06] flag: shown(metric).IsNotCumulative == v.dist.isNotCumulative
  ensures[C06] timestamp: metric.TimeStamp == box(v.dist.timeStamp)
  ensures[C06] stats: v.dist.count > 0 ==> same(shown(metric).Min, v.dist.min) && same(shown(metric).Max, v.dist.max) && same(shown(metric).Sum, v.dist.total) && same(shown(metric).Average, v.dist.total / float64(v.dist.count))
  ensures[C06] empty: v.dist.count == 0 ==> same(shown(metric).Min, 0.0) && same(shown(metric).Max, 0.0) && same(shown(metric).Average, 0.0)

# ---- the median (C07): machine floats treated as reals, endpoints finite ----
pred holds(d, k, p) = csum(elems(d.counts), 0, p) <= k && k < csum(elems(d.counts), 0, p+1)
pred low(d, p) = ite(p == 0 || d.pieces[p].Start < d.min, d.min, d.pieces[p].Start)
pred high(d, p) = ite(p == len(d.pieces)-1 || d.max < d.pieces[p].End, d.max, d.pieces[p].End)
func tricorder.interpolate@C07(min, max, frac) r
  optional
  mode float=real
  requires min <= max && 0.0 <= frac && frac <= 1.0
  ensures[C07] between: min <= r && r <= max
func (*tricorder.distribution).indexToValue@C07(d, valueIdx) r
  optional
  mode float=real
  requires based(d)
  requires distok(d) && spread(d) && room(d) && valueIdx < d.count
  inv <p int, s uint64> 0 <= p && p < len(d.counts) && s == csum(elems(d.counts), 0, p) && s <= valueIdx
  inv <p int, v uint64> 0 <= p && p < len(d.counts) && v == valueIdx - csum(elems(d.counts), 0, p)
  ensures[C07] some-bucket: exists(p, 0, len(d.counts), holds(d, valueIdx, p) && low(d, p) <= r && r <= high(d, p))
  ensures[C07] bucket: forall(p, 0, len(d.counts), holds(d, valueIdx, p) ==> low(d, p) <= r && r <= high(d, p))
  ensures[C07] extremes: d.min <= r && r <= d.max
func (*tricorder.distribution).Snapshot@C07(d) r
  optional
  mode float=real
  requires based(d)
  requires distok(d) && spread(d) && room(d)
  requires lockstate(d.lock) == 0
  modifies d.lock
  inv <p int, s uint64> 0 <= p && p < len(d.counts) && s == csum(elems(d.counts), 0, p)
  ensures[C07] result: r != nil
  ensures[C07] few: d.count == 1 || d.count == 2 ==> r.Median == d.total / float64(d.count)
  ensures[C07] extremes: d.count > 2 ==> d.min <= r.Median && r.Median <= d.max
  ensures[C07] odd: d.count > 2 && d.count % 2 == 1 ==> forall(p, 0, len(d.counts), holds(d, d.count / 2, p) ==> low(d, p) <= r.Median && r.Median <= high(d, p))
  ensures[C07] even: d.count > 2 && d.count % 2 == 0 ==> forall(p, 0, len(d.counts), forall(q, 0, len(d.counts), holds(d, d.count / 2 - 1, p) && holds(d, d.count / 2, q) ==> low(d, p) + low(d, q) <= 2*r.Median && 2*r.Median <= high(d, p) + high(d, q)))
