package tricorder_test

//verif:add go/tricorder/zz_dist_common_test.go dist_common.go.txt

import (
	"math"
	"sort"
	"testing"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(300, 100000) {
		m := newDistModel(v)
		wide := v.R.Intn(2) == 0
		pick := func() float64 {
			if wide {
				return quarter(v)()
			}
			return float64(v.R.Intn(9)-2) / 2
		}
		for k := 0; k < 25; k++ {
			m.op(v, pick, true)
			_, d := readDist(v, m.path, m.hist)
			if m.n == 0 {
				continue
			}
			eps := 1e-9 * (1 + math.Abs(d.Min) + math.Abs(d.Max))
			if m.n <= 2 {
				if math.Abs(d.Median-m.sum/float64(m.n)) > eps {
					v.fail("%v: median %v of %v", m.hist, d.Median, m.vals)
				}
				continue
			}
			s := append([]float64(nil), m.vals...)
			sort.Float64s(s)
			a, b := m.idx(s[(len(s)-1)/2]), m.idx(s[len(s)/2])
			lo, hi := d.Min, d.Max
			if a > 0 {
				lo = math.Max(lo, m.ends[a-1])
			}
			if b < len(m.ends) {
				hi = math.Min(hi, m.ends[b])
			}
			if !(d.Median >= lo-eps && d.Median <= hi+eps) {
				v.fail("%v: median %v of %v (min %v, max %v), want in [%v, %v]", m.hist, d.Median, s, d.Min, d.Max, lo, hi)
			}
		}
		v.sample("%v", m.hist)
		m.drop()
	}
	v.done()
}
