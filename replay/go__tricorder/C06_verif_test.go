package tricorder_test

//verif:add go/tricorder/zz_dist_common_test.go dist_common.go.txt

import (
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(300, 100000) {
		m := newDistModel(v)
		for k := 0; k < 14; k++ {
			if k > 0 {
				m.op(v, quarter(v), false)
			}
			mm, d := readDist(v, m.path, m.hist)
			if d.Count != m.n || m.non != nil && (m.non.Count() != m.n || m.non.Sum() != m.sum) {
				v.fail("%v: count %d, want %d", m.hist, d.Count, m.n)
			}
			if d.Generation != m.gen {
				v.fail("%v: generation %d, want %d", m.hist, d.Generation, m.gen)
			}
			if d.IsNotCumulative != m.noncum {
				v.fail("%v: IsNotCumulative %v, want %v", m.hist, d.IsNotCumulative, m.noncum)
			}
			if m.n > 0 {
				if d.Sum != m.sum {
					v.fail("%v: sum %v, want %v", m.hist, d.Sum, m.sum)
				}
				if d.Min != m.min || d.Max != m.max {
					v.fail("%v: min, max %v, %v, want %v, %v", m.hist, d.Min, d.Max, m.min, m.max)
				}
				if d.Average != m.sum/float64(m.n) {
					v.fail("%v: average %v, want %v/%d", m.hist, d.Average, m.sum, m.n)
				}
			}
			ts, ok := mm.TimeStamp.(time.Time)
			if !ok || ts.Before(m.lo) || ts.After(m.hi) {
				v.fail("%v: timestamp %v, last change between %v and %v", m.hist, mm.TimeStamp, m.lo, m.hi)
			}
		}
		v.sample("%v", m.hist)
		m.drop()
	}
	v.done()
}
