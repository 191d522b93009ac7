package tricorder_test

//verif:add go/tricorder/zz_dist_common_test.go dist_common.go.txt

import (
	"math"
	"testing"
)

func TestVerif(t *testing.T) {
	v := newV(t)
	for v.more(300, 100000) {
		m := newDistModel(v)
		pick := func() float64 {
			e := m.ends[v.R.Intn(len(m.ends))]
			switch v.R.Intn(9) {
			case 0:
				return math.Nextafter(e, math.Inf(-1))
			case 1:
				return math.Nextafter(e, math.Inf(1))
			case 2:
				return e
			case 3:
				return math.Inf(v.R.Intn(2)*2 - 1)
			case 4:
				return v.R.NormFloat64() * 1e300
			case 5:
				return math.Copysign(0, float64(v.R.Intn(2)*2-1))
			case 6:
				return e + v.R.NormFloat64()
			}
			return quarter(v)()
		}
		for k := 0; k < 12; k++ {
			m.op(v, pick, false)
			_, d := readDist(v, m.path, m.hist)
			if len(d.Ranges) != len(m.counts) {
				v.fail("%v: %d ranges, want %d", m.hist, len(d.Ranges), len(m.counts))
			}
			var sum uint64
			for i, r := range d.Ranges {
				sum += r.Count
				if i > 0 && r.Lower != m.ends[i-1] || i < len(m.ends) && r.Upper != m.ends[i] {
					v.fail("%v: range %d is [%v, %v)", m.hist, i, r.Lower, r.Upper)
				}
				if r.Count != m.counts[i] {
					v.fail("%v: range %d [%v, %v) counts %d, want %d", m.hist, i, r.Lower, r.Upper, r.Count, m.counts[i])
				}
			}
			if sum != d.Count || m.n != d.Count || m.non != nil && m.non.Count() != m.n {
				v.fail("%v: ranges count %d values, reported count %d, want %d", m.hist, sum, d.Count, m.n)
			}
		}
		v.sample("%v", m.hist)
		m.drop()
	}
	v.done()
}
