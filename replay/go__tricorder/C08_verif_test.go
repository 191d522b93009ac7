package tricorder_test

//verif:add go/tricorder/zz_dist_common_test.go dist_common.go.txt

import (
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"math"
	"strconv"
	"testing"
)

// checkBucketer compares the ranges with the endpoints (relative tolerance tol)
// and the placement of values around every endpoint.
func checkBucketer(v *V, what string, b *tricorder.Bucketer, ends []float64, tol float64) {
	d := b.NewNonCumulativeDistribution()
	tricorder.UnregisterPath("/verif/b")
	if err := tricorder.RegisterMetric("/verif/b", d, units.None, ""); err != nil {
		v.fail("%s: %v", what, err)
	}
	_, r := readDist(v, "/verif/b", what)
	if len(r.Ranges) != len(ends)+1 {
		v.fail("%s: %d buckets, want %d", what, len(r.Ranges), len(ends)+1)
	}
	for i, e := range ends {
		u := r.Ranges[i].Upper
		if u != e && !(math.Abs(u-e) <= tol*math.Abs(e)) {
			v.fail("%s: endpoint %d is %v, want %v", what, i, u, e)
		}
		if r.Ranges[i+1].Lower != u {
			v.fail("%s: bucket %d ends at %v, the next starts at %v", what, i, u, r.Ranges[i+1].Lower)
		}
		if i > 0 && u < r.Ranges[i-1].Upper {
			v.fail("%s: endpoint %d descends", what, i)
		}
	}
	// first and last are unbounded
	d.Add(-math.MaxFloat64)
	d.Add(math.MaxFloat64)
	_, r2 := readDist(v, "/verif/b", what)
	last := len(ends)
	for last > 0 && !(math.MaxFloat64 >= ends[last-1]) {
		last--
	}
	if r2.Ranges[0].Count != 1 && !(ends[0] <= -math.MaxFloat64) || r2.Ranges[last].Count != 1 {
		v.fail("%s: the first or last bucket is bounded", what)
	}
}

func TestVerif(t *testing.T) {
	v := newV(t)
	checkBucketer(v, "PowersOfTen", tricorder.PowersOfTen, []float64{1, 10, 100, 1e3, 1e4, 1e5}, 0)
	checkBucketer(v, "PowersOfFour", tricorder.PowersOfFour, []float64{1, 4, 16, 64, 256, 1024, 4096, 16384, 65536, 262144}, 0)
	checkBucketer(v, "PowersOfTwo", tricorder.PowersOfTwo, []float64{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144}, 0)
	geo := func(lower, upper float64) []float64 {
		var out []float64
		for k := -8; k <= 16; k++ {
			for _, c := range []string{"1", "2", "5"} {
				e, _ := strconv.ParseFloat(fmt.Sprintf("%se%d", c, k), 64)
				if e <= lower {
					out = []float64{e}
					continue
				}
				if out[len(out)-1] < upper {
					out = append(out, e)
				}
			}
		}
		return out
	}
	refusals := func() {
		n := v.R.Intn(6) - 3
		a := float64(v.R.Intn(9)-4) / 2
		b := float64(v.R.Intn(9)-4) / 2
		try := func(what string, want bool, f func()) {
			v.within(what, func() {
				if p, _ := panics(f); p != want {
					v.fail("%s: panicked=%v, want %v", what, p, want)
				}
			})
		}
		try(fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", n, a, b), n < 2 || b <= 0, func() { tricorder.NewLinearBucketer(n, a, b) })
		try(fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", n, a, b), n < 2 || a <= 0 || b <= 1, func() { tricorder.NewExponentialBucketer(n, a, b) })
		try(fmt.Sprintf("NewGeometricBucketer(%v, %v)", a, b), a <= 0 || b < a, func() { tricorder.NewGeometricBucketer(a, b) })
	}
	if p, _ := panics(func() { tricorder.NewArbitraryBucketer() }); !p {
		v.fail("NewArbitraryBucketer() is accepted")
	}
	nice := []float64{}
	for k := -4; k <= 9; k++ {
		for _, c := range []string{"1", "2", "5"} {
			e, _ := strconv.ParseFloat(fmt.Sprintf("%se%d", c, k), 64)
			nice = append(nice, e)
		}
	}
	for v.more(3000, 200000) {
		n := 2 + v.R.Intn(30)
		switch v.R.Intn(5) {
		case 0:
			s, inc := v.R.NormFloat64()*math.Pow(10, float64(v.R.Intn(5))), math.Abs(v.R.NormFloat64())*math.Pow(10, float64(v.R.Intn(5)-2))+1e-6
			if v.R.Intn(3) == 0 {
				s, inc = float64(v.R.Intn(20)-10), float64(v.R.Intn(9)+1)
			}
			var e []float64
			for i, x := 0, s; i < n-1; i, x = i+1, x+inc {
				e = append(e, x)
			}
			what := fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", n, s, inc)
			v.sample("%s", what)
			// a sum may be rounded differently when it is computed differently
			scale := math.Abs(s) + float64(n)*inc
			b := tricorder.NewLinearBucketer(n, s, inc)
			checkBucketerAbs(v, what, b, e, 1e-12*scale)
		case 1:
			s, sc := math.Abs(v.R.NormFloat64())+1e-3, 1.01+math.Abs(v.R.NormFloat64())
			var e []float64
			for i, x := 0, s; i < n-1; i, x = i+1, x*sc {
				e = append(e, x)
			}
			checkBucketer(v, fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", n, s, sc), tricorder.NewExponentialBucketer(n, s, sc), e, 1e-10)
		case 2:
			var lo, hi float64
			if v.R.Intn(2) == 0 {
				lo, hi = nice[v.R.Intn(len(nice))], nice[v.R.Intn(len(nice))]
			} else {
				lo = math.Pow(10, v.R.Float64()*12-4)
				hi = math.Pow(10, v.R.Float64()*12-4)
			}
			if v.R.Intn(4) == 0 {
				lo *= 1 + math.Pow(10, -float64(2+v.R.Intn(7)))*float64(1-2*v.R.Intn(2))
				hi *= 1 + math.Pow(10, -float64(2+v.R.Intn(7)))*float64(1-2*v.R.Intn(2))
			}
			if hi < lo {
				lo, hi = hi, lo
			}
			what := fmt.Sprintf("NewGeometricBucketer(%v, %v)", lo, hi)
			var b *tricorder.Bucketer
			v.within(what, func() { b = tricorder.NewGeometricBucketer(lo, hi) })
			checkBucketer(v, what, b, geo(lo, hi), 1e-9)
		case 3:
			var e []float64
			x := v.R.NormFloat64()
			for i := 0; i < 1+v.R.Intn(8); i++ {
				e = append(e, x)
				x += float64(v.R.Intn(3))
			}
			in := append([]float64(nil), e...)
			checkBucketer(v, fmt.Sprintf("NewArbitraryBucketer(%v)", e), tricorder.NewArbitraryBucketer(in...), e, 0)
		case 4:
			refusals()
		}
	}
	v.done()
}

func checkBucketerAbs(v *V, what string, b *tricorder.Bucketer, ends []float64, abs float64) {
	d := b.NewNonCumulativeDistribution()
	tricorder.UnregisterPath("/verif/b")
	if err := tricorder.RegisterMetric("/verif/b", d, units.None, ""); err != nil {
		v.fail("%s: %v", what, err)
	}
	_, r := readDist(v, "/verif/b", what)
	if len(r.Ranges) != len(ends)+1 {
		v.fail("%s: %d buckets, want %d", what, len(r.Ranges), len(ends)+1)
	}
	got := make([]float64, len(ends))
	for i, e := range ends {
		got[i] = r.Ranges[i].Upper
		if math.Abs(got[i]-e) > abs {
			v.fail("%s: endpoint %d is %v, want %v", what, i, got[i], e)
		}
	}
	checkBucketer(v, what, b, got, 0)
}
