package tricorder_test

//verif:add go/tricorder/zz_dist_common_test.go dist_common.go.txt

import (
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"math"
	"testing"
	"time"
)

type named float64

func TestVerif(t *testing.T) {
	v := newV(t)
	us := []units.Unit{units.None, units.Second, units.Millisecond, units.Byte, units.Celsius, units.BytePerSecond, units.Unit("Parsec")}
	for v.more(500, 100000) {
		non := v.R.Intn(2) == 0
		b, _, name := bucketerFor(v)
		var x interface{}
		var add func(interface{})
		var nd *tricorder.NonCumulativeDistribution
		if non {
			nd = b.NewNonCumulativeDistribution()
			x, add = nd, nd.Add
		} else {
			d := b.NewCumulativeDistribution()
			x, add = d, d.Add
		}
		set := false
		var unit units.Unit
		hist := []string{fmt.Sprintf("%s noncumulative=%v", name, non)}
		var paths []string
		var count uint64
		for k := 0; k < 12; k++ {
			if v.R.Intn(3) == 0 || (k > 3 && !set) {
				u := us[v.R.Intn(len(us))]
				if set && v.R.Intn(3) == 0 {
					u = unit
				}
				distSerial++
				path := fmt.Sprintf("/verif/u%d", distSerial)
				hist = append(hist, fmt.Sprintf("Register(%q)", u))
				var err error
				v.within(fmt.Sprint(hist), func() { err = tricorder.RegisterMetric(path, x, u, "d") })
				var want error
				if set && u != unit {
					want = tricorder.ErrWrongUnit
				}
				if err != want {
					v.fail("%v: error %v, want %v", hist, err, want)
				}
				if err == nil {
					if !set {
						set, unit = true, u
					}
					paths = append(paths, path)
				} else if l := tricorder.ReadMyMetrics(path); len(l) != 0 {
					v.fail("%v: refused but registered", hist)
				}
			} else {
				var arg interface{}
				val := float64(v.R.Intn(2000)-1000) / 8
				ok := set
				switch v.R.Intn(9) {
				case 0, 1:
					arg = val
				case 2:
					arg = float32(val)
				case 3, 4:
					n := v.R.Int63n(1 << uint(1+v.R.Intn(50)))
					if v.R.Intn(2) == 0 {
						n = -n
					}
					arg = time.Duration(n)
					switch unit {
					case units.Second:
						val = float64(n) / 1e9
					case units.Millisecond:
						val = float64(n) / 1e6
					default:
						ok = false
					}
				case 5:
					arg, ok = v.R.Intn(100), false
				case 6:
					arg, ok = []interface{}{"1", nil, int64(3), uint8(3), true, time.Now(), named(3), []float64{1}}[v.R.Intn(8)], false
				case 7:
					arg, ok = &val, false
				default:
					val = math.Ldexp(v.R.NormFloat64(), v.R.Intn(100)-50)
					arg = val
				}
				var before float64
				if non {
					before = nd.Sum()
				}
				hist = append(hist, fmt.Sprintf("Add(%T %v)", arg, arg))
				var p bool
				v.within(fmt.Sprint(hist), func() { p, _ = panics(func() { add(arg) }) })
				if p == ok {
					v.fail("%v: panicked=%v, want %v", hist, p, !ok)
				}
				if !p {
					count++
					if count == 1 {
						_, d := readDist(v, paths[0], hist)
						if math.Abs(d.Min-val) > 1e-15*math.Abs(val) || d.Max != d.Min || d.Sum != d.Min {
							v.fail("%v: recorded as %v, want %v", hist, d.Min, val)
						}
						if _, dur := arg.(time.Duration); !dur && d.Min != val {
							v.fail("%v: recorded as %v, want %v", hist, d.Min, val)
						}
					}
					if non && math.Abs(nd.Sum()-before-val) > 1e-9*(math.Abs(before)+math.Abs(val)) {
						v.fail("%v: sum went from %v to %v", hist, before, nd.Sum())
					}
				} else if non && nd.Sum() != before {
					v.fail("%v: refused but sum went from %v to %v", hist, before, nd.Sum())
				}
			}
			for _, p := range paths {
				m, d := readDist(v, p, hist)
				if m.Unit != unit || d.Count != count {
					v.fail("%v: %s has unit %q count %d, want %q %d", hist, p, m.Unit, d.Count, unit, count)
				}
			}
		}
		for _, p := range paths {
			tricorder.UnregisterPath(p)
		}
		v.sample("%v", hist)
	}
	v.done()
}
