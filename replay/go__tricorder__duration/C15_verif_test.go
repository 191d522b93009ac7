package duration

import (
	"github.com/Symantec/tricorder/go/tricorder/units"
	"math"
	"math/big"
	"testing"
	"time"
)

func verifTotal(d Duration) *big.Int {
	r := new(big.Int).Mul(big.NewInt(d.Seconds), big.NewInt(1000000000))
	return r.Add(r, big.NewInt(int64(d.Nanoseconds)))
}

func verifNormal(d Duration) bool {
	return d.Nanoseconds > -1000000000 && d.Nanoseconds < 1000000000 &&
		!(d.Seconds > 0 && d.Nanoseconds < 0) && !(d.Seconds < 0 && d.Nanoseconds > 0)
}

func TestVerif(t *testing.T) {
	v := newV(t)
	edge := []int64{0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, 999999999, 1000000000, 1000000001, -999999999, -1000000000, -1000000001,
		1500000000, -1500000000, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 60e9, 3600e9, -60e9, 2999999999, -2999999999}
	pick := func() int64 {
		switch v.R.Intn(5) {
		case 0:
			return edge[v.R.Intn(len(edge))]
		case 1:
			return v.R.Int63n(4e9) - 2e9
		case 2:
			return int64(v.R.Uint64())
		case 3:
			return (v.R.Int63n(2000)-1000)*1000000000 + v.R.Int63n(3) - 1
		}
		return int64(v.R.Uint64()) >> uint(v.R.Intn(63))
	}
	for i := 0; v.more(200000, 3000000); i++ {
		var n int64
		if i < len(edge) {
			n = edge[i]
		} else {
			n = pick()
		}
		d := New(time.Duration(n))
		if verifTotal(d).Cmp(big.NewInt(n)) != 0 || !verifNormal(d) {
			v.fail("New(%d ns) = %+v", n, d)
		}
		if back := d.AsGoDuration(); back != time.Duration(n) {
			v.fail("New(%d ns).AsGoDuration() = %d ns", n, int64(back))
		}
		if d.IsNegative() != (n < 0) {
			v.fail("New(%d ns).IsNegative() = %v", n, d.IsNegative())
		}
		// times
		sec := pick() % 8000000000
		ns := v.R.Int63n(1000000000)
		if v.R.Intn(3) == 0 {
			sec = v.R.Int63n(7) - 3
		}
		if v.R.Intn(5) == 0 {
			ns = 0
		}
		tm := time.Unix(sec, ns)
		e := SinceEpoch(tm)
		want := new(big.Int).Add(new(big.Int).Mul(big.NewInt(sec), big.NewInt(1000000000)), big.NewInt(ns))
		if verifTotal(e).Cmp(want) != 0 || !verifNormal(e) {
			v.fail("SinceEpoch(unix %d s %d ns) = %+v", sec, ns, e)
		}
		if !e.AsGoTime().Equal(tm) {
			v.fail("SinceEpoch(unix %d s %d ns).AsGoTime() = %v", sec, ns, e.AsGoTime())
		}
		if e.IsNegative() != (want.Sign() < 0) {
			v.fail("SinceEpoch(unix %d s %d ns).IsNegative() = %v", sec, ns, e.IsNegative())
		}
		// unit conversion
		c := New(time.Duration(n))
		if v.R.Intn(2) == 0 {
			c = Duration{Seconds: pick() / 2048, Nanoseconds: int32(v.R.Int63n(1000000000))}
			if c.Seconds < 0 {
				c.Nanoseconds = -c.Nanoseconds
			}
		}
		us := []units.Unit{units.Second, units.Millisecond, units.None, units.Unknown, units.Celsius}
		from, to := us[v.R.Intn(len(us))], us[v.R.Intn(len(us))]
		r := c.convert(from, to)
		w := verifTotal(c)
		if from != units.Millisecond && to == units.Millisecond {
			w.Mul(w, big.NewInt(1000))
		} else if from == units.Millisecond && to != units.Millisecond {
			w.Quo(w, big.NewInt(1000))
		}
		if verifTotal(r).Cmp(w) != 0 || !verifNormal(r) {
			v.fail("%+v converted from %q to %q = %+v", c, from, to, r)
		}
		if back := c.convert(units.Second, units.Millisecond).convert(units.Millisecond, units.Second); back != c {
			v.fail("%+v converted to milliseconds and back = %+v", c, back)
		}
		v.sample("%d ns; unix %d s %d ns; %+v %q -> %q", n, sec, ns, c, from, to)
	}
	v.done()
}
