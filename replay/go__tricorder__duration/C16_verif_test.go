package duration

import (
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"time"
)

var verifPiece = regexp.MustCompile(`^(\d+)(?:\.(\d+))?(ns|μs|ms|s|m|h|d)$`)

func verifTotal(d Duration) *big.Int {
	r := new(big.Int).Mul(big.NewInt(d.Seconds), big.NewInt(1000000000))
	return r.Add(r, big.NewInt(int64(d.Nanoseconds)))
}

// verifText is the expected text of n billionths.
func verifText(n *big.Int) string {
	q, r := new(big.Int).QuoRem(new(big.Int).Abs(n), big.NewInt(1000000000), new(big.Int))
	s := fmt.Sprintf("%s.%09d", q, r)
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func verifDecimal(v *V, maxWhole int) (text string, val *big.Rat) {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			switch v.R.Intn(4) {
			case 0:
				b[i] = '0'
			case 1:
				b[i] = '9'
			default:
				b[i] = byte('0' + v.R.Intn(10))
			}
		}
		return string(b)
	}
	text = digits(1 + v.R.Intn(maxWhole))
	switch v.R.Intn(5) {
	case 0:
	case 1:
		text += "." + digits(9)
	case 2:
		text += "." + digits(1+v.R.Intn(40))
	default:
		text += "." + digits(1+v.R.Intn(15))
	}
	if v.R.Intn(6) == 0 {
		text = "0." + strings.Repeat("0", v.R.Intn(9)) + digits(1+v.R.Intn(4))
	}
	if v.R.Intn(2) == 0 {
		text = "-" + text
	}
	val, _ = new(big.Rat).SetString(text)
	return
}

func TestVerif(t *testing.T) {
	v := newV(t)
	us := []units.Unit{units.Second, units.Millisecond, units.None, units.Byte, "other"}
	num := func() int64 {
		switch v.R.Intn(6) {
		case 0:
			return v.R.Int63n(4e9) - 2e9
		case 1:
			return int64(v.R.Uint64())
		case 2:
			return (v.R.Int63n(200000)-1000)*1000000000 + v.R.Int63n(3) - 1
		case 3:
			x := []int64{60, 3600, 86400, 1, 10, 0, 3599, 86399, 59, 172800}[v.R.Intn(10)]*1000000000 + v.R.Int63n(2001) - 1000
			return x
		case 4:
			x := int64(1)
			for k := v.R.Intn(12); k > 0; k-- {
				x *= 10
			}
			return x + v.R.Int63n(3) - 1
		}
		return int64(v.R.Uint64()) >> uint(v.R.Intn(63))
	}
	for i := 0; v.more(100000, 3000000); i++ {
		d := New(time.Duration(num()))
		if v.R.Intn(3) == 0 {
			d = SinceEpoch(time.Unix(num()>>11, num()%1000000000))
		}
		total := verifTotal(d)
		for _, u := range us {
			want := new(big.Int).Set(total)
			if u == units.Millisecond {
				want.Mul(want, big.NewInt(1000))
			}
			got := d.StringUsingUnits(u)
			if got != verifText(want) {
				v.fail("%d s %d ns in %q is %q, expected %q", d.Seconds, d.Nanoseconds, u, got, verifText(want))
			}
			back, err := ParseWithUnit(got, u)
			if err != nil || verifTotal(back).Cmp(total) != 0 {
				v.fail("%q in %q parses as %d s %d ns, error %v", got, u, back.Seconds, back.Nanoseconds, err)
			}
		}
		if got := d.String(); got != verifText(total) {
			v.fail("%d s %d ns is %q, expected %q", d.Seconds, d.Nanoseconds, got, verifText(total))
		}
		// any well formed decimal
		text, val := verifDecimal(v, 18)
		for _, u := range us {
			ns := new(big.Rat).Mul(val, big.NewRat(1000000000, 1))
			if u == units.Millisecond {
				ns.Quo(ns, big.NewRat(1000, 1))
			}
			want := new(big.Int).Quo(ns.Num(), ns.Denom())
			got, err := ParseWithUnit(text, u)
			if err != nil || verifTotal(got).Cmp(want) != 0 || got.Seconds > 0 && got.Nanoseconds < 0 || got.Seconds < 0 && got.Nanoseconds > 0 || got.Nanoseconds <= -1000000000 || got.Nanoseconds >= 1000000000 {
				v.fail("%q in %q parses as %d s %d ns, error %v; expected %s ns", text, u, got.Seconds, got.Nanoseconds, err, want)
			}
		}
		if total.Sign() < 0 {
			continue
		}
		p := d.PrettyFormat()
		sum := new(big.Int)
		prec := big.NewInt(0)
		for _, w := range strings.Split(p, " ") {
			m := verifPiece.FindStringSubmatch(w)
			if m == nil {
				v.fail("%s ns is shown as %q", total, p)
			}
			unit := map[string]int64{"ns": 1, "μs": 1000, "ms": 1000000, "s": 1000000000, "m": 60000000000, "h": 3600000000000, "d": 86400000000000}[m[3]]
			x, _ := new(big.Int).SetString(m[1]+m[2], 10)
			for range m[2] {
				if unit%10 != 0 {
					v.fail("%s ns is shown as %q", total, p)
				}
				unit /= 10
			}
			sum.Add(sum, x.Mul(x, big.NewInt(unit)))
			prec = big.NewInt(unit)
		}
		want := new(big.Int).Sub(total, new(big.Int).Mod(total, prec))
		if sum.Cmp(want) != 0 {
			v.fail("%s ns is shown as %q, which is %s ns", total, p, sum)
		}
		v.sample("%s ns: %q %q", total, d.String(), p)
	}
	v.done()
}
