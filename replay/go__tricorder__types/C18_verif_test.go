package types_test

import (
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"math"
	"math/big"
	"reflect"
	"testing"
	"time"
)

type verifOwn struct{ t types.Type }

func (o verifOwn) Type() types.Type { return o.t }

var verifGo = []struct {
	t    types.Type
	zero interface{}
	bits int
	cat  string // i, u, f or ""
	num  bool
}{
	{types.Bool, false, 0, "", false},
	{types.Int8, int8(0), 8, "i", true},
	{types.Int16, int16(0), 16, "i", true},
	{types.Int32, int32(0), 32, "i", true},
	{types.Int64, int64(0), 64, "i", true},
	{types.Uint8, uint8(0), 8, "u", true},
	{types.Uint16, uint16(0), 16, "u", true},
	{types.Uint32, uint32(0), 32, "u", true},
	{types.Uint64, uint64(0), 64, "u", true},
	{types.Float32, float32(0), 32, "f", true},
	{types.Float64, float64(0), 64, "f", true},
	{types.String, "", 0, "", false},
	{types.GoTime, time.Time{}, 0, "", true},
	{types.GoDuration, time.Duration(0), 0, "", true},
}

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
func absr(r *big.Rat) *big.Rat {
	return new(big.Rat).Abs(r)
}

// nearest: |got - want| <= 1/2 + slack
func nearest(got *big.Rat, want *big.Rat, slack *big.Rat) bool {
	d := absr(new(big.Rat).Sub(got, want))
	return d.Cmp(new(big.Rat).Add(big.NewRat(1, 2), slack)) <= 0
}

func pan(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func TestVerif(t *testing.T) {
	v := newV(t)
	// tables
	for _, g := range verifGo {
		z, err := g.t.SafeZeroValue()
		if err != nil || !reflect.DeepEqual(z, g.zero) || reflect.TypeOf(z) != reflect.TypeOf(g.zero) {
			v.fail("zero value of %s is %T %v, error %v", g.t, z, z, err)
		}
		if z := g.t.ZeroValue(); !reflect.DeepEqual(z, g.zero) {
			v.fail("ZeroValue of %s is %T %v", g.t, z, z)
		}
		if k, s := types.FromGoValueWithSubType(g.zero); k != g.t || s != types.Unknown {
			v.fail("%T is detected as %q %q, not %q", g.zero, k, s, g.t)
		}
		if k := types.FromGoValue(g.zero); k != g.t {
			v.fail("%T is detected as %q", g.zero, k)
		}
		sl := reflect.SliceOf(reflect.TypeOf(g.zero))
		ns, err := g.t.SafeNilSlice()
		if err != nil || reflect.TypeOf(ns) != sl || !reflect.ValueOf(ns).IsNil() {
			v.fail("nil slice of %s is %T %v, error %v", g.t, ns, ns, err)
		}
		if ns := g.t.NilSlice(); reflect.TypeOf(ns) != sl || !reflect.ValueOf(ns).IsNil() {
			v.fail("NilSlice of %s is %T %v", g.t, ns, ns)
		}
		if k, s := types.FromGoValueWithSubType(ns); k != types.List || s != g.t {
			v.fail("%T is detected as %q %q", ns, k, s)
		}
		if k := types.FromGoValue(reflect.MakeSlice(sl, 2, 2).Interface()); k != types.List {
			v.fail("%s is detected as %q", sl, k)
		}
		if g.t.Bits() != g.bits || g.t.IsInt() != (g.cat == "i") || g.t.IsUint() != (g.cat == "u") || g.t.IsFloat() != (g.cat == "f") || g.t.CanToFromFloat() != g.num {
			v.fail("%s: bits %d int %v uint %v float %v to/from float %v", g.t, g.t.Bits(), g.t.IsInt(), g.t.IsUint(), g.t.IsFloat(), g.t.CanToFromFloat())
		}
		if g.t.UsesSubType() || !g.t.SupportsEquality() {
			v.fail("%s: uses sub type %v, equality %v", g.t, g.t.UsesSubType(), g.t.SupportsEquality())
		}
	}
	for _, s := range []types.Type{types.Time, types.Duration} {
		if z, err := s.SafeZeroValue(); err != nil || z != "0.000000000" {
			v.fail("zero value of %s is %v, error %v", s, z, err)
		}
		if z, err := s.SafeNilSlice(); err != nil || reflect.TypeOf(z) != reflect.TypeOf([]string{}) || !reflect.ValueOf(z).IsNil() {
			v.fail("nil slice of %s is %T, error %v", s, z, err)
		}
		if s.Bits() != 0 || s.IsInt() || s.IsUint() || s.IsFloat() || s.CanToFromFloat() || s.UsesSubType() || !s.SupportsEquality() {
			v.fail("predicates of %s", s)
		}
	}
	for _, s := range []types.Type{types.Unknown, types.Dist, types.List, "int", "Int8", "int8 ", "bool ", "float", "listx", "goTime2"} {
		if z, err := s.SafeZeroValue(); err == nil {
			v.fail("type %q has the zero value %v", s, z)
		}
		if z, err := s.SafeNilSlice(); err == nil {
			v.fail("type %q has the nil slice %v", s, z)
		}
		s := s
		if pan(func() { s.ZeroValue() }) == nil || pan(func() { s.NilSlice() }) == nil {
			v.fail("type %q: no panic without a zero value", s)
		}
		if s.Bits() != 0 || s.IsInt() || s.IsUint() || s.IsFloat() || s.CanToFromFloat() || s.UsesSubType() != (s == types.List) {
			v.fail("predicates of %q", s)
		}
		known := s == types.Unknown || s == types.Dist || s == types.List
		if known && s.SupportsEquality() {
			v.fail("%q supports equality", s)
		}
		if pan(func() { s.FromFloat(1) }) == nil || pan(func() { s.ToFloat(int8(1)) }) == nil {
			v.fail("%q converts from or to float", s)
		}
	}
	for _, x := range []interface{}{nil, 5, uint(5), struct{}{}, []interface{}{}, []int{}, []uint{}, &v, complex(1, 2), map[string]int{}, [2]int8{}, time.Month(3)} {
		if k, s := types.FromGoValueWithSubType(x); k != types.Unknown || s != types.Unknown {
			v.fail("%T is detected as %q %q", x, k, s)
		}
	}
	if k, s := types.FromGoValueWithSubType(verifOwn{types.Dist}); k != types.Dist || s != types.Unknown {
		v.fail("a value that states its type is detected as %q %q", k, s)
	}

	// numbers
	rbits := func() uint64 {
		switch v.R.Intn(6) {
		case 0:
			return 1<<52 + uint64(v.R.Int63n(1<<52)) | 1
		case 1:
			return uint64(v.R.Intn(5)) - 2
		case 2:
			return uint64(1)<<uint(v.R.Intn(64)) + uint64(v.R.Intn(3)) - 1
		case 3:
			return v.R.Uint64()
		}
		return v.R.Uint64() >> uint(v.R.Intn(64))
	}
	rfloat := func() float64 {
		switch v.R.Intn(7) {
		case 0:
			return math.Nextafter(float64(v.R.Intn(200)-100)/2, float64(v.R.Intn(3)-1)*1000)
		case 1:
			return float64(v.R.Intn(2000000)-1000000) / 2
		case 2:
			return float64(int64(rbits()))
		case 3:
			return math.Nextafter(float64(int64(rbits())), 0)
		case 4:
			return v.R.NormFloat64()
		case 5:
			return v.R.NormFloat64() * math.Pow(10, float64(v.R.Intn(19)))
		}
		return math.Ldexp(float64(v.R.Int63n(1<<53))-1<<52, -v.R.Intn(70))
	}
	zero := new(big.Rat)
	for v.more(60000, 4000000) {
		b := rbits()
		if v.R.Intn(2) == 0 {
			b = -b
		}
		for _, g := range verifGo {
			if !g.num {
				continue
			}
			var x interface{}
			switch g.t {
			case types.Int8:
				x = int8(b)
			case types.Int16:
				x = int16(b)
			case types.Int32:
				x = int32(b)
			case types.Int64:
				x = int64(b)
			case types.Uint8:
				x = uint8(b)
			case types.Uint16:
				x = uint16(b)
			case types.Uint32:
				x = uint32(b)
			case types.Uint64:
				x = b
			case types.Float32:
				x = math.Float32frombits(uint32(b))
			case types.Float64:
				x = math.Float64frombits(b)
			case types.GoDuration:
				x = time.Duration(b)
			case types.GoTime:
				x = time.Unix(int64(b)%(1<<36), int64(b>>7)%1000000000)
			}
			f := g.t.ToFloat(x)
			rv := reflect.ValueOf(x)
			var want float64
			exact := true
			small := false
			switch g.cat {
			case "i":
				want = float64(rv.Int())
				exact = new(big.Rat).SetInt64(rv.Int()).Cmp(rat(want)) == 0
			case "u":
				want = float64(rv.Uint())
				exact = new(big.Rat).SetInt(new(big.Int).SetUint64(rv.Uint())).Cmp(rat(want)) == 0
			case "f":
				want = rv.Float()
			default:
				var r *big.Rat
				if d, ok := x.(time.Duration); ok {
					r = big.NewRat(int64(d), 1000000000)
					small = d > -1<<53 && d < 1<<53
				} else {
					tm := x.(time.Time)
					r = new(big.Rat).SetFrac(new(big.Int).Add(new(big.Int).Mul(big.NewInt(tm.Unix()), big.NewInt(1000000000)), big.NewInt(int64(tm.Nanosecond()))), big.NewInt(1000000000))
					small = true
				}
				want, _ = r.Float64()
				exact = r.Cmp(rat(want)) == 0 && small
				// up to rounding
				tol := 4 * math.Abs(math.Nextafter(want, math.Inf(1))-want)
				if math.Abs(f-want) <= tol {
					want = f
				}
			}
			if f != want && !(f != f && want != want) {
				v.fail("%s: %v to float is %v", g.t, x, f)
			}
			if !exact || f != f {
				continue
			}
			back := g.t.FromFloat(f)
			same := reflect.TypeOf(back) == reflect.TypeOf(x)
			if same {
				if tm, ok := x.(time.Time); ok {
					same = tm.Equal(back.(time.Time))
				} else {
					same = back == x
				}
			}
			if !same {
				v.fail("%s: %v to float is %v and back is %T %v", g.t, x, f, back, back)
			}
		}
		// rounding
		f := rfloat()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			continue
		}
		fr := rat(f)
		for _, g := range verifGo {
			if g.cat != "i" && g.cat != "u" {
				continue
			}
			lo, hi := -math.Ldexp(1, g.bits-1), math.Ldexp(1, g.bits-1)
			if g.cat == "u" {
				lo, hi = 0, math.Ldexp(1, g.bits)
			}
			if f < lo-0.4 || f >= hi-1 && (g.bits < 64 && f > hi-0.6 || g.bits == 64 && f >= hi) {
				continue
			}
			x := reflect.ValueOf(g.t.FromFloat(f))
			r := new(big.Rat)
			if g.cat == "i" {
				r.SetInt64(x.Int())
			} else {
				r.SetInt(new(big.Int).SetUint64(x.Uint()))
			}
			if !nearest(r, fr, zero) {
				v.fail("%s: %v from float is %v, not the nearest", g.t, f, x)
			}
			if x.Type() != reflect.TypeOf(g.zero) {
				v.fail("%s: from float gives %s", g.t, x.Type())
			}
		}
		if got := types.Float64.FromFloat(f); got != f {
			v.fail("float64 from %v is %v", f, got)
		}
		if got := types.Float32.FromFloat(f); got != float32(f) {
			v.fail("float32 from %v is %v", f, got)
		}
		ns := new(big.Rat).Mul(fr, big.NewRat(1000000000, 1))
		slack := new(big.Rat).Mul(absr(ns), new(big.Rat).SetFrac64(1, 1<<52))
		if math.Abs(f) < 9e9 {
			got := types.GoDuration.FromFloat(f).(time.Duration)
			if !nearest(new(big.Rat).SetInt64(int64(got)), ns, slack) {
				v.fail("duration from %v s is %d ns, not the nearest", f, got)
			}
			if d := duration.FromFloat(f); d != got {
				v.fail("duration.FromFloat(%v) is %v, the type's is %v", f, d, got)
			}
		}
		if math.Abs(f) < 1e11 {
			got := types.GoTime.FromFloat(f).(time.Time)
			r := new(big.Int).Add(new(big.Int).Mul(big.NewInt(got.Unix()), big.NewInt(1000000000)), big.NewInt(int64(got.Nanosecond())))
			if !nearest(new(big.Rat).SetInt(r), ns, big.NewRat(1, 1000)) {
				v.fail("time from %v s is %s ns since 1970, not the nearest", f, r)
			}
		}
	}
	v.sample("last bit pattern %d", v.cases)
	v.done()
}
