package tricorder_test

import (
	"bytes"
	"encoding/gob"
	"flag"
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

type wLevel int8
type wShort int16
type wRune int32
type wBig int64
type wInt int
type wByte uint8
type wPort uint16
type wAddr uint32
type wMask uint64
type wCount uint
type wName string
type wFlag bool
type wRatio float64
type wFrac float32
type wNanos time.Duration

// the names of documented types, for other types
type Duration int64
type Time int64

type wKind struct {
	zero interface{}
	kind types.Type
	bits int
	std  interface{}
}

var wKinds = []wKind{
	{false, types.Bool, 0, false}, {wFlag(false), types.Bool, 0, false},
	{int8(0), types.Int8, 8, int8(0)}, {wLevel(0), types.Int8, 8, int8(0)},
	{int16(0), types.Int16, 16, int16(0)}, {wShort(0), types.Int16, 16, int16(0)},
	{int32(0), types.Int32, 32, int32(0)}, {wRune(0), types.Int32, 32, int32(0)},
	{int64(0), types.Int64, 64, int64(0)}, {wBig(0), types.Int64, 64, int64(0)},
	{int(0), types.Int64, 64, int64(0)}, {wInt(0), types.Int64, 64, int64(0)},
	{wNanos(0), types.Int64, 64, int64(0)},
	{Duration(0), types.Int64, 64, int64(0)}, {Time(0), types.Int64, 64, int64(0)},
	{uint8(0), types.Uint8, 8, uint8(0)}, {wByte(0), types.Uint8, 8, uint8(0)},
	{uint16(0), types.Uint16, 16, uint16(0)}, {wPort(0), types.Uint16, 16, uint16(0)},
	{uint32(0), types.Uint32, 32, uint32(0)}, {wAddr(0), types.Uint32, 32, uint32(0)},
	{uint64(0), types.Uint64, 64, uint64(0)}, {wMask(0), types.Uint64, 64, uint64(0)},
	{uint(0), types.Uint64, 64, uint64(0)}, {wCount(0), types.Uint64, 64, uint64(0)},
	{float32(0), types.Float32, 32, float32(0)}, {wFrac(0), types.Float32, 32, float32(0)},
	{float64(0), types.Float64, 64, float64(0)}, {wRatio(0), types.Float64, 64, float64(0)},
	{"", types.String, 0, ""}, {wName(""), types.String, 0, ""},
	{time.Time{}, types.GoTime, 0, time.Time{}}, {(*time.Time)(nil), types.GoTime, 0, time.Time{}},
	{time.Duration(0), types.GoDuration, 0, time.Duration(0)},
}

func wFill(v *V, e reflect.Value) {
	x := v.R.Uint64()
	switch {
	case e.Type() == reflect.TypeOf(time.Time{}):
		e.Set(reflect.ValueOf(time.Unix(int64(int32(x)), int64(x>>40))))
	case e.Kind() == reflect.Ptr:
		if x%4 == 0 {
			e.Set(reflect.Zero(e.Type()))
			return
		}
		t := time.Unix(int64(int32(x)), int64(x>>40))
		e.Set(reflect.ValueOf(&t))
	case e.Kind() == reflect.Bool:
		e.SetBool(x&1 == 1)
	case e.Kind() >= reflect.Int && e.Kind() <= reflect.Int64:
		if x%5 == 0 {
			x = 1 << 63
		} else if x%5 == 1 {
			x = math.MaxInt64
		}
		e.SetInt(int64(x) >> (v.R.Uint64() & 63))
	case e.Kind() >= reflect.Uint && e.Kind() <= reflect.Uint64:
		if x%5 == 0 {
			x = math.MaxUint64
		}
		e.SetUint(x >> (v.R.Uint64() & 63))
	case e.Kind() == reflect.Float32 || e.Kind() == reflect.Float64:
		e.SetFloat([]float64{0, 1.5, -2, 1e30, float64(x), 0.1}[x%6])
	case e.Kind() == reflect.String:
		e.SetString([]string{"", "x", fmt.Sprint(x), "\x00\xff", "né\n"}[x%5])
	}
}

func wWant(e reflect.Value, k wKind) interface{} {
	if e.Kind() == reflect.Ptr {
		if e.IsNil() {
			return time.Time{}
		}
		return e.Elem().Interface()
	}
	return e.Convert(reflect.TypeOf(k.std)).Interface()
}

type wOpaque struct{ s string }

func (o *wOpaque) String() string     { return o.s }
func (o *wOpaque) Set(s string) error { o.s = s; return nil }

type wGetter struct {
	wOpaque
	get interface{}
}

func (o *wGetter) Get() interface{} { return o.get }

func TestVerif(t *testing.T) {
	v := newV(t)
	var nilInt *int
	var nilFunc func() int
	var nilTime **time.Time
	var anything interface{} = 5
	pp := new(*int)
	bad := []interface{}{nil, 5, "x", 1.5, true, time.Now(), time.Second, nilInt, nilFunc, nilTime, &anything, pp, new([]int), new(map[string]int), new(struct{}), new(complex128), new(uintptr), new(chan int), new([2]int), new(func() int),
		[]int{1}, map[string]int{}, struct{}{}, make(chan int),
		func() {}, func() (int, error) { return 0, nil }, func(int) int { return 0 }, func(int, ...int) int { return 0 }, func() []int { return nil }, func() interface{} { return 1 }, func() *int { return nil }, func() error { return nil }, func() complex64 { return 0 }}
	us := []units.Unit{units.None, units.Byte, units.Second, units.Celsius, units.Unit("verif")}
	path := "/verif/value"
	for v.more(300, 100000) {
		k := wKinds[v.R.Intn(len(wKinds))]
		box := reflect.New(reflect.TypeOf(k.zero))
		wFill(v, box.Elem())
		calls := 0
		var m interface{}
		how := "variable"
		switch v.R.Intn(6) {
		case 0, 1:
			how = "callback"
			m = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{box.Elem().Type()}, false), func([]reflect.Value) []reflect.Value {
				calls++
				return []reflect.Value{box.Elem()}
			}).Interface()
		case 2:
			how = "variadic callback"
			m = reflect.MakeFunc(reflect.FuncOf([]reflect.Type{reflect.TypeOf([]int{})}, []reflect.Type{box.Elem().Type()}, true), func([]reflect.Value) []reflect.Value {
				return []reflect.Value{box.Elem()}
			}).Interface()
		default:
			m = box.Interface()
		}
		unit := us[v.R.Intn(len(us))]
		desc := []string{"", "description %d", " of %d ", "line %d\nanother\n", "with %d.", "é %d <b> \"", "%d %% \t"}[v.R.Intn(7)]
		if desc != "" {
			desc = fmt.Sprintf(desc, v.R.Intn(1000))
		}
		if v.R.Intn(8) == 0 { // flags
			how = "flag"
			switch v.R.Intn(3) {
			case 0:
				k = wKind{"", types.String, 0, ""}
				o := &wOpaque{"opaque"}
				box = reflect.ValueOf(&o.s)
				m = o
			case 1:
				k = wKind{"", types.String, 0, ""}
				o := &wGetter{wOpaque{"unsupported"}, []int{1}}
				if v.R.Intn(2) == 0 {
					o.get = nil
				}
				box = reflect.ValueOf(&o.s)
				m = o
			case 2:
				fs := flag.NewFlagSet("", flag.ContinueOnError)
				fs.Var(&wGetter{}, "unused", "")
				switch v.R.Intn(5) {
				case 0:
					k = wKind{int(0), types.Int64, 64, int64(0)}
					box = reflect.ValueOf(fs.Int("f", 0, ""))
				case 1:
					k = wKind{time.Second, types.GoDuration, 0, time.Second}
					box = reflect.ValueOf(fs.Duration("f", 0, ""))
				case 2:
					k = wKind{"", types.String, 0, ""}
					box = reflect.ValueOf(fs.String("f", "", ""))
				case 3:
					k = wKind{true, types.Bool, 0, true}
					box = reflect.ValueOf(fs.Bool("f", true, ""))
				case 4:
					k = wKind{uint64(0), types.Uint64, 64, uint64(0)}
					box = reflect.ValueOf(fs.Uint64("f", 0, ""))
				}
				m = fs.Lookup("f").Value
			}
		}
		what := fmt.Sprintf("%s %T with unit %q", how, m, unit)
		v.sample("%s", what)
		var err error
		if p, w := panics(func() { err = tricorder.RegisterMetric(path, m, unit, desc) }); p || err != nil {
			v.fail("%s: register: %v %v", what, w, err)
		}
		for j := 0; j < 4; j++ {
			want := wWant(box.Elem(), k)
			var ms messages.MetricList
			if p, w := panics(func() { ms = tricorder.ReadMyMetrics(path) }); p {
				v.fail("%s: %v", what, w)
			}
			if len(ms) != 1 {
				v.fail("%s: %d metrics", what, len(ms))
			}
			g := ms[0]
			if g.Kind != k.kind || g.Bits != k.bits || g.SubType != types.Unknown {
				v.fail("%s: kind %v bits %v subtype %v, want %v %v", what, g.Kind, g.Bits, g.SubType, k.kind, k.bits)
			}
			if g.Unit != unit || g.Path != path || g.Description != desc {
				v.fail("%s: unit %q path %q description %q", what, g.Unit, g.Path, g.Description)
			}
			if reflect.TypeOf(g.Value) != reflect.TypeOf(k.std) || !reflect.DeepEqual(g.Value, want) {
				v.fail("%s: value %T %#v, want %T %#v", what, g.Value, g.Value, want, want)
			}
			if err := gob.NewEncoder(new(bytes.Buffer)).Encode(g); err != nil {
				v.fail("%s: gob: %v", what, err)
			}
			wFill(v, box.Elem())
		}
		tricorder.UnregisterPath(path)
		b := bad[v.R.Intn(len(bad))]
		if p, w := panics(func() { err = tricorder.RegisterMetric(path, b, unit, desc) }); p || err != tricorder.ErrWrongType {
			v.fail("registering a %T: %v %v, want wrong type", b, w, err)
		}
		if len(tricorder.ReadMyMetrics(path)) != 0 {
			v.fail("%T registered although refused", b)
		}
		// aggregates
		d := tricorder.PowersOfTwo.NewCumulativeDistribution()
		l := tricorder.NewList([]wLevel{1}, true)
		if tricorder.RegisterMetric(path+"/d", d, unit, desc) != nil || tricorder.RegisterMetric(path+"/l", l, unit, desc) != nil {
			v.fail("registering aggregates")
		}
		ms := tricorder.ReadMyMetrics(path)
		if len(ms) != 2 || ms[0].Kind != types.Dist || ms[1].Kind != types.List || ms[0].Bits != 0 || ms[1].Bits != 8 || ms[0].SubType != types.Unknown || ms[1].SubType != types.Int8 || ms[0].Unit != unit || ms[1].Unit != unit || ms[0].Description != desc || ms[1].Description != desc {
			v.fail("aggregates reported as %v %v", ms[0], ms[1])
		}
		if _, ok := ms[0].Value.(*messages.Distribution); !ok {
			v.fail("distribution reported as %T", ms[0].Value)
		}
		tricorder.UnregisterPath(path)
	}
	v.done()
}
