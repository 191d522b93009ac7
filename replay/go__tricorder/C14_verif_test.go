package tricorder_test

import (
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

type vLevel int8
type vCount uint
type vBig int64
type vName string
type vFlag bool
type vRatio float64
type vNames []string
type vInts []int
type vU16 uint16

// element types: the element type, the metric type and Go type reported
var vElems = []struct {
	el   reflect.Type
	sub  types.Type
	std  reflect.Type
	bits int
}{
	{reflect.TypeOf(false), types.Bool, reflect.TypeOf(false), 0},
	{reflect.TypeOf(vFlag(false)), types.Bool, reflect.TypeOf(false), 0},
	{reflect.TypeOf(int8(0)), types.Int8, reflect.TypeOf(int8(0)), 8},
	{reflect.TypeOf(vLevel(0)), types.Int8, reflect.TypeOf(int8(0)), 8},
	{reflect.TypeOf(int16(0)), types.Int16, reflect.TypeOf(int16(0)), 16},
	{reflect.TypeOf(int32(0)), types.Int32, reflect.TypeOf(int32(0)), 32},
	{reflect.TypeOf(int64(0)), types.Int64, reflect.TypeOf(int64(0)), 64},
	{reflect.TypeOf(vBig(0)), types.Int64, reflect.TypeOf(int64(0)), 64},
	{reflect.TypeOf(int(0)), types.Int64, reflect.TypeOf(int64(0)), 64},
	{reflect.TypeOf(uint8(0)), types.Uint8, reflect.TypeOf(uint8(0)), 8},
	{reflect.TypeOf(uint16(0)), types.Uint16, reflect.TypeOf(uint16(0)), 16},
	{reflect.TypeOf(vU16(0)), types.Uint16, reflect.TypeOf(uint16(0)), 16},
	{reflect.TypeOf(uint32(0)), types.Uint32, reflect.TypeOf(uint32(0)), 32},
	{reflect.TypeOf(uint64(0)), types.Uint64, reflect.TypeOf(uint64(0)), 64},
	{reflect.TypeOf(uint(0)), types.Uint64, reflect.TypeOf(uint64(0)), 64},
	{reflect.TypeOf(vCount(0)), types.Uint64, reflect.TypeOf(uint64(0)), 64},
	{reflect.TypeOf(float32(0)), types.Float32, reflect.TypeOf(float32(0)), 32},
	{reflect.TypeOf(float64(0)), types.Float64, reflect.TypeOf(float64(0)), 64},
	{reflect.TypeOf(vRatio(0)), types.Float64, reflect.TypeOf(float64(0)), 64},
	{reflect.TypeOf(""), types.String, reflect.TypeOf(""), 0},
	{reflect.TypeOf(vName("")), types.String, reflect.TypeOf(""), 0},
	{reflect.TypeOf(time.Time{}), types.GoTime, reflect.TypeOf(time.Time{}), 0},
	{reflect.TypeOf(time.Second), types.GoDuration, reflect.TypeOf(time.Second), 0},
}

func vFill(v *V, e reflect.Value) {
	switch x := v.R.Uint64(); {
	case e.Type() == reflect.TypeOf(time.Time{}):
		e.Set(reflect.ValueOf(time.Unix(int64(int32(x)), int64(x>>40))))
	case e.Kind() == reflect.Bool:
		e.SetBool(x&1 == 1)
	case e.Kind() >= reflect.Int && e.Kind() <= reflect.Int64:
		if x%5 == 0 {
			x = 1 << 63
		}
		e.SetInt(int64(x) >> (v.R.Uint64() & 63))
	case e.Kind() >= reflect.Uint && e.Kind() <= reflect.Uint64:
		if x%5 == 0 {
			x = math.MaxUint64
		}
		e.SetUint(x >> (v.R.Uint64() & 63))
	case e.Kind() == reflect.Float32 || e.Kind() == reflect.Float64:
		e.SetFloat([]float64{0, 1.5, -2, math.Inf(1), float64(x), 0.1}[x%6])
	case e.Kind() == reflect.String:
		e.SetString(fmt.Sprint(x))
	}
}

func vSlice(v *V, el reflect.Type) reflect.Value {
	st := reflect.SliceOf(el)
	if el.Kind() == reflect.Int && el.PkgPath() == "" && v.R.Intn(2) == 0 {
		st = reflect.TypeOf(vInts{})
	}
	if el.Kind() == reflect.String && el.PkgPath() == "" && v.R.Intn(2) == 0 {
		st = reflect.TypeOf(vNames{})
	}
	if v.R.Intn(12) == 0 {
		return reflect.Zero(st)
	}
	n := v.R.Intn(6)
	big := reflect.MakeSlice(st, n+v.R.Intn(4), n+6)
	for i := 0; i < big.Len(); i++ {
		vFill(v, big.Index(i))
	}
	o := v.R.Intn(big.Len() - n + 1)
	return big.Slice(o, o+n)
}

func vStd(s reflect.Value, std reflect.Type) []string {
	r := []string{}
	for i := 0; i < s.Len(); i++ {
		e := s.Index(i)
		if e.Type() != reflect.TypeOf(time.Time{}) {
			e = e.Convert(std)
		}
		r = append(r, fmt.Sprintf("%T:%#v", e.Interface(), e.Interface()))
	}
	return r
}

func TestVerif(t *testing.T) {
	v := newV(t)
	bad := []interface{}{5, "x", nil, []*int{}, [][]int{{1}}, []*tricorder.List{}, []interface{}{1}, []complex128{1}, map[string]int{}, &[]int{1}, [2]int{}, []uintptr{1}, struct{}{}, []struct{}{{}}}
	for v.more(300, 100000) {
		e := vElems[v.R.Intn(len(vElems))]
		path := "/verif/list"
		var hist []string
		var want []string
		var lo, hi time.Time
		var fixed bool // the caller's slice was declared immutable: the caller leaves it alone
		set := func(s reflect.Value) {
			want = vStd(s, e.std)
		}
		s := vSlice(v, e.el)
		mut := v.R.Intn(2) == 0
		set(s)
		hist = append(hist, fmt.Sprintf("NewList(%#v, %v)", s.Interface(), mut))
		lo = time.Now()
		var l *tricorder.List
		if p, w := panics(func() { l = tricorder.NewList(s.Interface(), mut) }); p {
			v.fail("%v: %v", hist, w)
		}
		hi = time.Now()
		fixed = !mut
		if err := tricorder.RegisterMetric(path, l, units.None, "d"); err != nil {
			v.fail("%v: %v", hist, err)
		}
		grp := -1
		type seen struct {
			v    reflect.Value
			want []string
			who  string
		}
		var held []seen
		keep := func() {
			if fixed {
				held = append(held, seen{s, vStd(s, e.std), "the caller's slice"})
			}
		}
		keep()
		for k := 0; k < 10; k++ {
			ms := tricorder.ReadMyMetrics(path)
			if len(ms) != 1 {
				v.fail("%v: %d metrics", hist, len(ms))
			}
			m := ms[0]
			if m.Kind != types.List || m.SubType != e.sub || m.Bits != e.bits {
				v.fail("%v: kind %v, subtype %v, bits %v, want list, %v, %v", hist, m.Kind, m.SubType, m.Bits, e.sub, e.bits)
			}
			rv := reflect.ValueOf(m.Value)
			if rv.Type() != reflect.SliceOf(e.std) {
				v.fail("%v: value is a %v, want []%v", hist, rv.Type(), e.std)
			}
			if got := vStd(rv, e.std); !reflect.DeepEqual(got, want) {
				v.fail("%v: elements %v, want %v", hist, got, want)
			}
			ts, ok := m.TimeStamp.(time.Time)
			if !ok || ts.Before(lo) || ts.After(hi) {
				v.fail("%v: timestamp %v, last change between %v and %v", hist, m.TimeStamp, lo, hi)
			}
			for _, h := range held {
				if got := vStd(h.v, e.std); !reflect.DeepEqual(got, h.want) {
					v.fail("%v: %s changed to %v from %v", hist, h.who, got, h.want)
				}
			}
			held = append(held, seen{rv, want, "a value reported before"})
			if grp >= 0 && m.GroupId != grp {
				v.fail("%v: group id changed from %v to %v", hist, grp, m.GroupId)
			}
			grp = m.GroupId
			switch v.R.Intn(4) {
			case 0: // the caller writes into a slice it declared mutable
				if !fixed {
					full := s.Slice(0, s.Cap())
					for i := 0; i < full.Len(); i++ {
						vFill(v, full.Index(i))
					}
					hist = append(hist, "write to the slice")
				}
			case 1, 2: // change
				el := e.el
				for _, o := range vElems {
					if o.sub == e.sub && v.R.Intn(2) == 0 {
						el = o.el
					}
				}
				s = vSlice(v, el)
				mut = v.R.Intn(2) == 0
				set(s)
				hist = append(hist, fmt.Sprintf("Change(%#v, %v)", s.Interface(), mut))
				lo = time.Now()
				if p, w := panics(func() { l.Change(s.Interface(), mut) }); p {
					v.fail("%v: %v", hist, w)
				}
				hi = time.Now()
				fixed = !mut
				keep()
			case 3: // refused change
				x := bad[v.R.Intn(len(bad))]
				if v.R.Intn(2) == 0 {
					o := vElems[v.R.Intn(len(vElems))]
					if o.sub == e.sub {
						continue
					}
					x = vSlice(v, o.el).Interface()
				}
				hist = append(hist, fmt.Sprintf("refused Change(%T)", x))
				if p, _ := panics(func() { l.Change(x, v.R.Intn(2) == 0) }); !p {
					v.fail("%v: not refused", hist)
				}
			}
		}
		for _, x := range bad {
			if p, _ := panics(func() { tricorder.NewList(x, false) }); !p {
				v.fail("NewList(%T) not refused", x)
			}
		}
		v.sample("%v", hist)
		tricorder.UnregisterPath(path)
	}
	v.done()
}
