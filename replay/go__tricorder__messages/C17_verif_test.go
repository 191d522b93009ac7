package messages_test

import (
	"fmt"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"reflect"
	"testing"
	"time"
)

func (v *V) dur() time.Duration {
	switch v.R.Intn(4) {
	case 0:
		return time.Duration(v.R.Uint64())
	case 1:
		return time.Duration(v.R.Int63n(4e9) - 2e9)
	case 2:
		return time.Duration(v.R.Int63n(2000)-1000) * time.Millisecond
	}
	return time.Duration(int64(v.R.Uint64()) >> uint(v.R.Intn(63)))
}

func (v *V) tm() time.Time {
	switch v.R.Intn(4) {
	case 0:
		return time.Unix(v.R.Int63n(1<<40)-1<<39, v.R.Int63n(1000000000))
	case 1:
		return time.Unix(v.R.Int63n(10)-5, v.R.Int63n(1000000000)).UTC()
	case 2:
		return time.Unix(1500000000+v.R.Int63n(1000), []int64{0, 1, 999999999, 500000000, 100}[v.R.Intn(5)])
	}
	return time.Unix(0, 0).Add(v.dur())
}

type kindOf struct {
	kind, sub types.Type
	jkind     types.Type
	jsub      types.Type
	gen       func(v *V) interface{}
}

func list(sub, jsub types.Type, gen func(v *V) interface{}) kindOf {
	return kindOf{types.List, sub, types.List, jsub, func(v *V) interface{} {
		et := reflect.TypeOf(gen(v))
		n := v.R.Intn(4)
		s := reflect.MakeSlice(reflect.SliceOf(et), n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(reflect.ValueOf(gen(v)))
		}
		if n == 0 && v.R.Intn(2) == 0 {
			return reflect.Zero(s.Type()).Interface()
		}
		return s.Interface()
	}}
}

func kinds() (r []kindOf) {
	gens := map[types.Type]func(v *V) interface{}{
		types.Bool:    func(v *V) interface{} { return v.R.Intn(2) == 0 },
		types.Int8:    func(v *V) interface{} { return int8(v.R.Uint64()) },
		types.Int16:   func(v *V) interface{} { return int16(v.R.Uint64()) },
		types.Int32:   func(v *V) interface{} { return int32(v.R.Uint64()) },
		types.Int64:   func(v *V) interface{} { return int64(v.R.Uint64()) },
		types.Uint8:   func(v *V) interface{} { return uint8(v.R.Uint64()) },
		types.Uint16:  func(v *V) interface{} { return uint16(v.R.Uint64()) },
		types.Uint32:  func(v *V) interface{} { return uint32(v.R.Uint64()) },
		types.Uint64:  func(v *V) interface{} { return v.R.Uint64() },
		types.Float32: func(v *V) interface{} { return float32(v.R.NormFloat64()) },
		types.Float64: func(v *V) interface{} { return v.R.NormFloat64() },
		types.String:  func(v *V) interface{} { return []string{"", "0.5", "a", "-1.000000000", "12"}[v.R.Intn(5)] },
	}
	for _, k := range []types.Type{types.Bool, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		r = append(r, kindOf{k, types.Unknown, k, types.Unknown, gens[k]}, list(k, k, gens[k]))
	}
	d := func(v *V) interface{} { return v.dur() }
	t := func(v *V) interface{} { return v.tm() }
	r = append(r, kindOf{types.GoDuration, types.Unknown, types.Duration, types.Unknown, d}, list(types.GoDuration, types.Duration, d))
	r = append(r, kindOf{types.GoTime, types.Unknown, types.Time, types.Unknown, t}, list(types.GoTime, types.Time, t))
	r = append(r, kindOf{types.Dist, types.Unknown, types.Dist, types.Unknown, func(v *V) interface{} {
		return &messages.Distribution{Min: 1, Max: 2, Count: v.R.Uint64()}
	}})
	return
}

// same: equal values, times as instants, lists element by element
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == b
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case time.Time:
		return x.Equal(b.(time.Time))
	case []time.Time:
		y := b.([]time.Time)
		for i := range x {
			if i >= len(y) || !x[i].Equal(y[i]) {
				return false
			}
		}
		return len(x) == len(y)
	}
	if va := reflect.ValueOf(a); va.Kind() == reflect.Slice && va.Len() == 0 {
		return reflect.ValueOf(b).Len() == 0
	}
	return reflect.DeepEqual(a, b)
}

func clone(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Slice || v.IsNil() {
		return x
	}
	r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(r, v)
	return r.Interface()
}

func show(m messages.Metric) string { return fmt.Sprintf("%+v (%T)", m, m.Value) }

func sameMetric(a, b messages.Metric) bool {
	return a.Path == b.Path && a.Description == b.Description && a.Unit == b.Unit && a.Bits == b.Bits && a.GroupId == b.GroupId &&
		a.Kind == b.Kind && a.SubType == b.SubType && same(a.Value, b.Value) && same(a.TimeStamp, b.TimeStamp)
}

func TestVerif(t *testing.T) {
	v := newV(t)
	ks := kinds()
	us := []units.Unit{units.Second, units.Millisecond, units.None, units.Byte, units.Celsius}
	for v.more(40000, 2000000) {
		k := ks[v.R.Intn(len(ks))]
		m := messages.Metric{Path: "/a", Description: "d", Unit: us[v.R.Intn(len(us))], Kind: k.kind, SubType: k.sub, Bits: v.R.Intn(65), GroupId: v.R.Intn(9), Value: k.gen(v)}
		if v.R.Intn(6) != 0 {
			m.TimeStamp = v.tm()
		}
		orig := m
		orig.Value = clone(m.Value)
		m.ConvertToJson()
		if m.Kind != k.jkind || m.SubType != k.jsub {
			v.fail("%s becomes JSON %s", show(orig), show(m))
		}
		if _, ok := m.TimeStamp.(string); !ok {
			v.fail("%s becomes JSON %s with time stamp %T", show(orig), show(m), m.TimeStamp)
		}
		switch {
		case k.kind == types.List:
			if rv := reflect.ValueOf(m.Value); rv.Kind() != reflect.Slice || rv.IsNil() || rv.Len() != reflect.ValueOf(orig.Value).Len() {
				v.fail("%s becomes JSON %s", show(orig), show(m))
			}
			if _, ok := m.Value.([]string); !ok && (k.jsub == types.Time || k.jsub == types.Duration) {
				v.fail("%s becomes JSON %s", show(orig), show(m))
			}
		case k.kind != k.jkind:
			if _, ok := m.Value.(string); !ok {
				v.fail("%s becomes JSON %s", show(orig), show(m))
			}
		}
		json := m
		json.Value = clone(m.Value)
		m.ConvertToJson()
		if !sameMetric(m, json) {
			v.fail("JSON %s converted to JSON becomes %s", show(json), show(m))
		}
		if err := m.ConvertToGoRPC(); err != nil || !sameMetric(m, orig) {
			v.fail("%s converted to JSON and back is %s, error %v", show(orig), show(m), err)
		}
		if err := m.ConvertToGoRPC(); err != nil || !sameMetric(m, orig) {
			v.fail("%s converted to Go RPC becomes %s, error %v", show(orig), show(m), err)
		}
		jv, jk, js := messages.AsJsonWithSubType(orig.Value, orig.Kind, orig.SubType, orig.Unit)
		if jk != json.Kind || js != json.SubType || !same(jv, json.Value) {
			v.fail("AsJsonWithSubType of %s is %v %v %v", show(orig), jv, jk, js)
		}
		v.sample("%s -> %s", show(orig), show(json))

		// what cannot be converted is left alone
		bad := messages.Metric{Path: "/a", Description: "d", Unit: us[v.R.Intn(2)], Kind: types.Duration, Value: "1.5", TimeStamp: "2.5", Bits: 3, GroupId: 4}
		str := []string{"", "abc", "1.5x", "1x.5", "1.x", ".", "-", "1.5.6", " 1"}
		b := str[v.R.Intn(len(str))]
		switch v.R.Intn(7) {
		case 0:
			bad.Value = b
		case 1:
			bad.Value, bad.Kind = b, types.Time
		case 2:
			bad.Value, bad.Kind, bad.SubType = []string{"1.5", "2.5", b}, types.List, types.Duration
		case 3:
			bad.Value, bad.Kind, bad.SubType = []string{"1.5", "2.5", b}, types.List, types.Time
		case 4:
			bad.TimeStamp = []interface{}{"abc", "1x.5", 5, []string{"1.5"}, 1.5}[v.R.Intn(5)]
			switch v.R.Intn(4) {
			case 0:
				bad.Kind = types.Time
			case 1:
				bad.Value, bad.Kind, bad.SubType = []string{"1.5", "2.5"}, types.List, []types.Type{types.Duration, types.Time}[v.R.Intn(2)]
			case 2:
				bad.Value, bad.Kind = int8(5), types.Int8
			}
		case 5:
			bad.Value = []interface{}{5, nil, []string{"1.5"}, time.Second}[v.R.Intn(4)]
		case 6:
			bad.Kind, bad.SubType = types.List, types.Duration
			bad.Value = []interface{}{5, nil, "1.5", []int8{1}}[v.R.Intn(4)]
		}
		before := bad
		before.Value = clone(bad.Value)
		if err := bad.ConvertToGoRPC(); err == nil {
			v.fail("%s converts to Go RPC %s without an error", show(before), show(bad))
		}
		if !sameMetric(bad, before) {
			v.fail("%s fails to convert to Go RPC but becomes %s", show(before), show(bad))
		}
	}
	v.done()
}
