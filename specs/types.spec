# ---- package types: C18 (and the tables C13, C14, C17 rely on) ----
# mode float=rnd: finite machine floats are reals, every machine operation is followed by rnd64
# (rnd32); rep64 says a real is a float64 value.  Assumed of rounding: no overflow.
fun rep64(real) bool
fun rnd64(real) real
fun rnd32(real) real
axiom forall(x, real, rep64(rnd64(x)))
axiom forall(x, real, trig(rep64(x) ==> rnd64(x) == x, rnd64(x)))
axiom forall(k, int, -9007199254740992 <= k && k <= 9007199254740992 ==> rnd64(real(k)) == real(k))
axiom forall(x, real, rnd64(x) - x <= ite(x < 0.0, -x, x)/9007199254740992.0 + 0.0000000000000000000001 && x - rnd64(x) <= ite(x < 0.0, -x, x)/9007199254740992.0 + 0.0000000000000000000001)
# a machine number closer than a quarter of a unit in the last place is the result of rounding
axiom forall(x, real, forall(v, real, trig(rep64(v) && x - v < ite(v < 0.0, -v, v)/18014398509481984.0 && v - x < ite(v < 0.0, -v, v)/18014398509481984.0 ==> rnd64(x) == v, rnd64(x), rep64(v))))
pred nearint(k, x) = real(k) - x <= 0.5 && x - real(k) <= 0.5
pred close(x, y, e) = x - y <= e && y - x <= e
pred abs1(x) = ite(x < 0.0, -x, x)
pred istyped(t, v) = t == types.Bool && typeis(v, bool) || t == types.Int8 && typeis(v, int8) || t == types.Int16 && typeis(v, int16) || t == types.Int32 && typeis(v, int32) || t == types.Int64 && typeis(v, int64) || t == types.Uint8 && typeis(v, uint8) || t == types.Uint16 && typeis(v, uint16) || t == types.Uint32 && typeis(v, uint32) || t == types.Uint64 && typeis(v, uint64) || t == types.Float32 && typeis(v, float32) || t == types.Float64 && typeis(v, float64) || t == types.String && typeis(v, string) || t == types.GoTime && typeis(v, time.Time) || t == types.GoDuration && typeis(v, time.Duration)
pred goscalar(v) = typeis(v, bool) || typeis(v, int8) || typeis(v, int16) || typeis(v, int32) || typeis(v, int64) || typeis(v, uint8) || typeis(v, uint16) || typeis(v, uint32) || typeis(v, uint64) || typeis(v, float32) || typeis(v, float64) || typeis(v, string) || typeis(v, time.Time) || typeis(v, time.Duration)
pred goslice(v) = typeis(v, []bool) || typeis(v, []int8) || typeis(v, []int16) || typeis(v, []int32) || typeis(v, []int64) || typeis(v, []uint8) || typeis(v, []uint16) || typeis(v, []uint32) || typeis(v, []uint64) || typeis(v, []float32) || typeis(v, []float64) || typeis(v, []string) || typeis(v, []time.Time) || typeis(v, []time.Duration)
pred hasgo(t) = t == types.Bool || t == types.Int8 || t == types.Int16 || t == types.Int32 || t == types.Int64 || t == types.Uint8 || t == types.Uint16 || t == types.Uint32 || t == types.Uint64 || t == types.Float32 || t == types.Float64 || t == types.String || t == types.GoTime || t == types.GoDuration
pred haszero(t) = hasgo(t) || t == types.Time || t == types.Duration
pred numeric(t) = t == types.Int8 || t == types.Int16 || t == types.Int32 || t == types.Int64 || t == types.Uint8 || t == types.Uint16 || t == types.Uint32 || t == types.Uint64 || t == types.Float32 || t == types.Float64 || t == types.GoTime || t == types.GoDuration
extern (types.goValue).Type(v) (t)
  maypanic
func types.FromGoValueWithSubType(value) (kind, sub)
  prop C18
  maypanic
  ensures[C18] Bool: typeis(value, bool) ==> kind == types.Bool && sub == types.Unknown
  ensures[C18] listBool: typeis(value, []bool) ==> kind == types.List && sub == types.Bool
  ensures[C18] Int8: typeis(value, int8) ==> kind == types.Int8 && sub == types.Unknown
  ensures[C18] listInt8: typeis(value, []int8) ==> kind == types.List && sub == types.Int8
  ensures[C18] Int16: typeis(value, int16) ==> kind == types.Int16 && sub == types.Unknown
  ensures[C18] listInt16: typeis(value, []int16) ==> kind == types.List && sub == types.Int16
  ensures[C18] Int32: typeis(value, int32) ==> kind == types.Int32 && sub == types.Unknown
  ensures[C18] listInt32: typeis(value, []int32) ==> kind == types.List && sub == types.Int32
  ensures[C18] Int64: typeis(value, int64) ==> kind == types.Int64 && sub == types.Unknown
  ensures[C18] listInt64: typeis(value, []int64) ==> kind == types.List && sub == types.Int64
  ensures[C18] Uint8: typeis(value, uint8) ==> kind == types.Uint8 && sub == types.Unknown
  ensures[C18] listUint8: typeis(value, []uint8) ==> kind == types.List && sub == types.Uint8
  ensures[C18] Uint16: typeis(value, uint16) ==> kind == types.Uint16 && sub == types.Unknown
  ensures[C18] listUint16: typeis(value, []uint16) ==> kind == types.List && sub == types.Uint16
  ensures[C18] Uint32: typeis(value, uint32) ==> kind == types.Uint32 && sub == types.Unknown
  ensures[C18] listUint32: typeis(value, []uint32) ==> kind == types.List && sub == types.Uint32
  ensures[C18] Uint64: typeis(value, uint64) ==> kind == types.Uint64 && sub == types.Unknown
  ensures[C18] listUint64: typeis(value, []uint64) ==> kind == types.List && sub == types.Uint64
  ensures[C18] Float32: typeis(value, float32) ==> kind == types.Float32 && sub == types.Unknown
  ensures[C18] listFloat32: typeis(value, []float32) ==> kind == types.List && sub == types.Float32
  ensures[C18] Float64: typeis(value, float64) ==> kind == types.Float64 && sub == types.Unknown
  ensures[C18] listFloat64: typeis(value, []float64) ==> kind == types.List && sub == types.Float64
  ensures[C18] String: typeis(value, string) ==> kind == types.String && sub == types.Unknown
  ensures[C18] listString: typeis(value, []string) ==> kind == types.List && sub == types.String
  ensures[C18] GoTime: typeis(value, time.Time) ==> kind == types.GoTime && sub == types.Unknown
  ensures[C18] listGoTime: typeis(value, []time.Time) ==> kind == types.List && sub == types.GoTime
  ensures[C18] GoDuration: typeis(value, time.Duration) ==> kind == types.GoDuration && sub == types.Unknown
  ensures[C18] listGoDuration: typeis(value, []time.Duration) ==> kind == types.List && sub == types.GoDuration
  ensures[C18] other: !goscalar(value) && !goslice(value) && !implements(value, types.goValue) ==> kind == types.Unknown && sub == types.Unknown
func types.FromGoValue(value) (kind)
  prop C18
  maypanic
  ensures[C18] Bool: typeis(value, bool) ==> kind == types.Bool
  ensures[C18] Int8: typeis(value, int8) ==> kind == types.Int8
  ensures[C18] Int16: typeis(value, int16) ==> kind == types.Int16
  ensures[C18] Int32: typeis(value, int32) ==> kind == types.Int32
  ensures[C18] Int64: typeis(value, int64) ==> kind == types.Int64
  ensures[C18] Uint8: typeis(value, uint8) ==> kind == types.Uint8
  ensures[C18] Uint16: typeis(value, uint16) ==> kind == types.Uint16
  ensures[C18] Uint32: typeis(value, uint32) ==> kind == types.Uint32
  ensures[C18] Uint64: typeis(value, uint64) ==> kind == types.Uint64
  ensures[C18] Float32: typeis(value, float32) ==> kind == types.Float32
  ensures[C18] Float64: typeis(value, float64) ==> kind == types.Float64
  ensures[C18] String: typeis(value, string) ==> kind == types.String
  ensures[C18] GoTime: typeis(value, time.Time) ==> kind == types.GoTime
  ensures[C18] GoDuration: typeis(value, time.Duration) ==> kind == types.GoDuration
  ensures[C18] list: goslice(value) ==> kind == types.List
  ensures[C18] other: !goscalar(value) && !goslice(value) && !implements(value, types.goValue) ==> kind == types.Unknown
func (types.Type).SafeZeroValue(t) (r, err)
  prop C18
  mode float=rnd
  ensures[C18] defined: err == nil <==> haszero(t)
  ensures[C18] Bool: t == types.Bool ==> typeis(r, bool) && r.(bool) == false
  ensures[C18] Int8: t == types.Int8 ==> typeis(r, int8) && r.(int8) == 0
  ensures[C18] Int16: t == types.Int16 ==> typeis(r, int16) && r.(int16) == 0
  ensures[C18] Int32: t == types.Int32 ==> typeis(r, int32) && r.(int32) == 0
  ensures[C18] Int64: t == types.Int64 ==> typeis(r, int64) && r.(int64) == 0
  ensures[C18] Uint8: t == types.Uint8 ==> typeis(r, uint8) && r.(uint8) == 0
  ensures[C18] Uint16: t == types.Uint16 ==> typeis(r, uint16) && r.(uint16) == 0
  ensures[C18] Uint32: t == types.Uint32 ==> typeis(r, uint32) && r.(uint32) == 0
  ensures[C18] Uint64: t == types.Uint64 ==> typeis(r, uint64) && r.(uint64) == 0
  ensures[C18] Float32: t == types.Float32 ==> typeis(r, float32) && r.(float32) == 0.0
  ensures[C18] Float64: t == types.Float64 ==> typeis(r, float64) && r.(float64) == 0.0
  ensures[C18] String: t == types.String ==> typeis(r, string) && r.(string) == ""
  ensures[C18] GoTime: t == types.GoTime ==> typeis(r, time.Time) && tns(r.(time.Time)) == -62135596800000000000
  ensures[C18] GoDuration: t == types.GoDuration ==> typeis(r, time.Duration) && r.(time.Duration) == 0
  ensures[C18] text: t == types.Time || t == types.Duration ==> typeis(r, string) && r.(string) == "0.000000000"
func (types.Type).ZeroValue(t) (r)
  prop C18
  mode float=rnd
  panics !haszero(t)
  ensures[C18] Bool: t == types.Bool ==> typeis(r, bool) && r.(bool) == false
  ensures[C18] Int8: t == types.Int8 ==> typeis(r, int8) && r.(int8) == 0
  ensures[C18] Int16: t == types.Int16 ==> typeis(r, int16) && r.(int16) == 0
  ensures[C18] Int32: t == types.Int32 ==> typeis(r, int32) && r.(int32) == 0
  ensures[C18] Int64: t == types.Int64 ==> typeis(r, int64) && r.(int64) == 0
  ensures[C18] Uint8: t == types.Uint8 ==> typeis(r, uint8) && r.(uint8) == 0
  ensures[C18] Uint16: t == types.Uint16 ==> typeis(r, uint16) && r.(uint16) == 0
  ensures[C18] Uint32: t == types.Uint32 ==> typeis(r, uint32) && r.(uint32) == 0
  ensures[C18] Uint64: t == types.Uint64 ==> typeis(r, uint64) && r.(uint64) == 0
  ensures[C18] Float32: t == types.Float32 ==> typeis(r, float32) && r.(float32) == 0.0
  ensures[C18] Float64: t == types.Float64 ==> typeis(r, float64) && r.(float64) == 0.0
  ensures[C18] String: t == types.String ==> typeis(r, string) && r.(string) == ""
  ensures[C18] GoTime: t == types.GoTime ==> typeis(r, time.Time) && tns(r.(time.Time)) == -62135596800000000000
  ensures[C18] GoDuration: t == types.GoDuration ==> typeis(r, time.Duration) && r.(time.Duration) == 0
  ensures[C18] text: t == types.Time || t == types.Duration ==> typeis(r, string) && r.(string) == "0.000000000"
func (types.Type).SafeNilSlice(t) (r, err)
  prop C18
  ensures[C18] defined: err == nil <==> haszero(t)
  ensures[C18] Bool: t == types.Bool ==> typeis(r, []bool) && r.([]bool) == nil
  ensures[C18] Int8: t == types.Int8 ==> typeis(r, []int8) && r.([]int8) == nil
  ensures[C18] Int16: t == types.Int16 ==> typeis(r, []int16) && r.([]int16) == nil
  ensures[C18] Int32: t == types.Int32 ==> typeis(r, []int32) && r.([]int32) == nil
  ensures[C18] Int64: t == types.Int64 ==> typeis(r, []int64) && r.([]int64) == nil
  ensures[C18] Uint8: t == types.Uint8 ==> typeis(r, []uint8) && r.([]uint8) == nil
  ensures[C18] Uint16: t == types.Uint16 ==> typeis(r, []uint16) && r.([]uint16) == nil
  ensures[C18] Uint32: t == types.Uint32 ==> typeis(r, []uint32) && r.([]uint32) == nil
  ensures[C18] Uint64: t == types.Uint64 ==> typeis(r, []uint64) && r.([]uint64) == nil
  ensures[C18] Float32: t == types.Float32 ==> typeis(r, []float32) && r.([]float32) == nil
  ensures[C18] Float64: t == types.Float64 ==> typeis(r, []float64) && r.([]float64) == nil
  ensures[C18] String: t == types.String ==> typeis(r, []string) && r.([]string) == nil
  ensures[C18] GoTime: t == types.GoTime ==> typeis(r, []time.Time) && r.([]time.Time) == nil
  ensures[C18] GoDuration: t == types.GoDuration ==> typeis(r, []time.Duration) && r.([]time.Duration) == nil
  ensures[C18] text: t == types.Time || t == types.Duration ==> typeis(r, []string) && r.([]string) == nil
func (types.Type).NilSlice(t) (r)
  prop C18
  panics !haszero(t)
  ensures[C18] Bool: t == types.Bool ==> typeis(r, []bool) && r.([]bool) == nil
  ensures[C18] Int8: t == types.Int8 ==> typeis(r, []int8) && r.([]int8) == nil
  ensures[C18] Int16: t == types.Int16 ==> typeis(r, []int16) && r.([]int16) == nil
  ensures[C18] Int32: t == types.Int32 ==> typeis(r, []int32) && r.([]int32) == nil
  ensures[C18] Int64: t == types.Int64 ==> typeis(r, []int64) && r.([]int64) == nil
  ensures[C18] Uint8: t == types.Uint8 ==> typeis(r, []uint8) && r.([]uint8) == nil
  ensures[C18] Uint16: t == types.Uint16 ==> typeis(r, []uint16) && r.([]uint16) == nil
  ensures[C18] Uint32: t == types.Uint32 ==> typeis(r, []uint32) && r.([]uint32) == nil
  ensures[C18] Uint64: t == types.Uint64 ==> typeis(r, []uint64) && r.([]uint64) == nil
  ensures[C18] Float32: t == types.Float32 ==> typeis(r, []float32) && r.([]float32) == nil
  ensures[C18] Float64: t == types.Float64 ==> typeis(r, []float64) && r.([]float64) == nil
  ensures[C18] String: t == types.String ==> typeis(r, []string) && r.([]string) == nil
  ensures[C18] GoTime: t == types.GoTime ==> typeis(r, []time.Time) && r.([]time.Time) == nil
  ensures[C18] GoDuration: t == types.GoDuration ==> typeis(r, []time.Duration) && r.([]time.Duration) == nil
  ensures[C18] text: t == types.Time || t == types.Duration ==> typeis(r, []string) && r.([]string) == nil
func (types.Type).CanToFromFloat(t) (b)
  prop C18
  ensures[C18] b <==> numeric(t)
func (types.Type).IsInt(t) (b)
  prop C18
  ensures[C18] b <==> t == types.Int8 || t == types.Int16 || t == types.Int32 || t == types.Int64
func (types.Type).IsUint(t) (b)
  prop C18
  ensures[C18] b <==> t == types.Uint8 || t == types.Uint16 || t == types.Uint32 || t == types.Uint64
func (types.Type).IsFloat(t) (b)
  prop C18
  ensures[C18] b <==> t == types.Float32 || t == types.Float64
func (types.Type).Bits(t) (n)
  prop C18
  ensures[C18] n8: t == types.Int8 || t == types.Uint8 ==> n == 8
  ensures[C18] n16: t == types.Int16 || t == types.Uint16 ==> n == 16
  ensures[C18] n32: t == types.Int32 || t == types.Uint32 || t == types.Float32 ==> n == 32
  ensures[C18] n64: t == types.Int64 || t == types.Uint64 || t == types.Float64 ==> n == 64
  ensures[C18] other: !(numeric(t) && t != types.GoTime && t != types.GoDuration) ==> n == 0
func (types.Type).UsesSubType(t) (b)
  prop C18
  ensures[C18] b <==> t == types.List
func (types.Type).SupportsEquality(t) (b)
  prop C18
  ensures[C18] known: haszero(t) ==> b
  ensures[C18] none: t == types.List || t == types.Dist || t == types.Unknown ==> !b

func (types.Type).FromFloat(t, value) (r)
  prop C18
  mode float=rnd
  requires rep64(value)
  panics !numeric(t)
  ensures[C18] Int8: t == types.Int8 && -128.0 - 0.5 < value && value < 127.5 ==> typeis(r, int8) && nearint(r.(int8), value)
  ensures[C18] Int16: t == types.Int16 && -32768.0 - 0.5 < value && value < 32767.5 ==> typeis(r, int16) && nearint(r.(int16), value)
  ensures[C18] Int32: t == types.Int32 && -2147483648.0 - 0.5 < value && value < 2147483647.5 ==> typeis(r, int32) && nearint(r.(int32), value)
  ensures[C18] Int64: t == types.Int64 && -9223372036854775808.0 - 0.5 < value && value <= 9223372036854774784.0 ==> typeis(r, int64) && nearint(r.(int64), value)
  ensures[C18] Uint8: t == types.Uint8 && 0.0 - 0.5 < value && value < 255.5 ==> typeis(r, uint8) && nearint(r.(uint8), value)
  ensures[C18] Uint16: t == types.Uint16 && 0.0 - 0.5 < value && value < 65535.5 ==> typeis(r, uint16) && nearint(r.(uint16), value)
  ensures[C18] Uint32: t == types.Uint32 && 0.0 - 0.5 < value && value < 4294967295.5 ==> typeis(r, uint32) && nearint(r.(uint32), value)
  ensures[C18] Uint64: t == types.Uint64 && 0.0 - 0.5 < value && value <= 18446744073709549568.0 ==> typeis(r, uint64) && nearint(r.(uint64), value)
  ensures[C18] Float64: t == types.Float64 ==> typeis(r, float64) && r.(float64) == value
  ensures[C18] Float32: t == types.Float32 ==> typeis(r, float32) && r.(float32) == rnd32(value)
  ensures[C18] GoDuration: t == types.GoDuration ==> typeis(r, time.Duration)
  ensures[C18] GoDurationValue: t == types.GoDuration && -9000000000.0 < value && value < 9000000000.0 ==> close(real(r.(time.Duration)), value*1000000000.0, 0.5000001 + abs1(value*1000000000.0)/9007199254740992.0)
  ensures[C18] GoDurationExact: t == types.GoDuration ==> forall(d, int, -9007199254740992 <= d && d <= 9007199254740992 && value*1000000000.0 == real(d) ==> r.(time.Duration) == d)
  ensures[C18] GoTime: t == types.GoTime ==> typeis(r, time.Time)
  ensures[C18] GoTimeValue: t == types.GoTime && -9000000000000000000.0 < value && value < 9000000000000000000.0 ==> close(real(tns(r.(time.Time))), value*1000000000.0, 0.501)
func (types.Type).ToFloat(t, x) (r)
  prop C18
  mode float=rnd
  panics !(numeric(t) && istyped(t, x))
  ensures[C18] Int8: t == types.Int8 ==> r == rnd64(real(x.(int8)))
  ensures[C18] Int16: t == types.Int16 ==> r == rnd64(real(x.(int16)))
  ensures[C18] Int32: t == types.Int32 ==> r == rnd64(real(x.(int32)))
  ensures[C18] Int64: t == types.Int64 ==> r == rnd64(real(x.(int64)))
  ensures[C18] Uint8: t == types.Uint8 ==> r == rnd64(real(x.(uint8)))
  ensures[C18] Uint16: t == types.Uint16 ==> r == rnd64(real(x.(uint16)))
  ensures[C18] Uint32: t == types.Uint32 ==> r == rnd64(real(x.(uint32)))
  ensures[C18] Uint64: t == types.Uint64 ==> r == rnd64(real(x.(uint64)))
  ensures[C18] Float64: t == types.Float64 ==> r == x.(float64)
  ensures[C18] Float32: t == types.Float32 ==> r == x.(float32)
  ensures[C18] GoDuration: t == types.GoDuration && -9007199254740992 <= x.(time.Duration) && x.(time.Duration) <= 9007199254740992 ==> r == rnd64(real(x.(time.Duration))/1000000000.0)
  ensures[C18] GoDurationBig: t == types.GoDuration ==> close(r*1000000000.0, real(x.(time.Duration)), abs1(real(x.(time.Duration)))/2251799813685248.0 + 0.0000001)
  ensures[C18] GoTime: t == types.GoTime && tsmall(x.(time.Time)) ==> close(r*1000000000.0, real(tns(x.(time.Time))), abs1(real(tns(x.(time.Time))))/2251799813685248.0 + 0.00001)
  ensures[C18] GoTimeExact: t == types.GoTime && tsmall(x.(time.Time)) && rep64(real(tns(x.(time.Time)))/1000000000.0) ==> close(r*1000000000.0, real(tns(x.(time.Time))), 0.1)
pred tsmall(t) = -9007199254740000000000000 <= tns(t) && tns(t) <= 9007199254740000000000000

# to float and back, from the two contracts above: what FromFloat returns for what ToFloat returned
lemma float_roundtrip_int(k int, j int, r real)
  prop C18
  mode float=rnd
  requires r == rnd64(real(k)) && rnd64(real(k)) == real(k) && nearint(j, r)
  ensures j == k
lemma float_roundtrip_time(k int, j int, r real)
  prop C18
  mode float=rnd
  requires close(r*1000000000.0, real(k), 0.1) && close(real(j), r*1000000000.0, 0.501)
  ensures j == k
lemma float_roundtrip_duration(k int, r real)
  prop C18
  mode float=rnd
  requires r == rnd64(real(k)/1000000000.0) && rep64(real(k)/1000000000.0)
  ensures r*1000000000.0 == real(k)

func (duration.Duration).AsFloat(d) (r)
  prop C18
  mode float=rnd
  requires dnorm(d)
  ensures[C18] nearly: -9007199254740000 <= d.Seconds && d.Seconds <= 9007199254740000 ==> close(r*1000000000.0, real(dns(d)), abs1(real(dns(d)))/2251799813685248.0 + 0.00001)
  ensures[C18] exact: -9007199254740000 <= d.Seconds && d.Seconds <= 9007199254740000 && rep64(real(dns(d))/1000000000.0) ==> close(r*1000000000.0, real(dns(d)), 0.1)
