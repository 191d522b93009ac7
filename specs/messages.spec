# ---- package messages: conversion between the Go RPC and the JSON form of a metric (C17) ----
extern reflect.MakeSlice(t, n, c) (v)
  maypanic
pred scaled(n, u) = ite(u == units.Millisecond, 1000*n, n)
pred tzero(t) = tns(t) == -62135596800000000000
# times whose count of seconds (or milliseconds) is representable
pred trange(t) = -9223372036854770000000000 <= tns(t) && tns(t) <= 9223372036854770000000000
def tjson(t time, u string) string = ite(tzero(t), dtext(0), dtext(scaled(tns(t), u)))
# the value is of the Go type its kind names
pred wellformed(k, s, v) = (k == types.GoDuration ==> typeis(v, time.Duration)) && (k == types.GoTime ==> typeis(v, time.Time) && trange(v.(time.Time)))
  && (k == types.List && s == types.GoDuration ==> typeis(v, []time.Duration))
  && (k == types.List && s == types.GoTime ==> typeis(v, []time.Time) && forall(j, off(v.([]time.Time)), off(v.([]time.Time)) + len(v.([]time.Time)), trange(elems(v.([]time.Time))[j])))
  && (k != types.List ==> s == types.Unknown)
pred goonly(k, s) = k == types.GoDuration || k == types.GoTime || k == types.List && (s == types.GoDuration || s == types.GoTime)
pred jsononly(k, s) = k == types.Duration || k == types.Time || k == types.List && (s == types.Duration || s == types.Time)

func messages.AsJsonWithSubType(v, k, s, u) (r, rk, rs)
  prop C17
  maypanic
  requires wellformed(k, s, v)
  inv <p int, r ~[]string, d ~[]time.Duration> forall(j, 0, p, r[j] == dtext(scaled(d[j], u)))
  inv <p int, r ~[]string, d ~[]time.Duration> forall(j, 0, p+1, r[j] == dtext(scaled(d[j], u)))
  inv <p int, r ~[]string, d ~[]time.Time> forall(j, 0, p, r[j] == tjson(d[j], u))
  inv <p int, r ~[]string, d ~[]time.Time> forall(j, 0, p+1, r[j] == tjson(d[j], u))
  ensures[C17] duration: k == types.GoDuration ==> rk == types.Duration && rs == types.Unknown && typeis(r, string) && r.(string) == dtext(scaled(v.(time.Duration), u))
  ensures[C17] time: k == types.GoTime ==> rk == types.Time && rs == types.Unknown && typeis(r, string) && r.(string) == tjson(v.(time.Time), u)
  ensures[C17] durations: k == types.List && s == types.GoDuration ==> rk == types.List && rs == types.Duration && typeis(r, []string) && len(r.([]string)) == len(v.([]time.Duration))
     && forall(i, 0, len(r.([]string)), r.([]string)[i] == dtext(scaled(v.([]time.Duration)[i], u)))
  ensures[C17] times: k == types.List && s == types.GoTime ==> rk == types.List && rs == types.Time && typeis(r, []string) && len(r.([]string)) == len(v.([]time.Time))
     && forall(i, 0, len(r.([]string)), r.([]string)[i] == tjson(v.([]time.Time)[i], u))
  ensures[C17] other: !goonly(k, s) ==> rk == k && rs == s && (k == types.List && rv_nil(rv_of(v)) || r == v)

# dtextval(s): the number of billionths whose text s is (dtext is one to one)
fun dtextval(string) int
axiom forall(n, int, trig(dtextval(dtext(n)) == n, dtext(n)))
pred durtext(s, u) = s == dtext(dtextval(s)) && -9223372036854775807000000000 <= dtextval(s) && dtextval(s) <= 9223372036854775807000000000 && inrange(inunit(dtextval(s), u), int64)
pred timetext(s, u) = s == dtext(dtextval(s)) && -9223372036854775800000000000 <= dtextval(s) && dtextval(s) <= 9223372036854775800000000000
pred goodjson(k, s, v, u) = (k == types.Duration ==> typeis(v, string) && durtext(v.(string), u)) && (k == types.Time ==> typeis(v, string) && timetext(v.(string), u))
  && (k == types.List && s == types.Duration ==> typeis(v, []string) && forall(j, off(v.([]string)), off(v.([]string)) + len(v.([]string)), durtext(elems(v.([]string))[j], u)))
  && (k == types.List && s == types.Time ==> typeis(v, []string) && forall(j, off(v.([]string)), off(v.([]string)) + len(v.([]string)), timetext(elems(v.([]string))[j], u)))
pred goodstamp(t) = t == nil || typeis(t, time.Time) || typeis(t, string) && (t.(string) == "" || timetext(t.(string), units.Second))
pred sameform(m) = m.Value == old(m.Value) && m.Kind == old(m.Kind) && m.SubType == old(m.SubType)

func (*messages.Metric).ConvertToGoRPC(m) (err)
  prop C17
  modifies m.Value, m.Kind, m.SubType, m.TimeStamp
  inv <p int, r ~[]time.Duration, s ~[]string> forall(j, 0, p, durtext(s[j], m.Unit) ==> r[j] == inunit(dtextval(s[j]), m.Unit))
  inv <p int, r ~[]time.Duration, s ~[]string> forall(j, 0, p+1, durtext(s[j], m.Unit) ==> r[j] == inunit(dtextval(s[j]), m.Unit))
  inv <p int, r ~[]time.Time, s ~[]string> forall(j, 0, p, timetext(s[j], m.Unit) ==> tns(r[j]) == inunit(dtextval(s[j]), m.Unit))
  inv <p int, r ~[]time.Time, s ~[]string> forall(j, 0, p+1, timetext(s[j], m.Unit) ==> tns(r[j]) == inunit(dtextval(s[j]), m.Unit))
  inv <e error> e == nil
  ensures[C17] unchanged: err != nil ==> sameform(m) && m.TimeStamp == old(m.TimeStamp)
  ensures[C17] converts: old(goodjson(m.Kind, m.SubType, m.Value, m.Unit)) && old(goodstamp(m.TimeStamp)) ==> err == nil
  ensures[C17] duration: err == nil && old(m.Kind) == types.Duration ==> m.Kind == types.GoDuration && m.SubType == types.Unknown && typeis(m.Value, time.Duration)
    && typeis(old(m.Value), string) && (durtext(old(m.Value).(string), m.Unit) ==> m.Value.(time.Duration) == inunit(dtextval(old(m.Value).(string)), m.Unit))
  ensures[C17] time: err == nil && old(m.Kind) == types.Time ==> m.Kind == types.GoTime && m.SubType == types.Unknown && typeis(m.Value, time.Time)
    && typeis(old(m.Value), string) && (timetext(old(m.Value).(string), m.Unit) ==> tns(m.Value.(time.Time)) == inunit(dtextval(old(m.Value).(string)), m.Unit))
  ensures[C17] durations: err == nil && old(m.Kind) == types.List && old(m.SubType) == types.Duration ==> m.Kind == types.List && m.SubType == types.GoDuration && typeis(m.Value, []time.Duration)
    && typeis(old(m.Value), []string) && len(m.Value.([]time.Duration)) == len(old(m.Value).([]string))
    && forall(i, 0, len(old(m.Value).([]string)), durtext(old(m.Value.([]string)[i]), m.Unit) ==> m.Value.([]time.Duration)[i] == inunit(dtextval(old(m.Value.([]string)[i])), m.Unit))
  ensures[C17] times: err == nil && old(m.Kind) == types.List && old(m.SubType) == types.Time ==> m.Kind == types.List && m.SubType == types.GoTime && typeis(m.Value, []time.Time)
    && typeis(old(m.Value), []string) && len(m.Value.([]time.Time)) == len(old(m.Value).([]string))
    && forall(i, 0, len(old(m.Value).([]string)), timetext(old(m.Value.([]string)[i]), m.Unit) ==> tns(m.Value.([]time.Time)[i]) == inunit(dtextval(old(m.Value.([]string)[i])), m.Unit))
  ensures[C17] other: err == nil && !jsononly(old(m.Kind), old(m.SubType)) ==> m.Value == old(m.Value) && m.Kind == old(m.Kind) && m.SubType == ite(m.Kind == types.List, old(m.SubType), types.Unknown)
  ensures[C17] stamp: err == nil && (old(m.TimeStamp) == nil || typeis(old(m.TimeStamp), time.Time)) ==> m.TimeStamp == old(m.TimeStamp)
  ensures[C17] nostamp: err == nil && typeis(old(m.TimeStamp), string) && old(m.TimeStamp).(string) == "" ==> m.TimeStamp == nil
  ensures[C17] stamptext: err == nil && typeis(old(m.TimeStamp), string) && old(m.TimeStamp).(string) != "" && timetext(old(m.TimeStamp).(string), units.Second) ==> typeis(m.TimeStamp, time.Time) && tns(m.TimeStamp.(time.Time)) == dtextval(old(m.TimeStamp).(string))
  ensures[C17] onlystamps: err == nil ==> old(m.TimeStamp) == nil || typeis(old(m.TimeStamp), time.Time) || typeis(old(m.TimeStamp), string)

func (*messages.Metric).ConvertToJson(m)
  prop C17
  maypanic
  modifies m.Value, m.Kind, m.SubType, m.TimeStamp
  requires wellformed(m.Kind, m.SubType, m.Value)
  requires typeis(m.TimeStamp, time.Time) ==> trange(m.TimeStamp.(time.Time))
  inv <p int, r ~[]string, d ~[]time.Duration> forall(j, 0, p, r[j] == dtext(scaled(d[j], m.Unit)))
  inv <p int, r ~[]string, d ~[]time.Duration> forall(j, 0, p+1, r[j] == dtext(scaled(d[j], m.Unit)))
  inv <p int, r ~[]string, d ~[]time.Time> forall(j, 0, p, r[j] == tjson(d[j], m.Unit))
  inv <p int, r ~[]string, d ~[]time.Time> forall(j, 0, p+1, r[j] == tjson(d[j], m.Unit))
  ensures[C17] duration: old(m.Kind) == types.GoDuration ==> m.Kind == types.Duration && m.SubType == types.Unknown && typeis(m.Value, string) && m.Value.(string) == dtext(scaled(old(m.Value).(time.Duration), m.Unit))
  ensures[C17] time: old(m.Kind) == types.GoTime ==> m.Kind == types.Time && m.SubType == types.Unknown && typeis(m.Value, string) && m.Value.(string) == tjson(old(m.Value).(time.Time), m.Unit)
  ensures[C17] durations: old(m.Kind) == types.List && old(m.SubType) == types.GoDuration ==> m.Kind == types.List && m.SubType == types.Duration && typeis(m.Value, []string) && len(m.Value.([]string)) == len(old(m.Value).([]time.Duration))
     && forall(i, 0, len(m.Value.([]string)), m.Value.([]string)[i] == dtext(scaled(old(m.Value.([]time.Duration)[i]), m.Unit)))
  ensures[C17] times: old(m.Kind) == types.List && old(m.SubType) == types.GoTime ==> m.Kind == types.List && m.SubType == types.Time && typeis(m.Value, []string) && len(m.Value.([]string)) == len(old(m.Value).([]time.Time))
     && forall(i, 0, len(m.Value.([]string)), m.Value.([]string)[i] == tjson(old(m.Value.([]time.Time)[i]), m.Unit))
  ensures[C17] other: !goonly(old(m.Kind), old(m.SubType)) ==> m.Kind == old(m.Kind) && m.SubType == old(m.SubType) && (m.Kind == types.List && rv_nil(rv_of(old(m.Value))) || m.Value == old(m.Value))
  ensures[C17] stamp: typeis(old(m.TimeStamp), time.Time) ==> typeis(m.TimeStamp, string) && m.TimeStamp.(string) == dtext(tns(old(m.TimeStamp).(time.Time)))
  ensures[C17] nostamp: old(m.TimeStamp) == nil ==> typeis(m.TimeStamp, string) && m.TimeStamp.(string) == ""
  ensures[C17] stamptext: typeis(old(m.TimeStamp), string) ==> m.TimeStamp == old(m.TimeStamp)

# to JSON and back, over the two contracts: the text ConvertToJson produces is one ConvertToGoRPC accepts, and it gives the value back
lemma json_duration_back(n int, u string, s string)
  prop C17
  requires inrange(n, int64) && s == dtext(scaled(n, u))
  ensures durtext(s, u) && inunit(dtextval(s), u) == n
lemma json_time_back(t time, u string, s string)
  prop C17
  requires trange(t) && !tzero(t) && s == tjson(t, u)
  ensures timetext(s, u) && inunit(dtextval(s), u) == tns(t)
lemma json_stamp_back(t time, s string)
  prop C17
  requires trange(t) && s == dtext(tns(t))
  ensures timetext(s, units.Second) && dtextval(s) == tns(t)
