# Assumed contracts on the Go standard library (never verified here; each use is reported in evidence).

# ---- time: an instant is an absolute number of nanoseconds since the Unix epoch ----
fun tns(time) int
fun tutc(time) bool

extern (time.Time).Unix(t) (s)
  ensures s*1000000000 <= tns(t) && tns(t) < (s+1)*1000000000
extern (time.Time).Nanosecond(t) (n)
  ensures 0 <= n && n < 1000000000
  ensures exists(q, int, tns(t) == q*1000000000 + n)
extern time.Unix(sec, nsec) (t)
  ensures inrange(sec + nsec/1000000000 - 1, int64) && inrange(sec + nsec/1000000000 + 1, int64) ==> tns(t) == sec*1000000000 + nsec
extern (time.Time).UTC(t) (r)
  ensures tns(r) == tns(t)
extern (time.Time).IsZero(t) (b)
  ensures b <==> tns(t) == -62135596800000000000
extern (time.Time).Equal(t, u) (b)
  ensures b <==> tns(t) == tns(u)
extern (time.Time).Sub(t, u) (d)

# ---- writers: what has been written so far, and the HTTP status sent (0: none yet) ----
ghost wbody map(iface,string)
ghost wcode map(iface,int)
ghost wroute map(string,int)

pred wsent(w) = ite(old(wcode[w]) == 0, 200, old(wcode[w]))

extern (http.ResponseWriter).Write(w, p) (n, err)
  modifies wbody[w], wcode[w]
  ensures wbody[w] == cat(old(wbody[w]), strof(p)) && wcode[w] == wsent(w)
extern (http.ResponseWriter).WriteHeader(w, code)
  modifies wcode[w]
  ensures wcode[w] == ite(old(wcode[w]) == 0, code, old(wcode[w]))
extern io.WriteString(w, s) (n, err)
  modifies wbody[w], wcode[w]
  ensures wbody[w] == cat(old(wbody[w]), s) && wcode[w] == wsent(w)
extern http.Error(w, msg, code)
  modifies wbody[w], wcode[w]
  ensures wbody[w] == cat(old(wbody[w]), msg, "\n") && wcode[w] == ite(old(wcode[w]) == 0, code, old(wcode[w]))
extern http.HandleFunc(pattern, f)
  modifies wroute
  ensures wroute == store(old(wroute), pattern, ref(f))

# the last reading of the clock
ghost lastnow time
extern time.Now() (t)
  modifies lastnow
  ensures lastnow == t

# ---- flags: the program's own code; assumed not to call back into this library ----
extern (flag.Getter).Get(f) (v)
  maypanic
extern (flag.Getter).String(f) (v)
  maypanic
extern (flag.Value).String(f) (v)
  maypanic

# ---- reflection: reflect.Type values are opaque; what they say is a function of the type ----
fun rv_of(iface) rv
fun rv_type(rv) iface
fun rv_elem(rv) rv
fun rt_kind(iface) int
fun rt_numout(iface) int
fun rt_numin(iface) int
fun rt_out(iface, int) iface
fun rt_in(iface, int) iface
fun rt_elem(iface) iface
fun rv_valid(rv) bool
extern reflect.ValueOf(i) (v)
  ensures v == rv_of(i)
extern reflect.TypeOf(i) (t)
  ensures t == rv_type(rv_of(i))
extern (reflect.Value).Type(v) (t)
  maypanic
  ensures t == rv_type(v) && t != nil
extern (reflect.Value).Elem(v) (e)
  maypanic
  ensures e == rv_elem(v)
extern (reflect.Value).IsValid(v) (b)
  ensures b == rv_valid(v)
extern (reflect.Type).Kind(t) (k)
  ensures k == rt_kind(t)
extern (reflect.Type).NumOut(t) (n)
  maypanic
  ensures n == rt_numout(t) && n >= 0
extern (reflect.Type).NumIn(t) (n)
  maypanic
  ensures n == rt_numin(t) && n >= 0
fun rt_variadic(iface) bool
extern (reflect.Type).IsVariadic(t) (b)
  maypanic
  ensures b == rt_variadic(t)
fun rv_nil(rv) bool
extern (reflect.Value).IsNil(v) (b)
  maypanic
  ensures b == rv_nil(v)
extern (reflect.Type).Out(t, i) (o)
  maypanic
  ensures o == rt_out(t, i) && o != nil
extern (reflect.Type).In(t, i) (o)
  maypanic
  ensures o == rt_in(t, i) && o != nil
extern (reflect.Type).Elem(t) (o)
  maypanic
  ensures o == rt_elem(t) && o != nil
# what a call of a function value returned, what a reading of a value gave;
# callsum: what had been sent on every channel when the last call was made
fun callres(rv, rv) bool
fun readf(rv, float) bool
fun readi(rv, int) bool
fun readu(rv, int) bool
fun reads(rv, string) bool
fun readb(rv, bool) bool
fun readx(rv, iface) bool
ghost callsum arr(int)
extern (reflect.Value).Call(v, in) (out)
  maypanic
  modifies callsum
  ensures callsum == sums()
  ensures fresh(out) && forall(i, 0, len(out), callres(v, out[i]))
extern (reflect.Value).Float(v) (f)
  maypanic
  ensures readf(v, f)
extern (reflect.Value).Int(v) (f)
  maypanic
  ensures readi(v, f)
extern (reflect.Value).Uint(v) (f)
  maypanic
  ensures readu(v, f)
extern (reflect.Value).String(v) (f)
  maypanic
  ensures reads(v, f)
extern (reflect.Value).Bool(v) (f)
  maypanic
  ensures readb(v, f)
extern (reflect.Value).Interface(v) (f)
  maypanic
  ensures readx(v, f)
extern (reflect.Value).Len(v) (n)
  maypanic
  ensures n >= 0 && n == rv_len(v)
extern (reflect.Value).Index(v, i) (e)
  maypanic
  ensures e == rv_index(v, i)
fun rv_len(rv) int
fun rv_index(rv, int) rv
