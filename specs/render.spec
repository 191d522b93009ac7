# ---- rendered numbers (C19) ----
# fixed(p, x): x with p digits after the point; shortest(x, bits): the shortest decimal text that reads back
# as the float of that size
fun fixed(int, float) string
fun shortest(float, int) string
extern strconv.FormatFloat@C19(x, f, p, bits) (s)
  ensures f == 102 && p == -1 ==> s == shortest(x, bits)
  ensures f == 102 && p >= 0 && bits == 64 ==> s == fixed(p, x)
extern strconv.Quote@C19(s) (r)
extern strings.HasPrefix@C19(s, p) (b)
  ensures len(p) == 1 ==> (b <==> len(s) > 0 && s[0] == p[0])
extern strings.TrimPrefix@C19(s, p) (r)
  ensures len(p) == 1 ==> r == ite(len(s) > 0 && s[0] == p[0], substr(s, 1, len(s)), s)
# decimal digits
fun isdec(int) bool
axiom forall(n, int, trig(isdec(n), dec(n)))
axiom forall(n, int, trig(1 <= len(dec(n)) && len(dec(n)) <= 60 && (n < 0 ==> len(dec(n)) >= 2 && dec(n)[0] == 45), isdec(n)))
axiom forall(n, int, forall(j, int, trig(ite(n < 0, 1, 0) <= j && j < len(dec(n)) ==> 48 <= dec(n)[j] && dec(n)[j] <= 57, isdec(n), dec(n)[j])))
# ---- buffers of bytes ----
extern bytes.Runes@C19(s) (r)
  requires ascii: forall(j, 0, len(s), s[j] < 128)
  ensures fresh(r) && off(r) == 0 && len(r) == len(s) && forall(j, 0, len(s), r[j] == s[j])
pred bkept(b) = fresh(b.buf) && off(b.buf) == 0 && b.off == old(b.off) && forall(k, 0, old(len(b.buf)), b.buf[k] == old(b.buf[k]))
extern (*bytes.Buffer).Write@C19(b, p) (n, err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + len(p) && bkept(b)
  ensures forall(k, 0, len(p), b.buf[old(len(b.buf)) + k] == p[k])
  ensures n == len(p) && err == nil
extern (*bytes.Buffer).WriteString@C19(b, p) (n, err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + len(p) && bkept(b)
  ensures forall(k, 0, len(p), b.buf[old(len(b.buf)) + k] == p[k])
  ensures n == len(p) && err == nil
extern (*bytes.Buffer).WriteRune@C19(b, r) (n, err)
  requires b != nil && 0 <= r && r < 128
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + 1 && bkept(b)
  ensures b.buf[old(len(b.buf))] == r
  ensures n == 1 && err == nil
extern (*bytes.Buffer).WriteByte@C19(b, r) (err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + 1 && bkept(b)
  ensures b.buf[old(len(b.buf))] == r
  ensures err == nil
extern (*bytes.Buffer).String@C19(b) (s)
  requires b != nil
  ensures len(s) == len(b.buf) - b.off && forall(k, 0, len(s), s[k] == b.buf[b.off + k])
# (strings.Builder likewise)
pred sbkept(b) = fresh(b.buf) && off(b.buf) == 0 && forall(k, 0, old(len(b.buf)), b.buf[k] == old(b.buf[k]))
extern (*strings.Builder).Write@C19(b, p) (n, err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + len(p) && sbkept(b)
  ensures forall(k, 0, len(p), b.buf[old(len(b.buf)) + k] == p[k])
  ensures n == len(p) && err == nil
extern (*strings.Builder).WriteString@C19(b, p) (n, err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + len(p) && sbkept(b)
  ensures forall(k, 0, len(p), b.buf[old(len(b.buf)) + k] == p[k])
  ensures n == len(p) && err == nil
extern (*strings.Builder).WriteRune@C19(b, r) (n, err)
  requires b != nil && 0 <= r && r < 128
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + 1 && sbkept(b)
  ensures b.buf[old(len(b.buf))] == r
  ensures n == 1 && err == nil
extern (*strings.Builder).WriteByte@C19(b, r) (err)
  requires b != nil
  modifies *b
  ensures len(b.buf) == old(len(b.buf)) + 1 && sbkept(b)
  ensures b.buf[old(len(b.buf))] == r
  ensures err == nil
extern (*strings.Builder).String@C19(b) (s)
  requires b != nil
  ensures len(s) == len(b.buf) && forall(k, 0, len(s), s[k] == b.buf[k])
extern (time.Time).Format@C19(t, layout) (s)
extern (time.Time).IsZero@C19(t) (b)
trusted duration.New@C19(d) (r)
  prop C19
  optional
trusted duration.SinceEpoch@C19(t) (r)
  prop C19
  optional
trusted (duration.Duration).StringUsingUnits@C19(d, u) (s)
  prop C19
  optional
trusted (duration.Duration).IsNegative@C19(d) (b)
  prop C19
  optional
trusted (duration.Duration).PrettyFormat@C19(d) (s)
  prop C19
  optional
trusted tricorder.valueToTime@C19(value, isptr) (t)
  prop C19
  optional

# ---- text ----
pred renderable(v, t, ptr) = rv_valid(v) && supported(rv_type(v)) && t == primt(rv_type(v)) && (ptr <==> rv_type(v) == rtype(*time.Time))
pred isintt(t) = t == types.Int8 || t == types.Int16 || t == types.Int32 || t == types.Int64
pred isuintt(t) = t == types.Uint8 || t == types.Uint16 || t == types.Uint32 || t == types.Uint64
# r is x of metric type t as text; as HTML with unit u
pred flo64(r, x) = r == shortest(evflt(x), 64)
pred flo32(r, x) = r == shortest(evflt(x), 32) || r == shortest(evflt(x), 64)
pred quoted(r, x) = r == cat("\"", evstr(x), "\"")
pred boolean(r, x) = r == ite(evbool(x), "true", "false")
pred textof(r, t, x) = (t == types.Bool ==> boolean(r, x)) && (isintt(t) ==> r == dec(evint(x))) && (isuintt(t) ==> r == dec(evuint(x))) && (t == types.Float64 ==> flo64(r, x)) && (t == types.Float32 ==> flo32(r, x)) && (t == types.String ==> quoted(r, x))
pred htmlof(r, t, u, x) = (t == types.Bool ==> boolean(r, x)) && (isintt(t) ==> rendered(r, evint(x), u)) && (isuintt(t) ==> rendered(r, evuint(x), u)) && (t == types.Float64 ==> flo64(r, x)) && (t == types.Float32 ==> flo32(r, x)) && (t == types.String ==> quoted(r, x))
func (types.Type).IsInt@C19(t) (b)
  prop C19
  optional
  ensures b <==> isintt(t)
func (types.Type).IsUint@C19(t) (b)
  prop C19
  optional
  ensures b <==> isuintt(t)
func tricorder.valueToTextString@C19(value, t, u, ptr) (r)
  prop C19
  optional
  mode float=real
  requires renderable(value, t, ptr)
  ensures bool: t == types.Bool ==> boolean(r, cur(value))
  ensures signed: isintt(t) ==> r == dec(evint(cur(value))) && isdec(evint(cur(value)))
  ensures unsigned: isuintt(t) ==> r == dec(evuint(cur(value))) && isdec(evuint(cur(value)))
  ensures float64: t == types.Float64 ==> flo64(r, cur(value))
  ensures float32: t == types.Float32 ==> flo32(r, cur(value))
  ensures string: t == types.String ==> quoted(r, cur(value))

# ---- HTML ----
# with at least three significant digits
pred sig3(r, y, suffix) = r == cat(fixed(2, y), suffix) || (y >= 9.96 || y <= -9.96) && r == cat(fixed(1, y), suffix) || (y >= 99.6 || y <= -99.6) && r == cat(fixed(0, y), suffix) || r == cat(fixed(3, y), suffix)
pred below(x, m) = -m < x && x < m
pred scaledto(r, x, q, s1, s2, s3, s4, s5, s6) = ite(below(x, q), r == dec(x),
  ite(below(x, q*q), sig3(r, real(x)/q, s1), ite(below(x, q*q*q), sig3(r, real(x)/(q*q), s2), ite(below(x, q*q*q*q), sig3(r, real(x)/(q*q*q), s3),
  ite(below(x, q*q*q*q*q), sig3(r, real(x)/(q*q*q*q), s4), ite(below(x, q*q*q*q*q*q), sig3(r, real(x)/(q*q*q*q*q), s5), sig3(r, real(x)/(q*q*q*q*q*q), s6)))))))
pred seps(n, i) = smt("div", "int", n-1, 3) - smt("div", "int", n-1-i, 3)
# r is the text s of a number (its digits start at a) with a comma between groups of three
pred grouped(r, s, a) = len(r) == len(s) + smt("div", "int", len(s)-a-1, 3) && (a == 1 ==> r[0] == 45)
  && forall(j, a, len(s), trig(r[j + seps(len(s)-a, j-a)] == s[j], s[j]))
  && forall(j, a+1, len(s), trig(smt("mod", "int", len(s)-j, 3) == 0 ==> r[j + seps(len(s)-a, j-a) - 1] == 44 && 48 <= s[j], s[j]))
pred rendered(r, x, u) = ite(u == units.None, grouped(r, dec(x), ite(x < 0, 1, 0)), ite(u == units.Byte, scaledto(r, x, 1024, " KiB", " MiB", " GiB", " TiB", " PiB", " EiB"),
  ite(u == units.BytePerSecond, scaledto(r, x, 1024, " KiB/s", " MiB/s", " GiB/s", " TiB/s", " PiB/s", " EiB/s"), scaledto(r, x, 1000, " thousand", " million", " billion", " trillion", "K trillion", "M trillion"))))
pred d0(s) = ite(s[0] == 45, 1, 0)
pred nd(s) = len(s) - ite(s[0] == 45, 1, 0)
func tricorder.addSeparators@C19(orig, separator, digitsBetween) (r)
  prop C19
  optional
  requires separator == 44 && digitsBetween == 3 && nd(orig) > 0 && len(orig) > 0 && forall(j, d0(orig), len(orig), 48 <= orig[j] && orig[j] <= 57)
  ensures length: len(r) == len(orig) + smt("div", "int", nd(orig)-1, 3)
  ensures sign: d0(orig) == 1 ==> r[0] == 45
  ensures digits: forall(j, d0(orig), len(orig), trig(r[j + seps(nd(orig), j-d0(orig))] == orig[j], orig[j]))
  ensures commas: forall(j, d0(orig)+1, len(orig), trig(smt("mod", "int", len(orig)-j, 3) == 0 ==> r[j + seps(nd(orig), j-d0(orig)) - 1] == 44 && 48 <= orig[j], orig[j]))
  inv <k int, b ~*bytes.Buffer> -1 <= k && k+1 <= nd(orig)
  inv <k int, b ~*bytes.Buffer> off(b.buf) == 0 && b.off == 0 && len(b.buf) == d0(orig) + k+1 + ite(k+1 <= 0, 0, seps(nd(orig), k+1-1))
  inv <k int, b ~*bytes.Buffer> forall(j, d0(orig), d0(orig)+k+1, trig(b.buf[j + seps(nd(orig), j-d0(orig))] == orig[j], orig[j]))
  inv <k int, b ~*bytes.Buffer> forall(j, d0(orig)+1, d0(orig)+k+1, trig(smt("mod", "int", len(orig)-j, 3) == 0 ==> b.buf[j + seps(nd(orig), j-d0(orig)) - 1] == 44 && 48 <= orig[j], orig[j]))
  inv <k int, b ~*bytes.Buffer> 0 <= k && k <= nd(orig)
  inv <k int, b ~*bytes.Buffer> off(b.buf) == 0 && b.off == 0 && len(b.buf) == d0(orig) + k + ite(k <= 0, 0, seps(nd(orig), k-1))
  inv <k int, b ~*bytes.Buffer> forall(j, d0(orig), d0(orig)+k, trig(b.buf[j + seps(nd(orig), j-d0(orig))] == orig[j], orig[j]))
  inv <k int, b ~*bytes.Buffer> forall(j, d0(orig)+1, d0(orig)+k, trig(smt("mod", "int", len(orig)-j, 3) == 0 ==> b.buf[j + seps(nd(orig), j-d0(orig)) - 1] == 44 && 48 <= orig[j], orig[j]))
  inv <k int, b ~*bytes.Buffer> d0(orig) == 1 ==> len(b.buf) > 0 && b.buf[0] == 45
  inv <k int, b ~*strings.Builder> -1 <= k && k+1 <= nd(orig)
  inv <k int, b ~*strings.Builder> off(b.buf) == 0 && len(b.buf) == d0(orig) + k+1 + ite(k+1 <= 0, 0, seps(nd(orig), k+1-1))
  inv <k int, b ~*strings.Builder> forall(j, d0(orig), d0(orig)+k+1, trig(b.buf[j + seps(nd(orig), j-d0(orig))] == orig[j], orig[j]))
  inv <k int, b ~*strings.Builder> forall(j, d0(orig)+1, d0(orig)+k+1, trig(smt("mod", "int", len(orig)-j, 3) == 0 ==> b.buf[j + seps(nd(orig), j-d0(orig)) - 1] == 44 && 48 <= orig[j], orig[j]))
  inv <k int, b ~*strings.Builder> 0 <= k && k <= nd(orig)
  inv <k int, b ~*strings.Builder> off(b.buf) == 0 && len(b.buf) == d0(orig) + k + ite(k <= 0, 0, seps(nd(orig), k-1))
  inv <k int, b ~*strings.Builder> forall(j, d0(orig), d0(orig)+k, trig(b.buf[j + seps(nd(orig), j-d0(orig))] == orig[j], orig[j]))
  inv <k int, b ~*strings.Builder> forall(j, d0(orig)+1, d0(orig)+k, trig(smt("mod", "int", len(orig)-j, 3) == 0 ==> b.buf[j + seps(nd(orig), j-d0(orig)) - 1] == 44 && 48 <= orig[j], orig[j]))
  inv <k int, b ~*strings.Builder> d0(orig) == 1 ==> len(b.buf) > 0 && b.buf[0] == 45
def html_of(r string, t string, u string, x iface) bool = htmlof(r, t, u, x)
func tricorder.valueToHtmlString@C19(value, t, u, ptr) (r)
  prop C19
  optional
  mode float=real
  unroll 7
  requires renderable(value, t, ptr)
  ensures bool: t == types.Bool ==> boolean(r, cur(value))
  ensures float64: t == types.Float64 ==> flo64(r, cur(value))
  ensures float32: t == types.Float32 ==> flo32(r, cur(value))
  ensures string: t == types.String ==> quoted(r, cur(value))
  ensures signed: isintt(t) ==> rendered(r, evint(cur(value)), u)
  ensures unsigned: isuintt(t) ==> rendered(r, evuint(cur(value)), u)
  ensures html: html_of(r, t, u, cur(value))

# ---- what the pages show ----
# (C13 proves this of evaluate)
trusted (*tricorder.value).evaluate@C19(v, s) (r)
  prop C19
  optional
  requires v != nil && sess(s) && ready(v)
  modifies mapof(s.visitedRegions), anychan(), callsum, cont
  ensures given13(v, r) && rv_valid(r) && rv_type(r) == readt(v)
func (*tricorder.value).AsTextString@C19(v, s) (r)
  prop C19
  optional
  mode float=real
  requires v != nil && sess(s) && ready(v) && onevalue(v)
  modifies mapof(s.visitedRegions), anychan(), callsum, cont
  ensures text: exists(e, rv, given13(v, e) && textof(r, v.valType, cur(e)))
func (*tricorder.value).AsHtmlString@C19(v, s) (r)
  prop C19
  optional
  mode float=real
  requires v != nil && sess(s) && ready(v) && onevalue(v)
  modifies mapof(s.visitedRegions), anychan(), callsum, cont
  ensures html: exists(e, rv, given13(v, e) && htmlof(r, v.valType, v.unit, cur(e)))
func (*tricorder.listType).TextStrings@C19(l, u) (r)
  prop C19
  optional
  mode float=real
  requires l != nil && listok(l) && hasgo(l.subType)
  modifies l.lock
  ensures all: len(r) == rv_len(l.aSlice) && fresh(r)
  ensures text: forall(i, 0, len(r), textof(r[i], l.subType, E_(l.aSlice, i)))
  inv <k int, r ~[]string> k < rv_len(l.aSlice) && len(r) == rv_len(l.aSlice) && lockstate(l.lock) == 0
  inv <k int, r ~[]string> forall(i, 0, k+1, textof(r[i], l.subType, E_(l.aSlice, i)))
  inv <k int, r ~[]string> forall(i, 0, k, textof(r[i], l.subType, E_(l.aSlice, i)))
func (*tricorder.listType).HtmlStrings@C19(l, u) (r)
  prop C19
  optional
  mode float=real
  requires l != nil && listok(l) && hasgo(l.subType)
  modifies l.lock
  ensures all: len(r) == rv_len(l.aSlice) && fresh(r)
  ensures html: forall(i, 0, len(r), html_of(r[i], l.subType, u, E_(l.aSlice, i)))
  inv <k int, r ~[]string> k < rv_len(l.aSlice) && len(r) == rv_len(l.aSlice) && lockstate(l.lock) == 0
  inv <k int, r ~[]string> forall(i, 0, k+1, html_of(r[i], l.subType, u, E_(l.aSlice, i)))
  inv <k int, r ~[]string> forall(i, 0, k, html_of(r[i], l.subType, u, E_(l.aSlice, i)))
