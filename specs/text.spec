# ---- decimal text (C16): what is assumed of strconv, fmt and strings ----
# digits(s): s is one or more decimal digits; dval(s): the number they spell; dec(n): the decimal text
# of n; decpad(9, n): padded with zeros to nine; zeros(k): k zeros
fun digits(string) bool
fun dval(string) int
fun zeros(int) string
fun pow10(int) int
fun hasprefix(string, string) bool
axiom pow10(0) == 1
axiom forall(s, string, digits(s) ==> len(s) > 0 && dval(s) >= 0)
axiom forall(s, string, trig(digits(s) && len(s) <= 9 ==> dval(s) < 1000000000, digits(s)))
axiom forall(n, int, trig(n >= 0 ==> digits(dec(n)) && dval(dec(n)) == n, dec(n)))
axiom forall(n, int, trig(0 <= n && n < 1000000000 ==> digits(decpad(9, n)) && dval(decpad(9, n)) == n && len(decpad(9, n)) == 9, decpad(9, n)))
axiom forall(k, int, trig(k >= 0 ==> len(zeros(k)) == k, zeros(k)))
axiom forall(f, string, forall(k, int, trig(digits(f) && k >= 0 ==> digits(cat(f, zeros(k))) && dval(cat(f, zeros(k))) == dval(f)*pow10(k), cat(f, zeros(k)))))
axiom forall(f, string, trig(digits(f) && len(f) >= 9 ==> digits(substr(f, 0, 9)) && dval(substr(f, 0, 9)) == dval(f)/pow10(len(f)-9), substr(f, 0, 9)))
axiom forall(s, string, hasprefix(cat("-", s), "-"))
axiom forall(s, string, trig(digits(s) ==> !hasprefix(s, "-"), hasprefix(s, "-"), digits(s)))
axiom forall(s, string, forall(u, string, trig(digits(s) ==> !hasprefix(cat(s, u), "-"), hasprefix(cat(s, u), "-"))))
axiom forall(s, string, trig(hasprefix(s, "-") ==> len(s) > 0, hasprefix(s, "-")))
extern strings.HasPrefix(s, p) (b)
  ensures b <==> hasprefix(s, p)
extern strings.Repeat(s, n) (r)
  panics n < 0
  ensures s == "0" ==> r == zeros(n)
extern strings.SplitN(s, sep, n) (r)
  ensures fresh(r) && (n > 0 ==> 1 <= len(r) && len(r) <= n)
  ensures sep == "." && n == 2 && digits(s) ==> len(r) == 1 && r[0] == s
  ensures sep == "." && n == 2 ==> forall(w, string, forall(f, string, trig(s == cat(w, ".", f) && digits(w) ==> len(r) == 2 && r[0] == w && r[1] == f, cat(w, ".", f))))
extern strconv.ParseInt(s, base, bits) (v, err)
  ensures base == 10 && (bits == 64 && dval(s) <= 9223372036854775807 || bits == 32 && dval(s) <= 2147483647) && digits(s) ==> err == nil && v == dval(s)
extern strconv.ParseUint(s, base, bits) (v, err)
  ensures base == 10 && (bits == 64 && dval(s) <= 18446744073709551615 || bits == 32 && dval(s) <= 4294967295) && digits(s) ==> err == nil && v == dval(s)
# stated(s), shownto(s): the nanoseconds a human readable duration states, and its precision
fun stated(string) int
fun shownto(string) int
axiom forall(a, int, trig(a >= 0 ==> stated(cat(dec(a), "ns")) == a && shownto(cat(dec(a), "ns")) == 1, cat(dec(a), "ns")))
axiom forall(a, int, trig(a >= 0 ==> stated(cat(dec(a), "μs")) == 1000*a && shownto(cat(dec(a), "μs")) == 1000, cat(dec(a), "μs")))
axiom forall(a, int, trig(a >= 0 ==> stated(cat(dec(a), "ms")) == 1000000*a && shownto(cat(dec(a), "ms")) == 1000000, cat(dec(a), "ms")))
axiom forall(a, int, forall(b, int, trig(a >= 0 && 0 <= b && b < 1000 ==> stated(cat(dec(a), ".", decpad(3, b), "s")) == 1000000000*a + 1000000*b && shownto(cat(dec(a), ".", decpad(3, b), "s")) == 1000000, cat(dec(a), ".", decpad(3, b), "s"))))
axiom forall(m, int, forall(a, int, forall(b, int, trig(m >= 0 && a >= 0 && 0 <= b && b < 1000 ==> stated(cat(dec(m), "m ", dec(a), ".", decpad(3, b), "s")) == 60000000000*m + 1000000000*a + 1000000*b && shownto(cat(dec(m), "m ", dec(a), ".", decpad(3, b), "s")) == 1000000, cat(dec(m), "m ", dec(a), ".", decpad(3, b), "s")))))
axiom forall(h, int, forall(m, int, forall(a, int, trig(h >= 0 && m >= 0 && a >= 0 ==> stated(cat(dec(h), "h ", dec(m), "m ", dec(a), "s")) == 3600000000000*h + 60000000000*m + 1000000000*a && shownto(cat(dec(h), "h ", dec(m), "m ", dec(a), "s")) == 1000000000, cat(dec(h), "h ", dec(m), "m ", dec(a), "s")))))
axiom forall(d, int, forall(h, int, forall(m, int, forall(a, int, trig(d >= 0 && h >= 0 && m >= 0 && a >= 0 ==> stated(cat(dec(d), "d ", dec(h), "h ", dec(m), "m ", dec(a), "s")) == 86400000000000*d + 3600000000000*h + 60000000000*m + 1000000000*a && shownto(cat(dec(d), "d ", dec(h), "h ", dec(m), "m ", dec(a), "s")) == 1000000000, cat(dec(d), "d ", dec(h), "h ", dec(m), "m ", dec(a), "s"))))))

# dtext(n): n billionths as text; dparts(w, f): the billionths that whole digits w and fraction digits f spell
def dtext(n int) string = ite(n < 0, cat("-", dec((-n)/1000000000), ".", decpad(9, (-n)%1000000000)), cat(dec(n/1000000000), ".", decpad(9, n%1000000000)))
def frac9(f string) int = ite(len(f) < 9, dval(f)*pow10(9-len(f)), dval(f)/pow10(len(f)-9))
pred dparts(w, f) = dval(w)*1000000000 + frac9(f)
pred inunit(n, u) = ite(u == units.Millisecond, n/1000, n)
pred scalable(d) = inrange(d.Seconds*1000 + 1000, int64) && inrange(d.Seconds*1000 - 1000, int64)

func (duration.Duration).String(d) (s)
  prop C16 C17
  requires dnorm(d) && d.Seconds > -9223372036854775808
  ensures[C16,C17] text: s == dtext(dns(d))
func (duration.Duration).StringUsingUnits(d, u) (s)
  prop C16 C17
  requires dnorm(d) && d.Seconds > -9223372036854775808
  ensures[C16,C17] seconds: u != units.Millisecond ==> s == dtext(dns(d))
  ensures[C16,C17] milliseconds: u == units.Millisecond && scalable(d) ==> s == dtext(1000*dns(d))
func (duration.Duration).PrettyFormat(d) (s)
  prop C16
  requires dnorm(d)
  panics dns(d) < 0
  ensures[C16] precision: shownto(s) == 1 || shownto(s) == 1000 || shownto(s) == 1000000 || shownto(s) == 1000000000
  ensures[C16] total: stated(s) == dns(d) - dns(d) % shownto(s)
func duration.ParseWithUnit(str, unit) (d, err)
  prop C16 C17
  ensures[C16,C17] fraction: forall(w, string, forall(f, string, trig(digits(w) && digits(f) && dval(w) <= 9223372036854775807 && str == cat(w, ".", f) ==> err == nil && dnorm(d) && dns(d) == inunit(dparts(w, f), unit), cat(w, ".", f))))
  ensures[C16,C17] negfraction: forall(w, string, forall(f, string, trig(digits(w) && digits(f) && dval(w) <= 9223372036854775807 && str == cat("-", w, ".", f) ==> err == nil && dnorm(d) && dns(d) == inunit(-dparts(w, f), unit), cat("-", w, ".", f))))
  ensures[C16,C17] whole: digits(str) && dval(str) <= 9223372036854775807 ==> err == nil && dnorm(d) && dns(d) == inunit(dval(str)*1000000000, unit)
  ensures[C16,C17] negwhole: forall(w, string, digits(w) && dval(w) <= 9223372036854775807 && str == cat("-", w) ==> err == nil && dnorm(d) && dns(d) == inunit(-(dval(w)*1000000000), unit))
  ensures[C16,C17] text: forall(n, int, -9223372036854775807000000000 <= n && n <= 9223372036854775807000000000 && str == dtext(n) ==> err == nil && dnorm(d) && dns(d) == inunit(n, unit))
# the text of n read back: its parts are digits and spell n
lemma text_parses_back(n int)
  prop C16
  requires n >= 0
  ensures digits(dec(n/1000000000)) && digits(decpad(9, n%1000000000)) && dparts(dec(n/1000000000), decpad(9, n%1000000000)) == n
