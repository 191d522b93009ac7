# ---- C21: what RPC and REST answer ----
# mpath(m): the address of metric m (which one that is: C04)
fun mpath(int) string
trusted (*tricorder.metric).AbsPath@C21(m) (s)
  prop C21
  maypanic
  ensures s == mpath(ref(m))
trusted (*tricorder.metric).AbsPath@C13(m) (s)
  prop C13
  ensures s == mpath(ref(m))
pred form(m, r) = hp(messages.Metric.Path)[r] == mpath(m) && hp(messages.Metric.Description)[r] == hp(tricorder.metric.Description)[m]
  && hp(messages.Metric.Unit)[r] == hp(tricorder.value.unit)[hp(tricorder.metric.value)[m]]
pred rpcform(m, r) = form(m, r) && hp(messages.Metric.Kind)[r] == hp(tricorder.value.valType)[hp(tricorder.metric.value)[m]]
pred jsonform(m, r) = form(m, r) && !goonly(hp(messages.Metric.Kind)[r], hp(messages.Metric.SubType)[r])
# the collector's list before, plus metric m
pred keptl(c) = forall(i, int, trig(off(*c) <= i && i < off(*c) + old(len(*c)) ==> elems(*c)[i] == old(elems(*c))[i - off(*c) + old(off(*c))], elems(*c)[i]))
pred last(c) = elems(*c)[off(*c) + old(len(*c))]
pred one(c) = len(*c) == old(len(*c)) + 1 && (*c) != nil && keptl(c) && 0 < last(c) && last(c) < next() && wbody == old(wbody) && wcode == old(wcode)
pred oneR(c, m) = one(c) && rpcform(ref(m), last(c))
pred oneJ(c, m) = one(c) && jsonform(ref(m), last(c))
# .. plus those collected since
pred nth_(c, n) = elems(*c)[off(*c) + old(len(*c)) + n - old(coln)]
pred grown(c) = (old((*c) != nil) ==> (*c) != nil) && len(*c) == old(len(*c)) + coln - old(coln) && keptl(c) && wbody == old(wbody) && wcode == old(wcode) && noerrs(old(coln), coln)
pred grownR(c) = grown(c) && forall(n, int, trig(old(coln) <= n && n < coln ==> 0 < nth_(c, n) && nth_(c, n) < next() && rpcform(cola(n), nth_(c, n)), cola(n)))
pred grownJ(c) = grown(c) && forall(n, int, trig(old(coln) <= n && n < coln ==> 0 < nth_(c, n) && nth_(c, n) < next() && jsonform(cola(n), nth_(c, n)), cola(n)))
pred isR(c) = typeis(c, *tricorder.rpcMetricsCollector)
pred isJ(c) = typeis(c, *tricorder.jsonMetricsCollector)
pred R_(c) = c.(*tricorder.rpcMetricsCollector)
pred J_(c) = c.(*tricorder.jsonMetricsCollector)
pred growing1(c) = coln >= old(coln) && (isR(c) ==> grown(R_(c))) && (isJ(c) ==> grown(J_(c)))
pred growing2(c) = isR(c) ==> forall(n, int, trig(old(coln) <= n && n < coln ==> 0 < nth_(R_(c), n) && nth_(R_(c), n) < next() && rpcform(cola(n), nth_(R_(c), n)), cola(n)))
pred growing3(c) = isJ(c) ==> forall(n, int, trig(old(coln) <= n && n < coln ==> 0 < nth_(J_(c), n) && nth_(J_(c), n) < next() && jsonform(cola(n), nth_(J_(c), n)), cola(n)))

func (*tricorder.rpcType).ListMetrics@C21(t, path, response) (err)
  prop C21
  maypanic
  requires wf_regs() && nolocks() && wf_root() && reg_ok() && response != nil
  modifies_all
  ensures[C21] listing: listing(old(root), path, err) && single_listing(old(root), path, err) && no_listing(old(root), path, err)
  ensures[C21] response: grownR(response)
  ensures[C21] error: err == nil
func (*tricorder.rpcType).GetMetric@C21(t, path, response) (err)
  prop C21
  uses res_arr
  maypanic
  requires wf_regs() && nolocks() && wf_root() && reg_ok() && response != nil
  modifies_all
  ensures[C21] not_found: old(pmet(root, path)) == 0 ==> err == old(messages.ErrMetricNotFound)
  ensures[C21] found: old(pmet(root, path)) != 0 ==> err == nil && rpcform(old(pmet(root, path)), ref(response))
pred asksone(r) = uvget(ref(r.Form), "singleton") != ""
func tricorder.jsonHandlerFunc@C21(w, r)
  prop C21
  uses res_arr
  optional
  maypanic
  requires wf_regs() && nolocks() && wf_root() && reg_ok() && w != nil && wcode[w] == 0 && wbody[w] == ""
  modifies_all
  ensures[C21] not_found: asksone(r) && old(pmet(root, r.URL.Path)) == 0 ==> wcode[w] == 404
  ensures[C21] found: asksone(r) && old(pmet(root, r.URL.Path)) != 0 ==> jsonn == old(jsonn) + 1 && typeis(jsonval, *messages.Metric) && jsonform(old(pmet(root, r.URL.Path)), ref(jsonval.(*messages.Metric)))
  ensures[C21] list: !asksone(r) ==> jsonn == old(jsonn) + 1 && typeis(jsonval, tricorder.jsonMetricsCollector) && jsonval.(tricorder.jsonMetricsCollector) != nil && len(jsonval.(tricorder.jsonMetricsCollector)) == coln - old(coln)
      && forall(n, int, trig(old(coln) <= n && n < coln ==> jsonform(cola(n), elems(jsonval.(tricorder.jsonMetricsCollector))[off(jsonval.(tricorder.jsonMetricsCollector)) + n - old(coln)]), cola(n)))
  ensures[C21] listing: !asksone(r) ==> exists(err, iface, listing(old(root), old(r.URL.Path), err) && single_listing(old(root), old(r.URL.Path), err) && no_listing(old(root), old(r.URL.Path), err))
  ensures[C21] body: jsonn == old(jsonn) + 1 && jsonerr(old(jsonn)) == nil ==> wcode[w] == 200 && wbody[w] == indented(jsontext(old(jsonn))) && whdr[hdrof(w)]["Content-Type"] == "application/json"

# ---- gzip ----
fun hassub(string, string) bool
extern strings.Contains(s, t) (b)
  ensures b == hassub(s, t)
ghost servedn int
fun servedw(int) iface
fun servedr(int) int
fun servedenc(int) map(int,map(string,string))
fun gzover(int) iface
ghost gzclosed map(int,bool)
extern (http.Handler).ServeHTTP(h, w, r)
  maypanic
  modifies_all
  ensures servedn == old(servedn) + 1 && servedw(old(servedn)) == w && servedr(old(servedn)) == ref(r) && servedenc(old(servedn)) == old(whdr)
extern gzip.NewWriter(w) (z)
  ensures fresh(z) && gzover(ref(z)) == w
extern (*gzip.Writer).Close(z) (err)
  modifies gzclosed[ref(z)]
  ensures gzclosed[ref(z)]
func (tricorder.gzipHandler).ServeHTTP(h, w, r)
  prop C21
  optional
  maypanic
  requires w != nil && r != nil && (typeis(w, *tricorder.gzipResponseWriter) ==> 0 <= ref(w.(*tricorder.gzipResponseWriter)) && ref(w.(*tricorder.gzipResponseWriter)) < next())
  modifies_all
  ensures[C21] once: servedn == old(servedn) + 1 && servedr(old(servedn)) == ref(r)
  ensures[C21] plain: !hassub(old(hget(ref(r.Header), "Accept-Encoding")), "gzip") ==> servedw(old(servedn)) == w && servedenc(old(servedn)) == old(whdr)
  ensures[C21] gzip: hassub(old(hget(ref(r.Header), "Accept-Encoding")), "gzip") ==> servedenc(old(servedn))[hdrof(w)]["Content-Encoding"] == "gzip"
  ensures[C21] closed: hassub(old(hget(ref(r.Header), "Accept-Encoding")), "gzip") ==> exists(z, int, gzover(z) == w && gzclosed[z]) && servedw(old(servedn)) != w
  panic_ensures[C21] pclosed: hassub(old(hget(ref(r.Header), "Accept-Encoding")), "gzip") ==> exists(z, int, gzover(z) == w && gzclosed[z])
extern (io.Writer).Write(w, p) (n, err)
  modifies wbody[w], wcode[w]
  ensures wbody[w] == cat(old(wbody[w]), strof(p))
func (*tricorder.gzipResponseWriter).Write(w, b) (n, err)
  prop C21
  optional
  requires w != nil && w.W != nil
  modifies wbody, wcode
  ensures[C21] forwards: wbody[w.W] == cat(old(wbody[w.W]), strof(b))
