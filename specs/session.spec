# ---- groups and requests: C10, C11 (and the evaluation of values: C03) ----
ghost regs typedset(tricorder.region)
pred snd(x) = hp(tricorder.region.sendCh)[x]
pred rcv(x) = hp(tricorder.region.receiveCh)[x]
# every region has channels of its own
pred wf_regs() = forall(x, int, trig(regs[x] ==> 0 < x && x < next() && 0 < snd(x) && snd(x) < next() && 0 < rcv(x) && rcv(x) < next(), snd(x)))
  && forall(x, int, forall(y, int, trig(regs[x] && regs[y] ==> snd(x) != rcv(y) && (snd(x) == snd(y) ==> x == y), snd(x), snd(y))))
pred VR(s) = hp(tricorder.session.visitedRegions)[ref(s)]
pred vis(s, x) = mdoms(map[*tricorder.region]time.Time)[VR(s)][x]
pred vts(s, x) = mvals(map[*tricorder.region]time.Time)[VR(s)][x]
pred open(s) = s != nil && VR(s) != 0
# a request's readings that are open are exactly the regions its session has
# visited: what was sent to each region, less that, is as it was
pred balanced(s) = forall(x, int, trig(regs[x] ==> sums()[snd(x)] - ite(vis(s, x), 1, 0) == old(sums()[snd(x)]) - ite(old(vis(s, x)), 1, 0), snd(x)))
pred settled() = forall(x, int, trig(regs[x] ==> sums()[snd(x)] == old(sums()[snd(x)]), snd(x)))
# what was visited stays visited, with its timestamp
pred grows(s) = VR(s) == old(VR(s)) && forall(x, int, trig(old(vis(s, x)) ==> vis(s, x) && vts(s, x) == old(vts(s, x)), vis(s, x)))
# other maps of this type are not touched
pred otherses(s) = forall(q, int, trig(q != VR(s) && q < old(next()) ==> mdoms(map[*tricorder.region]time.Time)[q] == old(mdoms(map[*tricorder.region]time.Time))[q] && mvals(map[*tricorder.region]time.Time)[q] == old(mvals(map[*tricorder.region]time.Time))[q], mdoms(map[*tricorder.region]time.Time)[q]))

func (*tricorder.region).RLock(r) (t)
  prop C03 C10 C11 C21
  optional
  requires r != nil && regs[ref(r)] && wf_regs()
  modifies chanof(r.sendCh), chanof(r.receiveCh)
  ensures[C03,C10,C11,C21] begun: sums()[r.sendCh] == old(sums()[r.sendCh]) + 1 && sents()[r.sendCh] == old(sents()[r.sendCh]) + 1
  ensures[C10] answer: t == rval(r.receiveCh, old(recvs()[r.receiveCh]))
func (*tricorder.region).RUnlock(r)
  prop C03 C10 C11 C21
  optional
  requires r != nil && regs[ref(r)] && wf_regs()
  modifies chanof(r.sendCh), chanof(r.receiveCh)
  ensures[C03,C10,C11,C21] ended: sums()[r.sendCh] == old(sums()[r.sendCh]) - 1 && sents()[r.sendCh] == old(sents()[r.sendCh]) + 1

func tricorder.newSession() (s)
  prop C03 C10 C11 C21
  optional
  ensures[C03,C10,C11,C21] new: fresh(s) && open(s) && VR(s) >= old(next()) && VR(s) < next() && forall(x, int, trig(!vis(s, x), vis(s, x)))

func (*tricorder.session).Visit(s, r) (t)
  prop C03 C10 C11 C21
  optional
  requires s != nil && r != nil && regs[ref(r)] && wf_regs()
  panics s.visitedRegions == nil
  modifies mapof(s.visitedRegions), chanof(r.sendCh), chanof(r.receiveCh)
  ensures[C10,C11,C21] visited: vis(s, ref(r)) && t == vts(s, ref(r))
  ensures[C10] first: !old(vis(s, ref(r))) ==> sents()[r.sendCh] == old(sents()[r.sendCh]) + 1 && t == rval(r.receiveCh, old(recvs()[r.receiveCh]))
  ensures[C10] again: old(vis(s, ref(r))) ==> sents()[r.sendCh] == old(sents()[r.sendCh]) && t == old(vts(s, ref(r)))
  ensures[C03,C10,C11,C21] others: forall(x, int, trig(x != ref(r) ==> vis(s, x) == old(vis(s, x)), vis(s, x)))
  ensures[C03,C10,C11,C21] grows: grows(s)
  ensures[C03,C10,C11,C21] balanced: balanced(s)

func (*tricorder.session).Close(s) (err)
  prop C03 C10 C11 C21
  optional
  requires s != nil && wf_regs()
  requires forall(x, int, trig(VR(s) != 0 && vis(s, x) ==> regs[x], vis(s, x)))
  modifies s.visitedRegions, anychan()
  inv <it iter> forall(x, int, trig(regs[x] ==> sums()[snd(x)] == old(sums()[snd(x)]) - ite(old(VR(s)) != 0 && old(vis(s, x)) && itidx(it, x) < itpos(it), 1, 0), snd(x)))
  ensures[C03,C10,C11,C21] closed: s.visitedRegions == nil && err == nil
  ensures[C03,C10,C11,C21] ended: forall(x, int, trig(regs[x] ==> sums()[snd(x)] == old(sums()[snd(x)]) - ite(old(VR(s)) != 0 && old(vis(s, x)), 1, 0), snd(x)))

# ---- evaluating a value within a session ----
pred sessreg(s) = forall(x, int, trig(vis(s, x) ==> regs[x], vis(s, x)))
pred sess(s) = open(s) && VR(s) < next() && wf_regs() && sessreg(s)
# v has been read within session s: its region was visited, and a callback was called with the visit still open
pred within(v, s) = v.region != nil ==> vis(s, ref(v.region)) && (v.isfunc ==> forall(x, int, trig(regs[x] ==> callsum[snd(x)] == sums()[snd(x)], snd(x))))
pred gives(v, r) = ite(v.isfunc, exists(q, rv, callres(v.val, q) && (r == q || r == rv_elem(q))), r == v.val)
func (*tricorder.value).evaluate(v, s) (r)
  prop C03 C10 C11 C21
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan(), callsum
  ensures[C03,C21] value: gives(v, r)
  ensures[C10,C11,C21] within: within(v, s)
  ensures[C03,C10,C11,C21] session: sess(s) && balanced(s) && grows(s)
  panic_ensures[C03,C10,C11,C21] psession: sess(s) && balanced(s) && grows(s)

# what turns a reading into text or an interface touches nothing here (C13 and C19 look inside)
trusted tricorder.valueToTextString@C10(value, t, u, isptr) (r)
  prop C10
  maypanic
trusted tricorder.valueToTextString@C11(value, t, u, isptr) (r)
  prop C11
  maypanic
trusted tricorder.valueToHtmlString@C10(value, t, u, isptr) (r)
  prop C10
  maypanic
trusted tricorder.valueToHtmlString@C11(value, t, u, isptr) (r)
  prop C11
  maypanic

pred insession(s) = sess(s) && balanced(s) && grows(s)
func (*tricorder.value).AsInterface(v, s) (r)
  prop C10 C11 C21
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan(), callsum
  ensures[C10,C11,C21] within: within(v, s)
  ensures[C10,C11,C21] session: insession(s)
  panic_ensures[C10,C11,C21] psession: insession(s)
func (*tricorder.value).AsTextString(v, s) (r)
  prop C10 C11
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan(), callsum
  ensures[C10,C11] within: within(v, s)
  ensures[C10,C11] session: insession(s)
  panic_ensures[C10,C11] psession: insession(s)
func (*tricorder.value).AsHtmlString(v, s) (r)
  prop C10 C11
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan(), callsum
  ensures[C10,C11] within: within(v, s)
  ensures[C10,C11] session: insession(s)
  panic_ensures[C10,C11] psession: insession(s)
func (*tricorder.value).TimeStamp(v, s) (t)
  prop C10 C11 C21
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan()
  ensures[C10] visit: v.region != nil && vis(s, ref(v.region)) && t == vts(s, ref(v.region))
  ensures[C10,C11,C21] session: insession(s)
  ensures[C10] no_new: old(vis(s, ref(v.region))) ==> forall(x, int, trig(regs[x] ==> sums()[snd(x)] == old(sums()[snd(x)]), snd(x)))
  panic_ensures[C10,C11,C21] psession: insession(s)

trusted (*messages.Metric).ConvertToJson@C10(m)
  prop C10
  maypanic
  modifies *m
trusted (*messages.Metric).ConvertToJson@C11(m)
  prop C11
  maypanic
  modifies *m
trusted (*messages.Metric).ConvertToJson@C21(m)
  prop C21
  maypanic
  modifies m.Value, m.Kind, m.SubType, m.TimeStamp
  ensures !goonly(m.Kind, m.SubType)
trusted (*tricorder.distribution).Snapshot@C10(d) (r)
  prop C10
  maypanic
  ensures fresh(r)
trusted (*tricorder.distribution).Snapshot@C11(d) (r)
  prop C11
  maypanic
  ensures fresh(r)
trusted (*tricorder.distribution).Snapshot@C21(d) (r)
  prop C21
  maypanic
  ensures fresh(r)
trusted (*tricorder.listType).AsSlice@C10(d) (r, ts)
  prop C10
  maypanic
trusted (*tricorder.listType).AsSlice@C11(d) (r, ts)
  prop C11
  maypanic

trusted (*tricorder.listType).AsSlice@C21(d) (r, ts)
  prop C21
  maypanic

pred insess(s) = (s == nil ==> settled()) && (s != nil ==> insession(s))
pred single(v) = v.valType != "distribution" && v.valType != "list"
func (*tricorder.value).UpdateRpcMetric(v, s, metric)
  prop C10 C11 C21
  optional
  maypanic
  requires metric != nil && wf_regs()
  requires s != nil ==> sess(s)
  modifies *metric, mapof(s.visitedRegions), anychan(), callsum
  ensures[C21] kept: metric.Path == old(metric.Path) && metric.Description == old(metric.Description)
  ensures[C21] unit: metric.Unit == v.unit
  ensures[C21] kind: metric.Kind == v.valType
  ensures[C10] timestamp: s != nil && single(v) ==> v.region != nil && within(v, s) && typeis(metric.TimeStamp, time.Time) && metric.TimeStamp.(time.Time) == vts(s, ref(v.region))
  ensures[C10,C11,C21] session: insess(s)
  panic_ensures[C10,C11,C21] psession: insess(s)
func (*tricorder.value).UpdateJsonMetric(v, s, metric)
  prop C10 C11 C21
  optional
  maypanic
  requires metric != nil && wf_regs()
  requires s != nil ==> sess(s)
  modifies *metric, mapof(s.visitedRegions), anychan(), callsum
  ensures[C21] kept: metric.Path == old(metric.Path) && metric.Description == old(metric.Description)
  ensures[C21] unit: metric.Unit == v.unit
  ensures[C21] form: !goonly(metric.Kind, metric.SubType)
  ensures[C10] within: s != nil && single(v) ==> v.region != nil && within(v, s)
  ensures[C10,C11,C21] session: insess(s)
  panic_ensures[C10,C11,C21] psession: insess(s)

# ---- the group's own goroutine: C10 ----
# nupd: calls of update functions so far; updt(n), updf(n): what the n-th returned, which function it was
ghost nupd int
fun updt(int) time
fun updf(int) int
extern callback$func___time.Time(f) (t)
  maypanic
  modifies nupd
  ensures nupd == old(nupd) + 1 && t == updt(old(nupd)) && updf(old(nupd)) == ref(f)
# readers after the requests a..n-1 received on ch, starting with c; how many of
# them found no reader and began reading; the time of the last update
def lcnt(ch int, a int, n int, c int) int = ite(n <= a, c, lcnt(ch, a, n-1, c) + rvali(ch, n-1))
pred begins(ch, a, n, c) = lcnt(ch, a, n-1, c) == 0 && lcnt(ch, a, n, c) > 0
def ups(ch int, a int, n int, c int) int = ite(n <= a, 0, ups(ch, a, n-1, c) + ite(begins(ch, a, n, c), 1, 0))
def utime(ch int, a int, n int, c int, t time, u int) time = ite(n <= a, t, ite(begins(ch, a, n, c), updt(u + ups(ch, a, n, c) - 1), utime(ch, a, n-1, c, t, u)))

func (*tricorder.region).handleLockUnlock(r, inc) (t)
  prop C10
  optional
  maypanic
  requires r != nil
  requires inrange(r.lockCount + inc, int)
  modifies r.lockCount, r.updateTime, nupd
  ensures[C10] count: r.lockCount == old(r.lockCount) + inc && r.lockCount >= 0
  ensures[C10] first: old(r.lockCount) == 0 && r.lockCount > 0 ==> nupd == old(nupd) + 1 && updf(old(nupd)) == ref(r.updateFunc) && r.updateTime == updt(old(nupd))
  ensures[C10] later: !(old(r.lockCount) == 0 && r.lockCount > 0) ==> nupd == old(nupd) && r.updateTime == old(r.updateTime)
  ensures[C10] answer: t == r.updateTime
func (*tricorder.region).handleUpdateFunc(r, f) (b)
  prop C10
  optional
  requires r != nil
  modifies r.updateFunc
  ensures[C10] set: r.updateFunc == f && b
func (*tricorder.region).handleRequests(r)
  prop C10
  maypanic
  requires r != nil && snd(ref(r)) != rcv(ref(r)) && ref(r.updateFuncSendCh) != snd(ref(r)) && ref(r.updateFuncSendCh) != rcv(ref(r)) && ref(r.updateFuncReceiveCh) != snd(ref(r)) && ref(r.updateFuncReceiveCh) != rcv(ref(r))
  # fewer than 2^62 readers at a time
  assume forall(n, int, trig(-4611686018427387904 < lcnt(snd(ref(r)), old(recvs()[snd(ref(r))]), n, old(r.lockCount)) && lcnt(snd(ref(r)), old(recvs()[snd(ref(r))]), n, old(r.lockCount)) < 4611686018427387904, lcnt(snd(ref(r)), old(recvs()[snd(ref(r))]), n, old(r.lockCount))))
  modifies r.lockCount, r.updateTime, r.updateFunc, nupd, anychan()
  maintains recvs()[snd(ref(r))] >= old(recvs()[snd(ref(r))]) && sents()[rcv(ref(r))] - old(sents()[rcv(ref(r))]) == recvs()[snd(ref(r))] - old(recvs()[snd(ref(r))])
  maintains r.lockCount == lcnt(snd(ref(r)), old(recvs()[snd(ref(r))]), recvs()[snd(ref(r))], old(r.lockCount))
  maintains nupd == old(nupd) + ups(snd(ref(r)), old(recvs()[snd(ref(r))]), recvs()[snd(ref(r))], old(r.lockCount))
  maintains r.updateTime == utime(snd(ref(r)), old(recvs()[snd(ref(r))]), recvs()[snd(ref(r))], old(r.lockCount), old(r.updateTime), old(nupd))
  maintains forall(n, int, trig(old(recvs()[snd(ref(r))]) < n && n <= recvs()[snd(ref(r))] ==> sval(r.receiveCh, old(sents()[rcv(ref(r))]) + n - old(recvs()[snd(ref(r))]) - 1) == utime(snd(ref(r)), old(recvs()[snd(ref(r))]), n, old(r.lockCount), old(r.updateTime), old(nupd)), utime(snd(ref(r)), old(recvs()[snd(ref(r))]), n, old(r.lockCount), old(r.updateTime), old(nupd))))

func tricorder.newRegion(f) (r)
  prop C10 C11
  optional
  modifies regs, chanof(idGenerator)
  ensures[C10,C11] new: fresh(r) && snd(ref(r)) >= old(next()) && rcv(ref(r)) >= old(next()) && snd(ref(r)) < next() && rcv(ref(r)) < next() && snd(ref(r)) != rcv(ref(r))
  ensures[C10] idle: r.lockCount == 0 && r.updateFunc == f
  ensures[C10,C11] wf: old(wf_regs()) ==> wf_regs()

# ---- requests: C10, C11 ----
# nothing is locked when a request begins (C12 has each operation release what it locks)
pred nolocks() = forall(x, int, trig(hp(tricorder.directory.lock)[x] == 0, hp(tricorder.directory.lock)[x])) && forall(x, int, trig(hp(tricorder.distribution.lock)[x] == 0, hp(tricorder.distribution.lock)[x])) && forall(x, int, trig(hp(tricorder.listType.lock)[x] == 0, hp(tricorder.listType.lock)[x]))
# what a collector may do within a request
# coln: calls of a collector so far; cola(n), colerr(n): the metric the n-th was given, the error it returned
ghost coln int
fun cola(int) int
fun colerr(int) iface
extern (tricorder.metricsCollector).Collect(c, m, s) (err)
  maypanic
  requires sess(s) && nolocks()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv, coln
  ensures insession(s)
  ensures coln == old(coln) + 1 && cola(old(coln)) == ref(m) && err == colerr(old(coln))
  ensures[C21] typeis(c, *tricorder.rpcMetricsCollector) ==> oneR(c.(*tricorder.rpcMetricsCollector), m) && colerr(old(coln)) == nil
  ensures[C21] typeis(c, *tricorder.jsonMetricsCollector) ==> oneJ(c.(*tricorder.jsonMetricsCollector), m) && colerr(old(coln)) == nil
  panic_ensures insession(s)
func (*tricorder.rpcMetricsCollector).Collect(c, m, s) (err)
  prop C10 C11 C21
  optional
  maypanic
  requires sess(s) && nolocks()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv
  ensures[C21] appended: err == nil && oneR(c, m)
  ensures[C10,C11,C21] session: insession(s)
  panic_ensures[C10,C11,C21] psession: insession(s)
func (*tricorder.jsonMetricsCollector).Collect(c, m, s) (err)
  prop C10 C11 C21
  optional
  maypanic
  requires sess(s) && nolocks()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv
  ensures[C21] appended: err == nil && oneJ(c, m)
  ensures[C10,C11,C21] session: insession(s)
  panic_ensures[C10,C11,C21] psession: insession(s)
func (*tricorder.textCollector).Collect(c, m, s) (err)
  prop C10 C11
  optional
  maypanic
  requires sess(s) && nolocks()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv
  ensures[C10,C11] session: insession(s)
  panic_ensures[C10,C11] psession: insession(s)

func tricorder.textEmitMetric(m, s, w) (err)
  prop C10 C11
  optional
  maypanic
  requires sess(s) && nolocks()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode
  ensures[C10,C11] session: insession(s)
  panic_ensures[C10,C11] psession: insession(s)
func tricorder.textEmitDirectoryOrMetric(path, w) (err)
  prop C10 C11
  optional
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
func (*tricorder.rpcType).ListMetrics(t, path, response) (err)
  prop C10 C11
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
func (*tricorder.rpcType).GetMetric(t, path, response) (err)
  prop C10 C11
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
func tricorder.ReadMyMetrics(path) (r)
  prop C10 C11
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
func tricorder.jsonHandlerFunc(w, r)
  prop C10 C11
  optional
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()

func (*tricorder.directory).GetMetric@C10(d, path) (m)
  prop C10
  optional
  maypanic
  requires nolocks()
func (*tricorder.directory).GetDirectoryOrMetric@C10(d, path) (r, m)
  prop C10
  optional
  maypanic
  requires nolocks()

func (*tricorder.directory).GetMetric@C11(d, path) (m)
  prop C11
  optional
  maypanic
  requires nolocks()
func (*tricorder.directory).GetDirectoryOrMetric@C11(d, path) (r, m)
  prop C11
  optional
  maypanic
  requires nolocks()

# the page template calls only the methods of htmlView and of what they give it (assumed), within its session
pred hs(d) = d.(*tricorder.htmlView).Session
extern (*template.Template).Execute(t, w, data) (err)
  maypanic
  requires[C10,C11] view: typeis(data, *tricorder.htmlView) && sess(hs(data)) && nolocks()
  modifies mapof(data.(*tricorder.htmlView).Session.visitedRegions), anychan(), callsum, wbody, wcode, perm, pinv
  ensures insession(hs(data))
  panic_ensures insession(hs(data))
func (*tricorder.htmlView).AsMetricView(v, m) (r)
  prop C10 C11
  optional
  maypanic
  ensures[C10,C11] session: r != nil && r.Session == v.Session && r.Metric == m
func (*tricorder.htmlView).AsHtmlString(v) (r)
  prop C10 C11
  optional
  maypanic
  requires v != nil && sess(v.Session)
  modifies mapof(v.Session.visitedRegions), anychan(), callsum
  ensures[C10,C11] within: within(v.Metric.value, v.Session)
  ensures[C10,C11] session: insession(v.Session)
  panic_ensures[C10,C11] psession: insession(v.Session)
func tricorder.htmlEmitDirectoryOrMetric(path, w) (err)
  prop C10 C11
  optional
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
func tricorder.htmlAndTextHandlerFunc(w, r)
  prop C10 C11
  maypanic
  requires wf_regs() && nolocks()
  modifies_all
  ensures[C10,C11] settled: settled()
  panic_ensures[C10,C11] psettled: settled()
