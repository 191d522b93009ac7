# ---- locks (C12) ----
# A goroutine begins with no lock held; guarded fields are touched only under their lock, a lock is never taken twice,
# every exit (panicking ones too) leaves no lock held, and code of others is called with none held.
guard[C12] tricorder.distribution lock: unit unitSet counts total min max count generation timeStamp
guard[C12] tricorder.directory lock: contents
func (*tricorder.distribution).AddWithTs@C12(d, value, ts)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).UpdateWithTs@C12(d, o, n, ts)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).RemoveWithTs@C12(d, value, ts)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).Sum@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).Count@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).SetUnit@C12(d, u) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.distribution).Snapshot@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.CumulativeDistribution).Add@C12(d, value)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.NonCumulativeDistribution).Add@C12(d, value)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.NonCumulativeDistribution).Update@C12(d, o, n)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.NonCumulativeDistribution).Remove@C12(d, value)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.NonCumulativeDistribution).Sum@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.NonCumulativeDistribution).Count@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.List).Change@C12(l, a, m)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures once: acquired(l.lock) == old(acquired(l.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.listType).AsSlice@C12(l) (r, ts)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(l.lock) == old(acquired(l.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.listType).TextStrings@C12(l, u) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  optional
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.listType).HtmlStrings@C12(l, u) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  optional
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).listUnsorted@C12(d) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).getListEntry@C12(d, name) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).removeListEntry@C12(d, name)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).removeChildDirectory@C12(d, c)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).createDirIfNeeded@C12(d, name) (r, err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).storeMetric@C12(d, name, m) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(d.lock) == old(acquired(d.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).getDirectoryAndError@C12(d, path) (r, err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).getDirectory@C12(d, path) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).getDirectoryOrMetric@C12(d, path) (r, m)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).registerDirectory@C12(d, path) (r, err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).registerMetric@C12(d, path, v, g, u, t) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).unregisterDirectory@C12(d)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).unregisterPath@C12(d, path)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).List@C12(d) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).GetAllMetrics@C12(d, c, s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.directory).GetAllMetricsByPath@C12(d, path, c, s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.newValue@C12(spec, region, unit) (v, err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).evaluate@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).updateJsonOrRpcMetric@C12(v, s, m, e)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.RegisterMetric@C12(path, m, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.RegisterMetricInGroup@C12(path, m, g, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.Group).RegisterMetric@C12(g, path, m, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (tricorder.DirectoryGroup).RegisterMetric@C12(g, path, m, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.UnregisterPath@C12(path)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.GetDirectory@C12(path) (r, err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.RegisterDirectory@C12(path) (r, err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.DirectorySpec).RegisterMetric@C12(d, path, m, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.DirectorySpec).RegisterMetricInGroup@C12(d, path, m, g, u, t) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.DirectorySpec).RegisterDirectory@C12(d, path) (r, err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.DirectorySpec).UnregisterPath@C12(d, path)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.DirectorySpec).UnregisterDirectory@C12(d)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.ReadMyMetrics@C12(path) (r)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.rpcType).ListMetrics@C12(t, path, response) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.rpcType).GetMetric@C12(t, path, response) (err)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.jsonHandlerFunc@C12(w, r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.htmlAndTextHandlerFunc@C12(w, r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.rpcMetricsCollector).Collect@C12(c, m, s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.jsonMetricsCollector).Collect@C12(c, m, s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.textCollector).Collect@C12(c, m, s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.htmlView).AsHtmlString@C12(v) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  ensures released: held() == 0
  panic_ensures released: held() == 0
# code of others
extern (tricorder.metricsCollector).Collect@C12(c, m, s) (err)
  maypanic
  requires held() == 0
  modifies_all
  ensures held() == 0
  panic_ensures held() == 0
extern (reflect.Value).Call@C12(v, in) (out)
  maypanic
  requires held() == 0
  modifies_all
  ensures held() == 0
  panic_ensures held() == 0
extern (flag.Getter).Get@C12(g) (r)
  maypanic
  requires held() == 0
  modifies_all
  ensures held() == 0
  panic_ensures held() == 0
extern (flag.Value).String@C12(g) (r)
  maypanic
  requires held() == 0
  modifies_all
  ensures held() == 0
  panic_ensures held() == 0
extern (*template.Template).Execute@C12(t, w, data) (err)
  maypanic
  requires held() == 0
  modifies_all
  ensures held() == 0
  panic_ensures held() == 0

# helpers that take no lock
func tricorder.newPathSpec@C12(p) (r)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.asSliceValue@C12(a, m) (r, t)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.valueToTextString@C12(v, t, u, p) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.valueToHtmlString@C12(v, t, u, p) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.valueToInterface@C12(v, t, p) (r)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.getPrimitiveType@C12(t) (r, p, ok)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.asRanges@C12(b) (r)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.newSession@C12() (s)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func (*tricorder.listEntry).absPath@C12(n) (r)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func tricorder.setSecurityHeaders@C12(w)
  prop C12
  mode float=uf feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func (*tricorder.session).Visit@C12(s, r) (t)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.session).Close@C12(s) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.collect@C12(m, s, c) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).IsInfNaN@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).TimeStamp@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).AsTextString@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).AsHtmlString@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*tricorder.value).AsInterface@C12(v, s) (r)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.textEmitDistribution@C12(s, w) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.textEmitMetric@C12(m, s, w) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.textEmitDirectoryOrMetric@C12(p, w) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.htmlEmitDirectoryOrMetric@C12(p, w) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func tricorder.handleError@C12(w, err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
func (*messages.Metric).ConvertToJson@C12(m) (err)
  prop C12
  mode float=uf feas=0
  optional
  maypanic
  requires held() == 0
  modifies_all
  inv held() == 0
  ensures released: held() == 0
  panic_ensures released: held() == 0
extern (reflect.Value).Set@C12(v, x)
  maypanic
extern bytes.IndexFunc@C12(b, f) (i)
  ensures 0 - 1 <= i && i < len(b)
extern reflect.Copy@C12(d, s) (n)
  maypanic
func (types.Type).NilSlice@C12(t) (r)
  prop C12
  mode feas=0 nolock
  optional
  maypanic
  modifies_all
  inv held() == old(held())
  ensures kept: held() == old(held())
  panic_ensures kept: held() == old(held())
func (*tricorder.listType).get@C12(l) (r, ts)
  prop C12
  mode float=uf feas=0
  maypanic
  requires held() == 0
  modifies_all
  optional
  ensures once: acquired(l.lock) == old(acquired(l.lock)) + 1
  ensures released: held() == 0
  panic_ensures released: held() == 0
