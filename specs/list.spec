# ---- C03: listings ----
# nth(dm, i), card(dm): the names in the finite set dm in ascending order. A
# strictly ascending sequence that holds exactly the names of dm is that order.
fun nth(map(string,bool), int) string
fun card(map(string,bool)) int
def ordered(N arr(string), E arr(int), o int, n int) bool =
   forall(i, int, forall(j, int, trig(o <= i && i < j && j < o+n ==> N[E[i]] < N[E[j]], N[E[i]], N[E[j]])))
def covers(dm map(string,bool), N arr(string), E arr(int), o int, n int) bool =
   forall(i, int, trig(o <= i && i < o+n ==> dm[N[E[i]]], E[i])) && forall(s, string, trig(dm[s] ==> exists(i, int, o <= i && i < o+n && N[E[i]] == s), dm[s]))
axiom forall(dm, mapping(string,bool), forall(N, arr(string), forall(E, arr(int), forall(o, int, forall(n, int, trig(n >= 0 && covers(dm, N, E, o, n) && ordered(N, E, o, n) ==> card(dm) == n && forall(j, int, trig(0 <= j && j < n ==> nth(dm, j) == N[E[o+j]], nth(dm, j))), covers(dm, N, E, o, n), ordered(N, E, o, n)))))))
pred H_C() = hp(tricorder.directory.contents)
pred H_D() = mdoms(map[string]*tricorder.listEntry)
pred H_V() = mvals(map[string]*tricorder.listEntry)
pred names(d) = H_D()[H_C()[ref(d)]]
# the k-th entry of directory d in order of name
pred kth(d, k) = child(H_C(), H_D(), H_V(), ref(d), nth(names(d), k))

ghost perm arr(int)
ghost pinv arr(int)
# sort.Sort, for the one type it is used with (whose Len, Less and Swap are under contract below)
extern sort.Sort(data)
  requires[C03,C21] typeis(data, tricorder.byName)
  modifies elems(data.(tricorder.byName)), perm, pinv
  ensures forall(i, int, trig(off(data.(tricorder.byName)) <= i && i < off(data.(tricorder.byName)) + len(data.(tricorder.byName)) ==>
      off(data.(tricorder.byName)) <= perm[i] && perm[i] < off(data.(tricorder.byName)) + len(data.(tricorder.byName)) && pinv[perm[i]] == i && elems(data.(tricorder.byName))[i] == old(elems(data.(tricorder.byName)))[perm[i]], elems(data.(tricorder.byName))[i]))
  ensures forall(i, int, trig(off(data.(tricorder.byName)) <= i && i < off(data.(tricorder.byName)) + len(data.(tricorder.byName)) ==>
      off(data.(tricorder.byName)) <= pinv[i] && pinv[i] < off(data.(tricorder.byName)) + len(data.(tricorder.byName)) && perm[pinv[i]] == i && elems(data.(tricorder.byName))[pinv[i]] == old(elems(data.(tricorder.byName)))[i], old(elems(data.(tricorder.byName)))[i]))
  ensures forall(i, int, forall(j, int, trig(off(data.(tricorder.byName)) <= i && i < j && j < off(data.(tricorder.byName)) + len(data.(tricorder.byName)) ==>
      !(hp(tricorder.listEntry.Name)[elems(data.(tricorder.byName))[j]] < hp(tricorder.listEntry.Name)[elems(data.(tricorder.byName))[i]]), elems(data.(tricorder.byName))[i], elems(data.(tricorder.byName))[j])))

func (tricorder.byName).Len(b) (n)
  prop C03 C21
  optional
  ensures[C03,C21] n == len(b)
func (tricorder.byName).Less(b, i, j) (r)
  prop C03 C21
  optional
  requires 0 <= i && i < len(b) && 0 <= j && j < len(b) && b[i] != nil && b[j] != nil
  ensures[C03,C21] r <==> b[i].Name < b[j].Name
func (tricorder.byName).Swap(b, i, j)
  prop C03 C21
  optional
  requires 0 <= i && i < len(b) && 0 <= j && j < len(b)
  modifies elems(b)
  ensures[C03,C21] b[i] == old(b[j]) && b[j] == old(b[i]) && forall(k, 0, len(b), k != i && k != j ==> b[k] == old(b[k]))

pred HN() = hp(tricorder.listEntry.Name)
func (*tricorder.directory).listUnsorted(d) (r)
  prop C03 C21
  optional
  requires d != nil && isdir(d)
  requires wf() && wf_vals()
  requires wf_unlocked()
  inv <it iter, idx int> idx == itpos(it)
  inv <it iter, r ~[]*tricorder.listEntry> len(r) == itpos(it)
  inv <r ~[]*tricorder.listEntry> fresh(r)
  inv <it iter, r ~[]*tricorder.listEntry> forall(i, int, trig(off(r) <= i && i < off(r)+itpos(it) ==> elems(r)[i] == ch(d, itkey(it, i-off(r))), elems(r)[i]))
  ensures[C03,C21] fresh: fresh(r)
  ensures[C03,C21] entries: forall(i, int, trig(off(r) <= i && i < off(r)+len(r) ==> elems(r)[i] != 0 && elems(r)[i] == ch(d, HN()[elems(r)[i]]), elems(r)[i]))
  ensures[C03,C21] distinct: forall(i, int, forall(j, int, trig(off(r) <= i && i < j && j < off(r)+len(r) ==> HN()[elems(r)[i]] != HN()[elems(r)[j]], elems(r)[i], elems(r)[j])))
  ensures[C03,C21] all: covers(names(d), HN(), elems(r), off(r), len(r))
  ensures[C03,C21] unlocked: wf_unlocked()

func (*tricorder.directory).List(d) (r)
  prop C03 C21
  optional
  requires d != nil && isdir(d)
  requires wf() && wf_vals()
  requires wf_unlocked()
  modifies perm, pinv
  ensures[C03,C21] fresh: fresh(r)
  ensures[C03,C21] covered: covers(names(d), HN(), elems(r), off(r), len(r))
  ensures[C03,C21] ordered: ordered(HN(), elems(r), off(r), len(r))
  ensures[C03,C21] length: len(r) == card(names(d))
  ensures[C03,C21] entries: forall(k, 0, len(r), r[k] != nil && ref(r[k]) == kth(d, k))
  ensures[C03,C21] unlocked: wf_unlocked()

# ---- what a listing hands to the collector ----
# a reading of value v gave a number that is NaN or infinite / is not a float, or gave one that is neither
def nanv(T arr(string), F arr(bool), X arr(rv), v int) bool = isflt(T[v]) && exists(r, rv, exists(f, float, gave(F[v], X[v], r) && readf(r, f) && (isnan(f) || isinf(f))))
def finv(T arr(string), F arr(bool), X arr(rv), v int) bool = !isflt(T[v]) || exists(r, rv, exists(f, float, gave(F[v], X[v], r) && readf(r, f) && !isnan(f) && !isinf(f)))
pred isflt(t) = t == "float32" || t == "float64"
pred gave(fn, x, r) = ite(fn, exists(q, rv, callres(x, q) && (r == q || r == rv_elem(q))), r == x)
# listk(.., x, k, i, j): going through the first k names of directory x in ascending order, and depth first
# through the directories among them, collects exactly cola(i), .., cola(j-1); listed: all names;
# listpre: the same up to and including a metric whose collection ends the listing.
# (the least relations closed under these rules)
fun listk(arr(int), arr(map(string,bool)), arr(map(string,int)), arr(int), arr(int), arr(int), arr(string), arr(bool), arr(rv), int, int, int, int) bool
fun listed(arr(int), arr(map(string,bool)), arr(map(string,int)), arr(int), arr(int), arr(int), arr(string), arr(bool), arr(rv), int, int, int) bool
fun listpre(arr(int), arr(map(string,bool)), arr(map(string,int)), arr(int), arr(int), arr(int), arr(string), arr(bool), arr(rv), int, int, int) bool
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(i, int, forall(j, int, trig(k == 0 && i == j ==> listk(C, D, V, L, M, W, T, F, X, x, k, i, j), listk(C, D, V, L, M, W, T, F, X, x, k, i, j)))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(k2, int, forall(i, int, forall(j, int, forall(l, int, trig(k2 == k + 1 && 0 <= k && k < card(D[C[x]]) && listk(C, D, V, L, M, W, T, F, X, x, k, i, j) && L[child(C, D, V, x, nth(D[C[x]], k))] != 0 && listed(C, D, V, L, M, W, T, F, X, L[child(C, D, V, x, nth(D[C[x]], k))], j, l) ==> listk(C, D, V, L, M, W, T, F, X, x, k2, i, l), listk(C, D, V, L, M, W, T, F, X, x, k, i, j), listk(C, D, V, L, M, W, T, F, X, x, k2, i, l)))))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(k2, int, forall(i, int, forall(j, int, forall(l, int, trig(k2 == k + 1 && 0 <= k && k < card(D[C[x]]) && listk(C, D, V, L, M, W, T, F, X, x, k, i, j) && L[child(C, D, V, x, nth(D[C[x]], k))] == 0 && l == j + 1 && cola(j) == M[child(C, D, V, x, nth(D[C[x]], k))] && finv(T, F, X, W[M[child(C, D, V, x, nth(D[C[x]], k))]]) ==> listk(C, D, V, L, M, W, T, F, X, x, k2, i, l), listk(C, D, V, L, M, W, T, F, X, x, k, i, j), listk(C, D, V, L, M, W, T, F, X, x, k2, i, l)))))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(k2, int, forall(i, int, forall(j, int, forall(l, int, trig(k2 == k + 1 && 0 <= k && k < card(D[C[x]]) && listk(C, D, V, L, M, W, T, F, X, x, k, i, j) && L[child(C, D, V, x, nth(D[C[x]], k))] == 0 && l == j && nanv(T, F, X, W[M[child(C, D, V, x, nth(D[C[x]], k))]]) ==> listk(C, D, V, L, M, W, T, F, X, x, k2, i, l), listk(C, D, V, L, M, W, T, F, X, x, k, i, j), listk(C, D, V, L, M, W, T, F, X, x, k2, i, l)))))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(i, int, forall(j, int, trig(listk(C, D, V, L, M, W, T, F, X, x, card(D[C[x]]), i, j) ==> listed(C, D, V, L, M, W, T, F, X, x, i, j), listed(C, D, V, L, M, W, T, F, X, x, i, j))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(i, int, forall(j, int, forall(l, int, trig(0 <= k && k < card(D[C[x]]) && listk(C, D, V, L, M, W, T, F, X, x, k, i, j) && L[child(C, D, V, x, nth(D[C[x]], k))] == 0 && l == j + 1 && cola(j) == M[child(C, D, V, x, nth(D[C[x]], k))] && finv(T, F, X, W[M[child(C, D, V, x, nth(D[C[x]], k))]]) ==> listpre(C, D, V, L, M, W, T, F, X, x, i, l), listpre(C, D, V, L, M, W, T, F, X, x, i, l), listk(C, D, V, L, M, W, T, F, X, x, k, i, j))))))))))))))))
axiom forall(C, arr(int), forall(D, arr(mapping(string,bool)), forall(V, arr(mapping(string,int)), forall(L, arr(int), forall(M, arr(int), forall(W, arr(int), forall(T, arr(string), forall(F, arr(bool), forall(X, arr(rv), forall(x, int, forall(k, int, forall(i, int, forall(j, int, forall(l, int, trig(0 <= k && k < card(D[C[x]]) && listk(C, D, V, L, M, W, T, F, X, x, k, i, j) && L[child(C, D, V, x, nth(D[C[x]], k))] != 0 && listpre(C, D, V, L, M, W, T, F, X, L[child(C, D, V, x, nth(D[C[x]], k))], j, l) ==> listpre(C, D, V, L, M, W, T, F, X, x, i, l), listpre(C, D, V, L, M, W, T, F, X, x, i, l), listk(C, D, V, L, M, W, T, F, X, x, k, i, j))))))))))))))))
pred LK(x, k, i, j) = listk(H_C(), H_D(), H_V(), hp(tricorder.listEntry.Directory), hp(tricorder.listEntry.Metric), hp(tricorder.metric.value), hp(tricorder.value.valType), hp(tricorder.value.isfunc), hp(tricorder.value.val), ref(x), k, i, j)
pred LD(x, i, j) = listed(H_C(), H_D(), H_V(), hp(tricorder.listEntry.Directory), hp(tricorder.listEntry.Metric), hp(tricorder.metric.value), hp(tricorder.value.valType), hp(tricorder.value.isfunc), hp(tricorder.value.val), ref(x), i, j)
pred LP(x, i, j) = listpre(H_C(), H_D(), H_V(), hp(tricorder.listEntry.Directory), hp(tricorder.listEntry.Metric), hp(tricorder.metric.value), hp(tricorder.value.valType), hp(tricorder.value.isfunc), hp(tricorder.value.val), ref(x), i, j)
pred nanval(v) = nanv(hp(tricorder.value.valType), hp(tricorder.value.isfunc), hp(tricorder.value.val), ref(v))
pred finval(v) = finv(hp(tricorder.value.valType), hp(tricorder.value.isfunc), hp(tricorder.value.val), ref(v))
pred noerrs(i, j) = forall(n, int, trig(i <= n && n < j ==> colerr(n) == nil, colerr(n)))
func (*tricorder.value).IsInfNaN(v, s) (b)
  prop C03 C21
  optional
  maypanic
  requires sess(s)
  modifies mapof(s.visitedRegions), anychan(), callsum
  ensures[C03,C21] not_finite: b ==> nanval(v)
  ensures[C03,C21] finite: !b ==> finval(v)
  ensures[C03,C21] session: insession(s)
  panic_ensures[C03,C21] psession: insession(s)

pred reg_ok() = wf() && wf_vals() && wf_unlocked()
func (*tricorder.directory).GetAllMetrics(d, c, s) (err)
  prop C03 C10 C11 C21
  optional
  maypanic
  requires c != nil && wf_regs() && nolocks()
  requires s != nil ==> sess(s)
  requires[C03,C21] d != nil && isdir(d) && reg_ok()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv, coln
  inv <t ~*tricorder.session> sess(t) && balanced(t) && grows(t)
  inv[C03,C21] <i int> i >= -1 && LK(d, i+1, old(coln), coln)
  inv[C03,C21] <i int> i >= 0 && LK(d, i, old(coln), coln)
  inv[C03,C21] <i int, r ~[]*tricorder.listEntry> i <= len(r)
  inv[C03,C21] noerrs(old(coln), coln) && coln >= old(coln)
  inv[C03,C21] <e ~*error> *e == nil
  inv[C21] growing1(c)
  inv[C21] growing2(c)
  inv[C21] growing3(c)
  ensures[C10,C11,C03,C21] session: insess(s)
  ensures[C03,C21] all: err == nil ==> LD(d, old(coln), coln) && noerrs(old(coln), coln)
  ensures[C03,C21] stopped: err != nil ==> LP(d, old(coln), coln) && noerrs(old(coln), coln-1) && coln > old(coln) && err == colerr(coln-1)
  ensures[C03,C21] mono: coln >= old(coln)
  ensures[C21] collected: growing1(c)
  ensures[C21] rpc: growing2(c)
  ensures[C21] json: growing3(c)
  panic_ensures[C10,C11,C03,C21] psession: insess(s)
# the directory, and the metric, that a path names
pred pdir(d, s) = sat(d, s, plen(s))
pred pmet(d, s) = ite(plen(s) > 0 && sdir(d, s) != 0 && sent(d, s) != 0, lmet(sent(d, s)), 0)
pred valof(m) = hp(tricorder.metric.value)[m]
pred listing(d, path, err) = pdir(d, path) != 0 ==> (err == nil ==> LD(pdir(d, path), old(coln), coln) && noerrs(old(coln), coln)) && (err != nil ==> LP(pdir(d, path), old(coln), coln) && noerrs(old(coln), coln-1) && coln > old(coln) && err == colerr(coln-1))
pred single_listing(d, path, err) = pmet(d, path) != 0 ==> coln == old(coln) && err == nil && nanval(valof(pmet(d, path))) || coln == old(coln) + 1 && cola(old(coln)) == pmet(d, path) && finval(valof(pmet(d, path))) && err == colerr(old(coln))
pred no_listing(d, path, err) = pdir(d, path) == 0 && pmet(d, path) == 0 ==> coln == old(coln) && err == nil
func (*tricorder.directory).GetDirectoryOrMetric@C03(d, path) (r, m)
  prop C03
  optional
  uses res_arr
  requires d != nil && isdir(d) && wf() && wf_unlocked()
  ensures[C03] directory: ref(r) == pdir(d, path) && (r != nil ==> isdir(r))
  ensures[C03] metric: ref(m) == pmet(d, path)
  ensures[C03] one: r == nil || m == nil
func (*tricorder.directory).GetDirectoryOrMetric@C21(d, path) (r, m)
  prop C21
  optional
  uses res_arr
  requires d != nil && isdir(d) && wf() && wf_unlocked()
  ensures[C21] directory: ref(r) == pdir(d, path) && (r != nil ==> isdir(r))
  ensures[C21] metric: ref(m) == pmet(d, path)
  ensures[C21] one: r == nil || m == nil
func (*tricorder.directory).GetAllMetricsByPath(d, path, c, s) (err)
  prop C03 C10 C11 C21
  optional
  uses res_arr
  maypanic
  requires c != nil && wf_regs() && nolocks()
  requires s != nil ==> sess(s)
  requires[C03,C21] d != nil && isdir(d) && reg_ok()
  modifies mapof(s.visitedRegions), anychan(), callsum, wbody, wcode, anyvar([]*messages.Metric), anyelems(*messages.Metric), perm, pinv, coln
  ensures[C10,C11,C03,C21] session: insess(s)
  panic_ensures[C10,C11,C03,C21] psession: insess(s)
  ensures[C21] collected: growing1(c)
  ensures[C21] rpc: growing2(c)
  ensures[C21] json: growing3(c)
  ensures[C03,C21] directory: listing(d, path, err)
  ensures[C03,C21] metric: single_listing(d, path, err)
  ensures[C03,C21] missing: no_listing(d, path, err)
func tricorder.ReadMyMetrics@C03(path) (r)
  prop C03
  maypanic
  requires wf_regs() && nolocks() && wf_root() && reg_ok()
  modifies_all
  ensures[C03] directory: exists(err, iface, listing(old(root), path, err) && single_listing(old(root), path, err) && no_listing(old(root), path, err))
