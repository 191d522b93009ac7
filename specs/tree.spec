# ---- the registry: C01, C02, C04 ----
# child(C, D, V, d, n): the entry named n in directory d (0: none), from the
# contents field of all directories and the domains and values of all maps.
def child(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), d int, n string) int = ite(C[d] != 0 && D[C[d]][n], V[C[d]][n], 0)
# res(.., d, P, o, k): the directory that the first k components of path P (from o) lead to from d (0: none)
def res(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), d int, P arr(string), o int, k int) int =
   ite(k <= 0, d, ite(res(C, D, V, L, d, P, o, k-1) == 0, 0, ite(child(C, D, V, res(C, D, V, L, d, P, o, k-1), P[o+k-1]) == 0, 0, L[child(C, D, V, res(C, D, V, L, d, P, o, k-1), P[o+k-1])])))
pred ch(d, n) = child(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), ref(d), n)
pred at(d, path, k) = res(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), hp(tricorder.listEntry.Directory), ref(d), elems(path), off(path), k)
pred ldir(e) = hp(tricorder.listEntry.Directory)[e]
pred lmet(e) = hp(tricorder.listEntry.Metric)[e]

ghost dirs set(tricorder.directory)
pred isdir(x) = dirs[ref(x)]
pred wf_dirs() = forall(x, int, dirs[x] ==> 0 < x && x < next())
pred wf_maps() = forall(x, int, trig(isdir(x) ==> hp(tricorder.directory.contents)[x] != 0 && hp(tricorder.directory.contents)[x] < next(), hp(tricorder.directory.contents)[x]))
  && forall(x, int, forall(y, int, trig(isdir(x) && isdir(y) && hp(tricorder.directory.contents)[x] == hp(tricorder.directory.contents)[y] ==> x == y, hp(tricorder.directory.contents)[x], hp(tricorder.directory.contents)[y])))
pred entry_ok(e, x, n) = 0 < e && e < next() && hp(tricorder.listEntry.Name)[e] == n && hp(tricorder.listEntry.parent)[e] == hp(tricorder.directory.enclosingListEntry)[x]
  && (ldir(e) == 0) == (lmet(e) != 0)
  && (ldir(e) != 0 ==> isdir(ldir(e)) && hp(tricorder.directory.enclosingListEntry)[ldir(e)] == e)
  && (lmet(e) != 0 ==> lmet(e) < next() && 0 < lmet(e) && hp(tricorder.metric.enclosingListEntry)[lmet(e)] == e)
pred wf_entries() = forall(x, int, forall(n, string, trig(isdir(x) && ch(x, n) != 0 ==> entry_ok(ch(x, n), x, n), ch(x, n))))
pred wf_dunlocked() = forall(d, int, hp(tricorder.distribution.lock)[d] == 0)
pred wf_unlocked() = forall(d, *tricorder.directory, isdir(d) ==> lockstate(d.lock) == 0)
# every directory ever made knows its entry; the parent directory of that entry is a directory
pred enc(x) = hp(tricorder.directory.enclosingListEntry)[x]
pred par(e) = hp(tricorder.listEntry.parent)[e]
pred wf_encl() = forall(x, int, trig(isdir(x) && enc(x) != 0 ==> 0 < enc(x) && enc(x) < next() && ldir(enc(x)) == x
   && (par(enc(x)) != 0 ==> par(enc(x)) < next() && 0 < par(enc(x)) && isdir(ldir(par(enc(x)))) && enc(ldir(par(enc(x)))) == par(enc(x))), enc(x)))
# (the same as one fact about the whole tree)
def wftree(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string)) bool =
  forall(x, int, forall(n, string, trig(S[x] && child(C, D, V, x, n) != 0 ==> M[child(C, D, V, x, n)] == n && N[child(C, D, V, x, n)] == E[x]
     && (L[child(C, D, V, x, n)] != 0 ==> S[L[child(C, D, V, x, n)]] && E[L[child(C, D, V, x, n)]] == child(C, D, V, x, n)), child(C, D, V, x, n))))
pred wft() = wftree(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), dirs, hp(tricorder.listEntry.Directory), hp(tricorder.directory.enclosingListEntry), hp(tricorder.listEntry.parent), hp(tricorder.listEntry.Name))
# every registered name is a path component: not blank, no slash
fun noslash(string) bool
pred clean(n) = noslash(n) && trim(n) != ""
pred wf_clean() = forall(x, int, forall(n, string, trig(isdir(x) && ch(x, n) != 0 ==> clean(n), ch(x, n))))
pred cleanpath(p) = forall(j, int, trig(off(p) <= j && j < off(p)+len(p) ==> clean(elems(p)[j]), elems(p)[j]))
# no name is bound to nothing
pred wf_vals() = forall(x, int, forall(n, string, trig(isdir(x) && mdoms(map[string]*tricorder.listEntry)[hp(tricorder.directory.contents)[x]][n] ==> ch(x, n) != 0, mdoms(map[string]*tricorder.listEntry)[hp(tricorder.directory.contents)[x]][n])))
pred wf_root() = root != nil && isdir(root) && enc(ref(root)) == 0
pred wf() = wf_dirs() && wf_maps() && wf_entries() && wf_encl()

# no entry that was there is gone, replaced or changed; S: the directories there were
def keeps(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), M arr(int), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), L2 arr(int), M2 arr(int)) bool =
   forall(x, int, forall(n, string, trig(S[x] && child(C, D, V, x, n) != 0 ==>
      child(C2, D2, V2, x, n) == child(C, D, V, x, n) && L2[child(C, D, V, x, n)] == L[child(C, D, V, x, n)] && M2[child(C, D, V, x, n)] == M[child(C, D, V, x, n)]
      && (L[child(C, D, V, x, n)] != 0 ==> S[L[child(C, D, V, x, n)]]),
      alt(child(C, D, V, x, n)), alt(child(C2, D2, V2, x, n)))))
pred kept() = keeps(old(dirs), old(hp(tricorder.directory.contents)), old(mdoms(map[string]*tricorder.listEntry)), old(mvals(map[string]*tricorder.listEntry)), old(hp(tricorder.listEntry.Directory)), old(hp(tricorder.listEntry.Metric)),
   hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), hp(tricorder.listEntry.Directory), hp(tricorder.listEntry.Metric))
  && forall(x, int, old(dirs[x]) ==> dirs[x])
# then every path that led somewhere still leads there
lemma res_keep(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), M arr(int), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), L2 arr(int), M2 arr(int), d int, P arr(string), o int, k int)
  induction k
  trigger keeps(S, C, D, V, L, M, C2, D2, V2, L2, M2), res(C, D, V, L, d, P, o, k)
  requires keeps(S, C, D, V, L, M, C2, D2, V2, L2, M2) && S[d]
  ensures res(C, D, V, L, d, P, o, k) != 0 ==> res(C2, D2, V2, L2, d, P, o, k) == res(C, D, V, L, d, P, o, k) && S[res(C, D, V, L, d, P, o, k)]
lemma keeps_trans(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), M arr(int), S2 map(int,bool), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), L2 arr(int), M2 arr(int), C3 arr(int), D3 arr(map(string,bool)), V3 arr(map(string,int)), L3 arr(int), M3 arr(int))
  trigger keeps(S, C, D, V, L, M, C2, D2, V2, L2, M2), keeps(S2, C2, D2, V2, L2, M2, C3, D3, V3, L3, M3)
  requires keeps(S, C, D, V, L, M, C2, D2, V2, L2, M2) && keeps(S2, C2, D2, V2, L2, M2, C3, D3, V3, L3, M3)
  requires forall(x, int, S[x] ==> S2[x])
  ensures keeps(S, C, D, V, L, M, C3, D3, V3, L3, M3)
# every new entry is a directory
def onlyd(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S2 map(int,bool), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), M2 arr(int)) bool =
   forall(x, int, forall(n, string, trig(S2[x] && child(C2, D2, V2, x, n) != 0 ==> S[x] && child(C2, D2, V2, x, n) == child(C, D, V, x, n) || M2[child(C2, D2, V2, x, n)] == 0, child(C2, D2, V2, x, n))))
lemma onlyd_trans(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S2 map(int,bool), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), L2 arr(int), M2 arr(int), S3 map(int,bool), C3 arr(int), D3 arr(map(string,bool)), V3 arr(map(string,int)), L3 arr(int), M3 arr(int))
  trigger onlyd(S, C, D, V, S2, C2, D2, V2, M2), onlyd(S2, C2, D2, V2, S3, C3, D3, V3, M3), keeps(S2, C2, D2, V2, L2, M2, C3, D3, V3, L3, M3)
  requires onlyd(S, C, D, V, S2, C2, D2, V2, M2) && onlyd(S2, C2, D2, V2, S3, C3, D3, V3, M3) && keeps(S2, C2, D2, V2, L2, M2, C3, D3, V3, L3, M3)
  ensures onlyd(S, C, D, V, S3, C3, D3, V3, M3)
pred onlydirs() = onlyd(old(dirs), old(hp(tricorder.directory.contents)), old(mdoms(map[string]*tricorder.listEntry)), old(mvals(map[string]*tricorder.listEntry)), dirs, hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), hp(tricorder.listEntry.Metric))
# nothing at all changed
def samet(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S2 map(int,bool), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int))) bool =
   forall(x, int, S2[x] == S[x]) && forall(x, int, forall(n, string, trig(S[x] ==> child(C2, D2, V2, x, n) == child(C, D, V, x, n), alt(child(C2, D2, V2, x, n)), alt(child(C, D, V, x, n)))))
lemma samet_trans(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S2 map(int,bool), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), S3 map(int,bool), C3 arr(int), D3 arr(map(string,bool)), V3 arr(map(string,int)))
  trigger samet(S, C, D, V, S2, C2, D2, V2), samet(S2, C2, D2, V2, S3, C3, D3, V3)
  requires samet(S, C, D, V, S2, C2, D2, V2) && samet(S2, C2, D2, V2, S3, C3, D3, V3)
  ensures samet(S, C, D, V, S3, C3, D3, V3)
pred unchanged() = samet(old(dirs), old(hp(tricorder.directory.contents)), old(mdoms(map[string]*tricorder.listEntry)), old(mvals(map[string]*tricorder.listEntry)), dirs, hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry))
def emptyd(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), r int) bool = forall(n, string, trig(child(C, D, V, r, n) == 0, child(C, D, V, r, n)))
pred emptydir(r) = emptyd(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), ref(r))
# every new entry is a directory, but for the one named n in directory d
pred only(d, n) = forall(x, int, forall(m, string, trig(isdir(x) && ch(x, m) != 0 && !(x == ref(d) && m == n) ==> old(dirs[x]) && ch(x, m) == old(ch(x, m)) || lmet(ch(x, m)) == 0, ch(x, m))))

func (*tricorder.directory).createDirIfNeeded(d, name) (r, err)
  prop C01 C02 C03 C04 C13
  optional
  requires[C04] clean(name) && wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  modifies mapof(d.contents), dirs
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04,C13] wf_dirs: wf_dirs()
  ensures[C01,C02,C03,C04,C13] wf_maps: wf_maps()
  ensures[C01,C02,C03,C04,C13] wf_entries: wf_entries()
  ensures[C01,C02,C03,C04,C13] wf_encl: wf_encl()
  ensures[C01,C02,C03,C04,C13] wf_unlocked: wf_unlocked()
  ensures[C01,C02,C03,C04,C13] kept: kept()
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C13] nothing_else: onlydirs()
  ensures[C01,C02,C03,C04,C13] result: err == nil ==> r != nil && isdir(r) && ch(d, name) != 0 && ref(r) == ldir(ch(d, name))
  ensures[C01] created: old(ch(d, name)) == 0 ==> err == nil && emptydir(r)
  ensures[C01] existing: old(ch(d, name)) != 0 ==> unchanged()
  ensures[C01,C13] error: err == nil || err == ErrPathInUse && ch(d, name) != 0 && lmet(ch(d, name)) != 0

func (*tricorder.directory).registerDirectory(d, path) (r, err)
  prop C01 C02 C03 C04 C13
  optional
  requires[C04] cleanpath(path) && wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  modifies anymap(map[string]*tricorder.listEntry), dirs
  inv <r *tricorder.directory, i int> isdir(r) && ref(r) == at(d, path, i+1)
  inv <r *tricorder.directory, i int> isdir(r) && ref(r) == at(d, path, i)
  inv wf_dirs()
  inv wf_maps()
  inv wf_entries()
  inv wf_encl()
  inv wf_unlocked()
  inv kept()
  inv onlydirs()
  inv <r *tricorder.directory> unchanged() || emptydir(r)
  inv <e error> e == nil
  inv[C04] wf_clean()
  inv[C04] wft()
  inv[C01,C02,C03,C04] wf_vals()
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04,C13] invariant: wf() && wf_unlocked()
  ensures[C01,C02,C03,C04,C13] kept: kept()
  ensures[C01,C13] nothing_else: onlydirs()
  ensures[C01,C02,C03,C04,C13] result: err == nil ==> r != nil && isdir(r) && ref(r) == at(d, path, len(path))
  ensures[C01,C13] error: err == nil || err == ErrPathInUse
  ensures[C01] error_unchanged: err != nil ==> unchanged()
  ensures[C01] new_is_empty: err == nil ==> unchanged() || emptydir(r)

func (*tricorder.directory).storeMetric(d, name, m) (err)
  prop C01 C02 C03 C04 C13
  optional
  requires[C04] clean(name) && wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d) && m != nil
  requires wf()
  requires wf_unlocked()
  requires forall(x, int, forall(n, string, trig(isdir(x) && ch(x, n) != 0 ==> lmet(ch(x, n)) != ref(m), ch(x, n))))
  modifies mapof(d.contents), m.enclosingListEntry
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04,C13] wf_dirs: wf_dirs()
  ensures[C01,C02,C03,C04,C13] wf_maps: wf_maps()
  ensures[C01,C02,C03,C04,C13] wf_entries: wf_entries()
  ensures[C01,C02,C03,C04,C13] wf_encl: wf_encl()
  ensures[C01,C02,C03,C04,C13] wf_unlocked: wf_unlocked()
  ensures[C01,C02,C03,C04,C13] kept: kept()
  ensures[C01] nothing_else: err == nil ==> only(d, name)
  ensures[C01,C13] refused: err != nil ==> onlydirs() && unchanged()
  ensures[C01,C13] stored: err == nil ==> old(ch(d, name)) == 0 && ch(d, name) != 0 && lmet(ch(d, name)) == ref(m)
  ensures[C01] error: err == nil || err == ErrPathInUse && old(ch(d, name)) != 0

func tricorder.newValue(spec, region, unit) (v, err)
  prop C01
  optional
  maypanic
  requires wf_dunlocked()
  modifies any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  ensures[C01,C02,C03,C04] unlocked: wf_dunlocked()
  panic_ensures[C01,C02,C03,C04] punlocked: wf_dunlocked()
  ensures[C01] value: err == nil ==> v != nil && fresh(v) && v.unit == unit
  ensures[C01] error: err == nil || err == ErrWrongType || err == ErrWrongUnit

func (*tricorder.directory).registerMetric(d, path, value, region, unit, description) (err)
  prop C01 C02 C03 C04
  optional
  requires[C04] cleanpath(path) && wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  requires wf_dunlocked()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01,C02,C03,C04] panic_invariant: wf() && wf_unlocked()
  panic_ensures[C01] panic_kept: kept() && onlydirs()
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04] invariant: wf() && wf_unlocked()
  ensures[C01,C02,C03,C04] kept: kept()
  ensures[C01] nothing_else: err == nil ==> only(at(d, path, len(path)-1), path[len(path)-1])
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] path: err == nil ==> len(path) > 0 && at(d, path, len(path)-1) != 0 && (old(at(d, path, len(path)-1)) == 0 || old(ch(at(d, path, len(path)-1), path[len(path)-1])) == 0)
  ensures[C01] metric: err == nil ==> lmet(ch(at(d, path, len(path)-1), path[len(path)-1])) != 0 && fresh(lmet(ch(at(d, path, len(path)-1), path[len(path)-1])))
     && hp(tricorder.metric.Description)[lmet(ch(at(d, path, len(path)-1), path[len(path)-1]))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(ch(at(d, path, len(path)-1), path[len(path)-1]))]] == unit
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse
  ensures[C01] root: len(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_error: old(at(d, path, len(path)-1)) != 0 && old(ch(at(d, path, len(path)-1), path[len(path)-1])) != 0 ==> err != nil
