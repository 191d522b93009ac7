# ---- paths: C04 (and the string paths of the public functions) ----
# comp(s, i), ncomp(s): the components of s between slashes (assumed of strings.Split)
fun comp(string, int) string
fun ncomp(string) int
fun trim(string) string
axiom forall(s, string, forall(i, int, trig(0 <= i && i < ncomp(s) ==> noslash(comp(s, i)), comp(s, i))))
extern strings.Split(s, sep) (r)
  ensures sep == "/" ==> len(r) == ncomp(s) && len(r) >= 1 && forall(i, 0, len(r), r[i] == comp(s, i))
  ensures fresh(r)
extern strings.TrimSpace(s) (r)
  ensures r == trim(s)
# the number of non-blank ones among the first k
def nb(s string, k int) int = ite(k <= 0, 0, nb(s, k-1) + ite(trim(comp(s, k-1)) == "", 0, 1))
# the path s stands for: its non-blank components in order
fun pathOf(string) arr(string)
axiom forall(s, string, forall(k, int, trig(0 <= k && k < ncomp(s) && trim(comp(s, k)) != "" ==> pathOf(s)[nb(s, k)] == comp(s, k), nb(s, k), comp(s, k))))
pred plen(s) = nb(s, ncomp(s))
lemma nb_bounds(s string, k int)
  induction k
  trigger nb(s, k)
  ensures 0 <= nb(s, k) && (k >= 0 ==> nb(s, k) <= k)

func tricorder.newPathSpec(path) (r)
  prop C01 C02 C03 C04 C21
  optional
  inv <i int, idx int> 0 <= idx && idx <= i && idx == nb(path, i)
  inv <i int, idx int> 0 <= idx && idx <= i+1 && idx == nb(path, i+1)
  inv <p ~[]string, idx int> forall(j, 0, idx, p[j] == pathOf(path)[j])
  inv <p ~[]string, i int> forall(j, i, len(p), p[j] == comp(path, j))
  inv <p ~[]string, i int> forall(j, i+1, len(p), p[j] == comp(path, j))
  inv[C04] <p ~[]string, idx int> forall(j, int, trig(off(p) <= j && j < off(p)+idx ==> clean(elems(p)[j]), elems(p)[j]))
  ensures[C04] clean: cleanpath(r)
  ensures[C01,C02,C03,C04,C21] length: len(r) == plen(path)
  ensures[C01,C02,C03,C04,C21] components: forall(j, 0, len(r), r[j] == pathOf(path)[j])

# ---- what a path leads to depends on its components only, and once lost stays lost ----
lemma res_arr(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), d int, P arr(string), o int, Q arr(string), q int, k int)
  induction k
  mode manual
  trigger res(C, D, V, L, d, P, o, k), res(C, D, V, L, d, Q, q, k)
  requires forall(j, int, trig(o <= j && j < o+k ==> P[j] == Q[j-o+q], P[j]))
  ensures res(C, D, V, L, d, P, o, k) == res(C, D, V, L, d, Q, q, k)
lemma res_stop(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), d int, P arr(string), o int, j int, k int)
  induction k
  mode manual
  trigger res(C, D, V, L, d, P, o, j), res(C, D, V, L, d, P, o, k)
  requires d != 0 && 0 <= j && j <= k && res(C, D, V, L, d, P, o, j) == 0
  ensures res(C, D, V, L, d, P, o, k) == 0
lemma res_dead(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), d int, P arr(string), o int, j int, k int)
  induction k
  mode manual
  trigger res(C, D, V, L, d, P, o, j), res(C, D, V, L, d, P, o, k)
  requires d != 0 && 0 <= j && j < k && (child(C, D, V, res(C, D, V, L, d, P, o, j), P[o+j]) == 0 || L[child(C, D, V, res(C, D, V, L, d, P, o, j), P[o+j])] == 0)
  ensures res(C, D, V, L, d, P, o, k) == 0
pred sat(d, s, k) = res(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), hp(tricorder.listEntry.Directory), ref(d), pathOf(s), 0, k)

pred sdir(d, s) = sat(d, s, plen(s)-1)
pred sname(s) = pathOf(s)[plen(s)-1]
pred sent(d, s) = ch(sdir(d, s), sname(s))
pred reg_frame(d) = d != nil && isdir(d) && wf() && wf_unlocked() && wf_dunlocked()

func (*tricorder.directory).getListEntry(d, name) (e)
  prop C01 C02 C03 C04 C21
  optional
  requires d != nil && isdir(d) && wf() && lockstate(d.lock) == 0
  ensures[C01,C02,C03,C04,C21] entry: ref(e) == ch(d, name)
  ensures[C01,C02,C03,C04,C21] ulocked: lockstate(d.lock) == 0

func (*tricorder.directory).getDirectory(d, path) (r)
  uses res_dead
  prop C01 C02 C03 C04 C21
  optional
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  inv <r *tricorder.directory, i int> r != nil && isdir(r) && ref(r) == at(d, path, i+1)
  inv <r *tricorder.directory, i int> r != nil && isdir(r) && ref(r) == at(d, path, i)
  inv wf_unlocked()
  ensures[C01,C02,C03,C04,C21] result: ref(r) == at(d, path, len(path))
  ensures[C01,C02,C03,C04,C21] dir: r != nil ==> isdir(r)
  ensures[C01,C02,C03,C04,C21] unlocked: wf_unlocked()

func (*tricorder.directory).getDirectoryAndError(d, path) (r, err)
  uses res_dead
  prop C01 C02 C03 C04 C21
  optional
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  inv <r *tricorder.directory, i int> r != nil && isdir(r) && ref(r) == at(d, path, i+1)
  inv <r *tricorder.directory, i int> r != nil && isdir(r) && ref(r) == at(d, path, i)
  inv wf_unlocked()
  ensures[C01,C02,C03,C04,C21] result: ref(r) == at(d, path, len(path))
  ensures[C01,C02,C03,C04,C21] dir: r != nil ==> isdir(r)
  ensures[C01,C02,C03,C04,C21] error: (err == nil) == (r != nil)
  ensures[C04] why: err == nil || err == ErrNotFound && exists(k, 0, len(path), at(d, path, k) != 0 && ch(at(d, path, k), path[k]) == 0)
     || err == ErrPathInUse && exists(k, 0, len(path), at(d, path, k) != 0 && ch(at(d, path, k), path[k]) != 0 && lmet(ch(at(d, path, k), path[k])) != 0)
  ensures[C01,C02,C03,C04,C21] unlocked: wf_unlocked()

func (*tricorder.directory).getDirectoryOrMetric(d, path) (r, m)
  prop C01 C02 C03 C04 C21
  optional
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  ensures[C01,C02,C03,C04,C21] directory: ref(r) == at(d, path, len(path))
  ensures[C01,C02,C03,C04,C21] metric: ref(m) == ite(len(path) > 0 && at(d, path, len(path)-1) != 0 && ch(at(d, path, len(path)-1), path[len(path)-1]) != 0, lmet(ch(at(d, path, len(path)-1), path[len(path)-1])), 0)
  ensures[C01,C02,C03,C04,C21] dir: r != nil ==> isdir(r)
  ensures[C03,C21] one: r == nil || m == nil
  ensures[C01,C02,C03,C04,C21] unlocked: wf_unlocked()

# ---- C02: exactly the entry named n of directory d is gone ----
def erased(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), d int, m string) bool =
   forall(x, int, forall(n, string, trig(S[x] ==> child(C2, D2, V2, x, n) == ite(x == d && n == m, 0, child(C, D, V, x, n)), alt(child(C2, D2, V2, x, n)), alt(child(C, D, V, x, n)))))
pred removed(d, n) = erased(old(dirs), old(hp(tricorder.directory.contents)), old(mdoms(map[string]*tricorder.listEntry)), old(mvals(map[string]*tricorder.listEntry)), hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), d, n)
# every path that did not lead through that entry leads where it led; every path that did leads nowhere
lemma erased_others(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), d int, m string, r int, P arr(string), o int, k int)
  induction k
  mode manual
  prop C02
  requires erased(S, C, D, V, C2, D2, V2, d, m) && S[r] && r != 0
  requires forall(x, int, forall(n, string, trig(S[x] && child(C, D, V, x, n) != 0 && L[child(C, D, V, x, n)] != 0 ==> S[L[child(C, D, V, x, n)]], child(C, D, V, x, n))))
  requires forall(i, 0, k, !(res(C, D, V, L, r, P, o, i) == d && P[o+i] == m))
  ensures res(C2, D2, V2, L, r, P, o, k) == res(C, D, V, L, r, P, o, k) && (res(C, D, V, L, r, P, o, k) != 0 ==> S[res(C, D, V, L, r, P, o, k)])
lemma erased_below(S map(int,bool), C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), C2 arr(int), D2 arr(map(string,bool)), V2 arr(map(string,int)), d int, m string, r int, P arr(string), o int, j int, k int)
  mode manual
  prop C02
  uses res_dead
  requires erased(S, C, D, V, C2, D2, V2, d, m) && S[d] && r != 0 && d != 0 && 0 <= j && j < k
  requires res(C2, D2, V2, L, r, P, o, j) == d && P[o+j] == m
  ensures res(C2, D2, V2, L, r, P, o, j+1) == 0 && res(C2, D2, V2, L, r, P, o, k) == 0

func (*tricorder.directory).unregisterPath(d, path)
  prop C01 C02 C03 C04
  optional
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d)
  requires wf()
  requires wf_unlocked()
  modifies anymap(map[string]*tricorder.listEntry)
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04] invariant: wf() && wf_unlocked()
  ensures[C02] root_kept: len(path) == 0 ==> unchanged()
  ensures[C02] missing: len(path) > 0 && old(at(d, path, len(path)-1)) == 0 ==> unchanged()
  ensures[C02] removed: len(path) > 0 && old(at(d, path, len(path)-1)) != 0 ==> removed(old(at(d, path, len(path)-1)), path[len(path)-1])

pred parentof(d) = ite(par(enc(ref(d))) == 0, ref(root), ldir(par(enc(ref(d)))))
func (*tricorder.directory).unregisterDirectory(d)
  prop C01 C02 C03 C04
  optional
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  requires d != nil && isdir(d) && wf_root()
  requires wf()
  requires wf_unlocked()
  modifies anymap(map[string]*tricorder.listEntry)
  ensures[C04] clean: wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf_vals()
  ensures[C01,C02,C03,C04] invariant: wf() && wf_unlocked()
  ensures[C02] root_kept: old(enc(ref(d))) == 0 ==> unchanged()
  ensures[C02] stale: old(enc(ref(d))) != 0 && old(ch(parentof(d), hp(tricorder.listEntry.Name)[enc(ref(d))])) != old(enc(ref(d))) ==> unchanged()
  ensures[C02] removed: old(enc(ref(d))) != 0 && old(ch(parentof(d), hp(tricorder.listEntry.Name)[enc(ref(d))])) == old(enc(ref(d))) ==> removed(old(parentof(d)), old(hp(tricorder.listEntry.Name)[enc(ref(d))]))

# ---- C04: the absolute path of an entry ----
# the j-th ancestor of entry e (N: parent entries), and the string of its names
def up(N arr(int), e int, j int) int = ite(j <= 0, e, N[up(N, e, j-1)])
lemma up_shift(N arr(int), e int, j int)
  induction j
  mode manual
  trigger up(N, N[e], j)
  requires j >= 0
  ensures up(N, N[e], j) == up(N, e, j+1)
# strings.Join(.., "/"), assumed
def joined(A arr(string), o int, n int) string = ite(n <= 0, "", ite(n == 1, A[o], cat(joined(A, o, n-1), "/", A[o+n-1])))
extern strings.Join(a, sep) (r)
  ensures sep == "/" ==> r == joined(elems(a), off(a), len(a))
lemma joined_arr(A arr(string), o int, B arr(string), q int, n int)
  induction n
  mode manual
  trigger joined(A, o, n), joined(B, q, n)
  requires forall(j, int, trig(o <= j && j < o+n ==> A[j] == B[j-o+q], A[j]))
  ensures joined(A, o, n) == joined(B, q, n)
pred anc(n, j) = up(hp(tricorder.listEntry.parent), ref(n), j)
pred name(e) = hp(tricorder.listEntry.Name)[e]

func (*tricorder.listEntry).pathFrom(n, fromDir) (r)
  prop C04
  optional
  requires fromDir != nil
  inv <c *tricorder.listEntry, a tricorder.pathSpec> ref(c) == anc(n, len(a)) && forall(j, 0, len(a), anc(n, j) != 0 && a[j] == name(anc(n, j)))
  inv <a ~tricorder.pathSpec, i int> forall(j, 0, len(a), a[j] == name(anc(n, ite(j < i || j >= len(a)-i, len(a)-1-j, j))))
  inv <i int, m int> i <= m/2
  ensures[C04] names: enc(ref(fromDir)) == 0 ==> anc(n, len(r)) == 0 && forall(j, 0, len(r), anc(n, j) != 0 && r[j] == name(anc(n, len(r)-1-j)))

# the names above an entry are those of the path that leads to it
lemma res_in(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int)
  induction k
  mode manual
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k)
  requires S[r] && wftree(C, D, V, S, L, E, N, M)
  ensures res(C, D, V, L, r, P, o, k) != 0 ==> S[res(C, D, V, L, r, P, o, k)]
lemma reach_up(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int, j int)
  induction j
  mode manual
  uses res_stop res_in
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k), up(N, E[res(C, D, V, L, r, P, o, k)], j)
  requires r != 0 && S[r] && 0 <= j && j <= k && wftree(C, D, V, S, L, E, N, M) && res(C, D, V, L, r, P, o, k) != 0
  ensures up(N, E[res(C, D, V, L, r, P, o, k)], j) == E[res(C, D, V, L, r, P, o, k-j)] && res(C, D, V, L, r, P, o, k-j) != 0
lemma reach_name(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int)
  mode manual
  uses res_in
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k)
  requires r != 0 && S[r] && 1 <= k && wftree(C, D, V, S, L, E, N, M) && res(C, D, V, L, r, P, o, k) != 0
  ensures M[E[res(C, D, V, L, r, P, o, k)]] == P[o+k-1] && E[res(C, D, V, L, r, P, o, k)] != 0
# the j-th name above entry e, reached through P, is P[k-j]
pred reached(r, P, o, k, e) = r != 0 && S[r] && E[r] == 0 && 0 <= k && wftree(C, D, V, S, L, E, N, M) && res(C, D, V, L, r, P, o, k) != 0 && e != 0 && e == child(C, D, V, res(C, D, V, L, r, P, o, k), P[o+k])
lemma reach_parent(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int, e int)
  mode manual
  uses res_in
  requires reached(r, P, o, k, e)
  ensures N[e] == E[res(C, D, V, L, r, P, o, k)] && M[e] == P[o+k]
lemma reach_path(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int, e int, j int)
  mode manual
  uses res_in res_stop up_shift reach_up reach_name
  requires reached(r, P, o, k, e) && 0 <= j && j <= k
  requires up(N, E[res(C, D, V, L, r, P, o, k)], j-1) == up(N, N[e], j-1)
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k), up(N, e, j)
  ensures up(N, e, j) != 0 && M[up(N, e, j)] == P[o+k-j]
lemma reach_top(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int, e int)
  mode manual
  uses res_in res_stop up_shift reach_up reach_name
  requires reached(r, P, o, k, e)
  requires up(N, E[res(C, D, V, L, r, P, o, k)], k) == up(N, N[e], k)
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k), N[e]
  ensures up(N, e, k+1) == 0
lemma reach_joined(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), S map(int,bool), L arr(int), E arr(int), N arr(int), M arr(string), r int, P arr(string), o int, k int, m int, e int, A arr(string), q int, n int)
  mode manual
  uses res_in reach_path reach_top joined_arr
  requires reached(r, P, o, k, e)
  requires n >= 0 && up(N, e, n) == 0 && forall(j, int, trig(0 <= j && j < n ==> up(N, e, j) != 0, up(N, e, j)))
  requires forall(j, int, trig(q <= j && j < q+n ==> A[j] == M[up(N, e, n-1-(j-q))], A[j]))
  requires m == k+1
  trigger wftree(C, D, V, S, L, E, N, M), res(C, D, V, L, r, P, o, k), joined(P, o, m), joined(A, q, n), up(N, e, n)
  ensures n == k+1
  ensures joined(A, q, n) == joined(P, o, m)
pred atp(d, P, k) = res(hp(tricorder.directory.contents), mdoms(map[string]*tricorder.listEntry), mvals(map[string]*tricorder.listEntry), hp(tricorder.listEntry.Directory), ref(d), P, 0, k)

func (*tricorder.listEntry).absPath(n) (s)
  prop C04
  optional
  uses reach_joined
  requires wf_root() && wf() && wft()
  ensures[C04] root: n == nil ==> s == "/"
  ensures[C04] path: forall(P, arr(string), forall(k, int, trig(n != nil && k >= 0 && atp(root, P, k) != 0 && ch(atp(root, P, k), P[k]) == ref(n) ==> s == cat("/", joined(P, 0, k+1)), atp(root, P, k))))

func (*tricorder.directory).AbsPath(d) (s)
  prop C04
  optional
  requires d != nil && wf_root() && wf() && wft()
  ensures[C04] root: enc(ref(d)) == 0 ==> s == "/"
  ensures[C04] path: forall(P, arr(string), forall(k, int, trig(enc(ref(d)) != 0 && k >= 0 && atp(root, P, k) != 0 && ch(atp(root, P, k), P[k]) == enc(ref(d)) ==> s == cat("/", joined(P, 0, k+1)), atp(root, P, k))))

func (*tricorder.DirectorySpec).AbsPath(d) (s)
  prop C04
  optional
  requires d != nil && wf_root() && wf() && wft()
  ensures[C04] root: enc(ref(d)) == 0 ==> s == "/"
  ensures[C04] path: forall(P, arr(string), forall(k, int, trig(enc(ref(d)) != 0 && k >= 0 && atp(root, P, k) != 0 && ch(atp(root, P, k), P[k]) == enc(ref(d)) ==> s == cat("/", joined(P, 0, k+1)), atp(root, P, k))))

func (*tricorder.metric).AbsPath(m) (s)
  prop C04
  optional
  requires m != nil && m.enclosingListEntry != nil && wf_root() && wf() && wft()
  ensures[C04] path: forall(P, arr(string), forall(k, int, trig(k >= 0 && atp(root, P, k) != 0 && ch(atp(root, P, k), P[k]) == ref(m.enclosingListEntry) ==> s == cat("/", joined(P, 0, k+1)), atp(root, P, k))))

# ---- C04: looking the absolute path up again ----
# assumed of strings.Split and strings.Join: splitting '/' + names joined by '/' gives "" and the names back
axiom trim("") == ""
axiom forall(A, arr(string), forall(o, int, forall(n, int, trig(n >= 1 && forall(j, int, trig(o <= j && j < o+n ==> noslash(A[j]), A[j])) ==> ncomp(cat("/", joined(A, o, n))) == n+1 && comp(cat("/", joined(A, o, n)), 0) == "", joined(A, o, n)))))
axiom forall(A, arr(string), forall(o, int, forall(n, int, forall(i, int, trig(1 <= i && i <= n && forall(j, int, trig(o <= j && j < o+n ==> noslash(A[j]), A[j])) ==> comp(cat("/", joined(A, o, n)), i) == A[o+i-1], comp(cat("/", joined(A, o, n)), i))))))
pred cleanarr(A, o, n) = forall(j, int, trig(o <= j && j < o+n ==> clean(A[j]), A[j]))
lemma abs_nb(A arr(string), o int, n int, k int)
  induction k
  mode manual
  trigger nb(cat("/", joined(A, o, n)), k)
  requires n >= 1 && cleanarr(A, o, n) && 1 <= k && k <= n+1
  ensures nb(cat("/", joined(A, o, n)), k) == k-1
lemma abs_split(A arr(string), o int, n int, i int)
  mode manual
  uses abs_nb
  prop C04
  requires n >= 1 && cleanarr(A, o, n) && 0 <= i && i < n
  trigger pathOf(cat("/", joined(A, o, n)))[i]
  ensures plen(cat("/", joined(A, o, n))) == n
  ensures nb(cat("/", joined(A, o, n)), i+1) == i
  ensures comp(cat("/", joined(A, o, n)), i+1) == A[o+i]
  ensures comp(cat("/", joined(A, o, n)), i+1) == pathOf(cat("/", joined(A, o, n)))[nb(cat("/", joined(A, o, n)), i+1)]
  ensures pathOf(cat("/", joined(A, o, n)))[i] == A[o+i]
# so the absolute path of an entry leads to that entry
lemma address(C arr(int), D arr(map(string,bool)), V arr(map(string,int)), L arr(int), r int, A arr(string), n int, e int, s string)
  mode manual
  prop C04
  uses abs_split res_arr
  requires r != 0 && n >= 1 && cleanarr(A, 0, n) && s == cat("/", joined(A, 0, n))
  requires res(C, D, V, L, r, A, 0, n-1) != 0 && e == child(C, D, V, res(C, D, V, L, r, A, 0, n-1), A[n-1])
  ensures plen(s) == n
  ensures pathOf(s)[n-1] == A[n-1]
  ensures res(C, D, V, L, r, pathOf(s), 0, n-1) == res(C, D, V, L, r, A, 0, n-1)
  ensures child(C, D, V, res(C, D, V, L, r, pathOf(s), 0, n-1), pathOf(s)[n-1]) == e
