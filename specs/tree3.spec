
# ---- the public functions ----
func tricorder.RegisterMetric(path, metric, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(root, path) != 0 && (old(sdir(root, path)) == 0 || old(sent(root, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(root, path)) != 0 && fresh(lmet(sent(root, path)))
     && hp(tricorder.metric.Description)[lmet(sent(root, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(root, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(root, path), sname(path))
  ensures[C01] in_use: old(sdir(root, path)) != 0 && old(sent(root, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func tricorder.RegisterMetricInGroup(path, metric, g, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(root, path) != 0 && (old(sdir(root, path)) == 0 || old(sent(root, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(root, path)) != 0 && fresh(lmet(sent(root, path)))
     && hp(tricorder.metric.Description)[lmet(sent(root, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(root, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(root, path), sname(path))
  ensures[C01] in_use: old(sdir(root, path)) != 0 && old(sent(root, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func (*tricorder.Group).RegisterMetric(g, path, metric, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(root, path) != 0 && (old(sdir(root, path)) == 0 || old(sent(root, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(root, path)) != 0 && fresh(lmet(sent(root, path)))
     && hp(tricorder.metric.Description)[lmet(sent(root, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(root, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(root, path), sname(path))
  ensures[C01] in_use: old(sdir(root, path)) != 0 && old(sent(root, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func (*tricorder.DirectorySpec).RegisterMetric(d, path, metric, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(d)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(d, path) != 0 && (old(sdir(d, path)) == 0 || old(sent(d, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(d, path)) != 0 && fresh(lmet(sent(d, path)))
     && hp(tricorder.metric.Description)[lmet(sent(d, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(d, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(d, path), sname(path))
  ensures[C01] in_use: old(sdir(d, path)) != 0 && old(sent(d, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func (*tricorder.DirectorySpec).RegisterMetricInGroup(d, path, metric, g, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(d)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(d, path) != 0 && (old(sdir(d, path)) == 0 || old(sent(d, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(d, path)) != 0 && fresh(lmet(sent(d, path)))
     && hp(tricorder.metric.Description)[lmet(sent(d, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(d, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(d, path), sname(path))
  ensures[C01] in_use: old(sdir(d, path)) != 0 && old(sent(d, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func (tricorder.DirectoryGroup).RegisterMetric(dg, path, metric, unit, description) (err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(dg.Directory)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  maypanic
  modifies anymap(map[string]*tricorder.listEntry), dirs, any(tricorder.distribution.unit), any(tricorder.distribution.unitSet)
  panic_ensures[C01] panic_kept: wf() && wf_unlocked() && kept() && onlydirs()
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] refused: err != nil ==> onlydirs()
  ensures[C01] free: err == nil ==> plen(path) > 0 && sdir(dg.Directory, path) != 0 && (old(sdir(dg.Directory, path)) == 0 || old(sent(dg.Directory, path)) == 0)
  ensures[C01] registered: err == nil ==> lmet(sent(dg.Directory, path)) != 0 && fresh(lmet(sent(dg.Directory, path)))
     && hp(tricorder.metric.Description)[lmet(sent(dg.Directory, path))] == description
     && hp(tricorder.value.unit)[hp(tricorder.metric.value)[lmet(sent(dg.Directory, path))]] == unit
  ensures[C01] nothing_else: err == nil ==> only(sdir(dg.Directory, path), sname(path))
  ensures[C01] in_use: old(sdir(dg.Directory, path)) != 0 && old(sent(dg.Directory, path)) != 0 ==> err != nil
  ensures[C01] root: plen(path) == 0 ==> err == ErrPathInUse
  ensures[C01] in_use_unchanged: err == ErrPathInUse && ErrPathInUse != ErrWrongType && ErrPathInUse != ErrWrongUnit ==> unchanged()
  ensures[C01] errors: err == nil || err == ErrWrongType || err == ErrWrongUnit || err == ErrPathInUse

func tricorder.RegisterDirectory(path) (r, err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  modifies anymap(map[string]*tricorder.listEntry), dirs
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] nothing_else: onlydirs()
  ensures[C01] result: err == nil ==> r != nil && isdir(r) && ref(r) == sat(root, path, plen(path))
  ensures[C01] existing: old(sat(root, path, plen(path))) != 0 && err == nil ==> ref(r) == old(sat(root, path, plen(path)))
  ensures[C01] error: err == nil || err == ErrPathInUse && unchanged()

func (*tricorder.DirectorySpec).RegisterDirectory(d, path) (r, err)
  prop C01 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(d)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  modifies anymap(map[string]*tricorder.listEntry), dirs
  ensures[C01] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C01] kept: kept()
  ensures[C01] nothing_else: onlydirs()
  ensures[C01] result: err == nil ==> r != nil && isdir(r) && ref(r) == sat(d, path, plen(path))
  ensures[C01] existing: old(sat(d, path, plen(path))) != 0 && err == nil ==> ref(r) == old(sat(d, path, plen(path)))
  ensures[C01] error: err == nil || err == ErrPathInUse && unchanged()

func tricorder.GetDirectory(path) (r, err)
  prop C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  ensures[C04] result: ref(r) == sat(root, path, plen(path))
  ensures[C04] error: (err == nil) == (r != nil) && (err == nil || err == ErrNotFound || err == ErrPathInUse)

func tricorder.UnregisterPath(path)
  prop C02 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(root)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  modifies anymap(map[string]*tricorder.listEntry)
  ensures[C02] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C02] root_kept: plen(path) == 0 ==> unchanged()
  ensures[C02] missing: plen(path) > 0 && old(sdir(root, path)) == 0 ==> unchanged()
  ensures[C02] removed: plen(path) > 0 && old(sdir(root, path)) != 0 ==> removed(old(sdir(root, path)), sname(path))

func (*tricorder.DirectorySpec).UnregisterPath(d, path)
  prop C02 C03 C04
  optional
  uses res_arr
  requires wf_root() && reg_frame(d)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  modifies anymap(map[string]*tricorder.listEntry)
  ensures[C02] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C02] root_kept: plen(path) == 0 ==> unchanged()
  ensures[C02] missing: plen(path) > 0 && old(sdir(d, path)) == 0 ==> unchanged()
  ensures[C02] removed: plen(path) > 0 && old(sdir(d, path)) != 0 ==> removed(old(sdir(d, path)), sname(path))

func (*tricorder.DirectorySpec).UnregisterDirectory(d)
  prop C02 C03 C04
  optional
  requires wf_root() && reg_frame(d)
  requires[C04] wf_clean() && wft()
  requires[C01,C02,C03,C04] wf_vals()
  modifies anymap(map[string]*tricorder.listEntry)
  ensures[C02] invariant: wf() && wf_unlocked()
  ensures[C04] clean: wf() && wf_clean() && wft()
  ensures[C01,C02,C03,C04] vals: wf() && wf_vals()
  ensures[C02] root_kept: old(enc(ref(d))) == 0 ==> unchanged()
  ensures[C02] stale: old(enc(ref(d))) != 0 && old(ch(parentof(d), hp(tricorder.listEntry.Name)[enc(ref(d))])) != old(enc(ref(d))) ==> unchanged()
  ensures[C02] removed: old(enc(ref(d))) != 0 && old(ch(parentof(d), hp(tricorder.listEntry.Name)[enc(ref(d))])) == old(enc(ref(d))) ==> removed(old(parentof(d)), old(hp(tricorder.listEntry.Name)[enc(ref(d))]))
