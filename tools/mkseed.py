#!/usr/bin/env python3
"""mkseed.py DEF.py...: makes /verif/seeded/<id>/ from a definition and confirms it in a scratch copy.

A definition sets: id, prop, pkg, edits [(file, old, new)], demo (Go test source
with TestDemo), needs, breaks.
mkseed.py --check [id...]: runs the property's check against each seeded change (in a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 2
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
P=@PKG@
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/demo_test.go","%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$P" "$D" "$PWD" "$P" "$D" > "$W/o.json"
timeout 250 go test @RACE@-vet=off -count=1 -overlay "$W/o.json" -run 'TestDemo$' "./$P" || exit 1
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def swap(copy):
    """run f with /repo shown as the copy is not possible; demos use /repo, so patch /repo itself"""

def confirm(d):
    sid = os.path.basename(d)
    st = sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    if st:
        print("repo not clean"); sys.exit(1)
    env = {"PATH": os.environ["PATH"], "HOME": "/root"}
    r0 = sh("bash", d + "/demo.sh", cwd="/repo", env=env)
    ap = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
    try:
        if ap.returncode: print(sid, "patch does not apply", ap.stderr); return False
        b = sh("bash", "/opt/vp/build.sh", cwd="/repo")
        t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_o.json", cwd="/repo")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(json.load(open("/tmp/seed_o.json"))["passed"])
        lost = [x for x in stable if x not in passed]
        r1 = sh("bash", d + "/demo.sh", cwd="/repo", env=env)
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    ok = r0.returncode == 0 and b.returncode == 0 and not lost and r1.returncode != 0
    print(sid, "OK" if ok else "BAD", "demo clean %d, build %d, lost %s, demo patched %d" % (r0.returncode, b.returncode, lost, r1.returncode))
    if r0.returncode: print((r0.stdout + r0.stderr)[-1500:])
    if r1.returncode == 0: print("   demo passes with the patch")
    else:
        o = [l for l in (r1.stdout + r1.stderr).splitlines() if "demo_test" in l or "panic" in l or "rror" in l or "cannot" in l or "undefined" in l]
        print("   ", "; ".join(o[:3])[:300])
    if b.returncode: print(b.stderr[-800:])
    return ok

def make(f):
    g = {"race": False}
    exec(open(f).read(), g)
    for d in g.get("defs") or [g]:
        one(d)

def one(g):
    "builds, confirms; removes what is not confirmed"
    d = os.path.join(V, "seeded", g["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        for fn, old, new in g["edits"]:
            p = os.path.join("/repo", fn)
            s = open(p).read()
            if s.count(old) != 1:
                sh("git", "-C", "/repo", "checkout", "--", ".")
                print(g["id"], "edit matches", s.count(old), "times:", old[:60]); return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(g["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", g["pkg"]).replace("@RACE@", "-race " if g.get("race") else ""))
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if not confirm(d):
        print("   NOT CONFIRMED", g["id"])
        shutil.rmtree(d)

def check(ids):
    base = os.path.join(V, "seeded")
    for sid in ids or sorted(os.listdir(base)):
        d = os.path.join(base, sid)
        prop = json.load(open(d + "/meta.json"))["property"]
        w = tempfile.mkdtemp(prefix="seedchk")
        try:
            shutil.copytree("/repo", w + "/repo", symlinks=True)
            a = sh("git", "-C", w + "/repo", "apply", d + "/patch.diff")
            if a.returncode: print(sid, "patch does not apply"); continue
            e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=w + "/evidence")
            r = sh(os.path.join(V, "run"), prop, "quick", env=e, cwd=V)
            lines = r.stdout.strip().splitlines()
            viol = [l for l in lines if l.startswith("VIOLATION")]
            n = sum(1 for l in lines if "failed obligation" in l); u = sum(1 for l in lines if "not decided" in l)
            print("%-28s %s exit %d  proof: %d failed %d undecided; harness: %s" % (sid, prop, r.returncode, n, u, "failing input" if viol and not viol[0].endswith("found") else "none"))
            for l in lines:
                if "failed obligation" in l or "not decided" in l or "failing input" in l: print("      " + l.strip()[:230])
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)

if sys.argv[1] == "--check": check(sys.argv[2:])
elif sys.argv[1] == "--confirm":
    for s in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))): confirm(os.path.join(V, "seeded", s))
else:
    for f in sys.argv[1:]: make(f)
