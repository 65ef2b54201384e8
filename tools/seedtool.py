#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them, each in a private mount
namespace with its own copy of /repo.  seedtool.py [--checks own|all|C01,C02|none] [--jobs N] ID..."""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$W/repo" /repo
mount --bind "$W/evidence" /verif/evidence
cd /repo
run_demo() { (cd /repo && timeout 300 bash "$W/demo/demo.sh") >"$W/demo.$1.log" 2>&1; echo "demo-$1 $?"; }
bash /opt/vp/build.sh >"$W/build0.log" 2>&1; echo "build-clean $?"
run_demo clean
git -C /repo apply "$W/patch.diff"; echo "apply $?"
bash /opt/vp/build.sh >"$W/build1.log" 2>&1; echo "build $?"
bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1
run_demo patched
for c in $CHECKS; do
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $c quick) >"$W/check.$c.log" 2>&1
  echo "check-$c $?"
done
'''
def one(i, checks):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    cs = {"own": [meta["property"]], "all": claimed, "none": []}.get(checks, checks.split(","))
    cs = [c for c in cs if c in claimed or checks not in ("own", "all")]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp/seed")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/evidence")
        shutil.copytree(d, w + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        shutil.copy(d + "/patch.diff", w)
        r = subprocess.run(["unshare", "-m", "bash", "-c", INNER], env=dict(os.environ, W=w, CHECKS=" ".join(cs)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        st = dict(m.groups() for m in re.finditer(r"^(\S+) (\d+)$", r.stdout, re.M))
        prob = []
        if st.get("demo-clean") != "0": prob.append("demo fails on clean: " + open(w + "/demo.clean.log").read()[-500:])
        if st.get("apply") != "0": prob.append("does not apply " + r.stdout[-300:])
        if st.get("build") != "0": prob.append("does not build " + open(w + "/build1.log").read()[-300:])
        if st.get("demo-patched") in (None, "0"): prob.append("demo passes with the patch: " + open(w + "/demo.patched.log").read()[-500:])
        try:
            o = json.load(open(w + "/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            st_ = set(b.get("stable") or b.get("passed"))
            miss = sorted(st_ - set(o["passed"]))
            if miss: prob.append("tests fail: %s" % miss[:4])
        except Exception as e:
            prob.append("tests: %r" % e)
        res = {}
        for c in cs:
            rc = st.get("check-" + c)
            t = open(w + "/check.%s.log" % c).read()
            ok = rc == "1" and "VIOLATION property=%s " % c in t
            res[c] = "caught" if ok else "quiet" if rc == "0" else "ERROR " + t[-1500:]
            if ok: res[c] += " " + (re.search(r"violation: (.*)", t) or [0, ""])[1][:160]
        return i, meta, prob, res
    finally:
        shutil.rmtree(w, True)
def main():
    a = argparse.ArgumentParser(); a.add_argument("--checks", default="own"); a.add_argument("--jobs", type=int, default=2)
    a.add_argument("ids", nargs="*")
    a = a.parse_args()
    os.makedirs("/tmp/seed", exist_ok=True)
    ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
    tot = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for i, meta, prob, res in ex.map(lambda x: one(x, a.checks), ids):
            own = res.get(meta["property"], "-")
            tot += own.startswith("caught")
            print("%-28s %s %s" % (i, meta["property"], own)); 
            for c, x in res.items():
                if c != meta["property"] and not x.startswith("quiet"): print("      %s %s" % (c, x[:200]))
            for x in prob: print("   PROBLEM", x)
            sys.stdout.flush()
    print(tot, "of", len(ids), "caught by their property's check")
main()
