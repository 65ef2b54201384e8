"""Shared by all checks: scratch build of the code under test, TLC, workers, results."""

import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TK_REPO", "/repo")
PY = "/opt/venv/bin/python"
LIB = os.path.join(VERIF, "lib")
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """the check itself does not work"""


class Run:
    """One run of the check of one property."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.scratch = tempfile.mkdtemp(prefix="tk-%s-" % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.cov = {}
        self.assumptions = []
        self.violations = []   # (key, description, replay data)
        self.pkg = None
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # -- code under test ---------------------------------------------------
    def build(self):
        """Copies the package out of /repo's working tree and compiles it."""
        dst = os.path.join(self.scratch, "pkg")
        shutil.copytree(
            os.path.join(REPO, "tonnikala"), os.path.join(dst, "tonnikala"),
            ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.so"))
        src = os.path.join(dst, "tonnikala", "runtime", "_buffer.c")
        q = subprocess.run(
            [PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);"
             "print(sysconfig.get_config_var('EXT_SUFFIX'))"],
            capture_output=True, text=True, check=True).stdout.split()
        if os.path.exists(src):
            so = src[:-2] + q[1]
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + q[0], src, "-o", so],
                               capture_output=True, text=True)
            if r.returncode:
                raise Machinery("cannot compile _buffer.c: " + r.stderr[-2000:])
        self.pkg = dst
        env = self.env()
        r = subprocess.run([PY, "-c", "import tonnikala,tonnikala.loader,tonnikala.runtime.python as p;"
                            "print(tonnikala.__file__);print(p.Buffer)"],
                           capture_output=True, text=True, env=env, cwd=self.scratch)
        out = r.stdout.split("\n")
        if r.returncode or not out[0].startswith(dst):
            raise Machinery("cannot import the scratch copy: %s %s" % (r.stdout, r.stderr[-2000:]))
        return dst

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e.update(PYTHONPATH=self.pkg + os.pathsep + LIB, PYTHONDONTWRITEBYTECODE="1",
                 PYTHONHASHSEED=str(self.seed % 1000), TK_PKG=self.pkg, PYTHONIOENCODING="utf-8")
        e.update(kw)
        return e

    def worker(self, module, tasks, nproc=8, timeout=600, extra_env=None, python=PY):
        """Runs tasks (a list of JSON values) through lib/<module>.py, which
        reads a JSON file of tasks and writes a JSON file of results."""
        if not tasks:
            return []
        nproc = max(1, min(nproc, len(tasks)))
        jobs = []
        for j in range(nproc):
            part = tasks[j::nproc]
            d = tempfile.mkdtemp(dir=self.scratch)
            inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.json")
            with open(inp, "w") as f:
                json.dump(part, f)
            with open(os.path.join(d, "err.txt"), "w") as ef:
                pr = subprocess.Popen([python, os.path.join(LIB, module + ".py"), inp, out],
                                      env=self.env(**(extra_env or {})), cwd=d,
                                      stdin=subprocess.DEVNULL, stdout=ef, stderr=ef)
            jobs.append((j, d, out, pr, len(part)))
        res = [None] * len(tasks)
        deadline = time.time() + timeout
        for j, d, out, pr, n in jobs:
            try:
                pr.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                for x in jobs:
                    x[3].kill()
                raise Machinery("worker %s timed out" % module)
            if pr.returncode or not os.path.exists(out):
                for x in jobs:
                    x[3].kill()
                with open(os.path.join(d, "err.txt")) as f:
                    raise Machinery("worker %s failed (%s): %s" % (module, pr.returncode, f.read()[-3000:]))
            with open(out) as f:
                part = json.load(f)
            if len(part) != n:
                raise Machinery("worker %s lost results" % module)
            res[j::nproc] = part
        return res

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, args=(), files=None,
            expect_ok=True, mem="6g"):
        """Runs TLC on spec/<module>.tla; returns its output and statistics."""
        d = tempfile.mkdtemp(dir=self.scratch)
        for fn in os.listdir(SPEC):
            if fn.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, fn), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        cfg = cfg or module + ".cfg"
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = ("-Xmx%s -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=1 -Dfile.encoding=UTF-8 "
                                  "-Dstdout.encoding=UTF-8" % mem)
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise Machinery("TLC timed out on " + module)
        with open(out, errors="replace") as f:
            text = f.read()
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", text)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if expect_ok and (rc != 0 or "No error has been found" not in text):
            raise Machinery("TLC on %s: exit %s\n%s" % (module, rc, text[-4000:]))
        return dict(text=text, rc=rc, generated=gen, distinct=dist, dir=d)

    # -- result ---------------------------------------------------------------
    def violation(self, key, what, data):
        self.violations.append((key, what, data))

    def sample(self, x):
        s = self.cov.setdefault("samples", [])
        if len(s) < 3:
            s.append(x)

    def known(self):
        """known findings: lines 'finding: property=<id> key=<key> <what>'"""
        res = {}
        try:
            with open(os.path.join(VERIF, "known_findings.txt")) as f:
                for line in f:
                    m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == self.prop:
                        res[m.group(2)] = m.group(3).strip()
        except OSError:
            pass
        return res

    def finish(self):
        known = self.known()
        new = [v for v in self.violations if v[0] not in known]
        seen = {v[0] for v in self.violations}
        for key, what in known.items():
            if key in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(new))
        with open(os.path.join(self.evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new:
            print("OK property=%s %.1fs %s" % (self.prop, self.elapsed(), json.dumps(
                {k: v for k, v in self.cov.items() if not isinstance(v, (list, dict))})))
            return 0
        path = os.path.join("evidence", "replay-%s.json" % self.prop)
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump([dict(key=k, what=w, data=d) for k, w, d in new[:20]], f, indent=1)
        for k, w, d in new[:5]:
            print("violation: %s: %s" % (k, w))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
