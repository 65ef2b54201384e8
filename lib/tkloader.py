"""Runs the histories of spec/FileLoader.tla on the real FileLoader.

The clock is virtual and the modification times are set.  What happens during
a load is done between two lines of the loader's code: which ones is tried out."""
import errno
import json
import os
import random
import sys
import tempfile
import threading
import time

NOW = [1000.0]
for _n in ("time", "monotonic", "perf_counter"):
    setattr(time, _n, lambda: NOW[0])
for _n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
    setattr(time, _n, lambda: int(NOW[0] * 1e9))
TICK = .13      # two of them are more than the interval

from tonnikala import loader as module
from tonnikala.loader import FileLoader
from tonnikala.runtime.exceptions import TemplateSyntaxError

SOURCE = module.__file__
IDS = ["a", "b", "c", "d", "e", "z"]


def source(c, sub=""):
    to = sub + c["to"]
    own = "%s:%d" % (c["id"], c["v"])
    f = '<py:def function="f">%s</py:def>' % own
    if c["k"] == "bad":
        return "<html>%s</b>" % own
    if c["k"] == "utf8":
        return b"<html>\xff\xfe</html>"
    if c["k"] == "ext":
        return '<py:extends href="%s"><py:block name="k_%s">|%s</py:block>%s</py:extends>' % (to, c["id"], own, f)
    blocks = "".join('<py:block name="k_%s"></py:block>' % i for i in IDS if i != c["id"])
    imp = '(<py:import href="%s" alias="m"/>${m.f()})' % to if c["k"] == "imp" else ""
    return '<html>%s%s%s%s</html>' % (f, own, blocks, imp)


def normal(must):
    """as the blocks are in a fixed order, and not in that of the chain"""
    if must in ("?", "ENOENT", "bad", "utf8"):
        return must
    head, paren, tail = must.partition("(")
    own, *rest = head.split("|")
    # of several templates with the same identifier in a chain the most derived one wins
    d = {}
    for x in rest:
        d.setdefault(x.split(":")[0], x)
    d.pop(own.split(":")[0], None)
    return own + "".join("|" + d[k] for k in sorted(d)) + paren + tail


class World:
    def __init__(self, g, top, R):
        self.g = g
        self.top = top
        self.R = R
        # the names may have directories; what the working directory has is not looked for
        self.sub = R.choice(["", "", "s/", "s/t/", "p1/"])
        cwd = os.path.join(top, "cwd")
        for sub in {"", self.sub, "p1/", "p2/"}:
            os.makedirs(os.path.join(cwd, sub), exist_ok=True)
            for n in IDS:
                with open(os.path.join(cwd, sub, n), "w") as fd:
                    fd.write("<html>of the working directory</html>")
        os.chdir(cwd)
        self.path = (lambda p: os.path.join(top, p)) if R.random() < .7 else (lambda p: os.path.join("..", p))
        self.unit = 1.0
        self.ver = len(g["fs"]) + 10
        self.content = {}
        for f, x in g["fs"].items():
            self.put(f, x["c"], x["m"], False)
        paths = [self.path(p) for p in g["paths"]]
        self.loader = FileLoader(R.choice([list, list, tuple, iter])(paths))
        # another loader, for other files of these names
        self.other = None
        if R.random() < .3:
            self.other = FileLoader(paths if R.random() < .5 else ())
            self.other.add_path(cwd)
            self.other.set_reload(R.random() < .7)
            if self.other.paths == [cwd]:
                self.elsewhere(1)
        self.loader.set_reload(g["reload"])

    def elsewhere(self, p=.3):
        if self.other and self.R.random() < p:
            for n in IDS:
                try:
                    self.other.load(self.sub + n).render({})
                except Exception:
                    pass

    def file(self, f):
        p, n = f.split("/")
        return os.path.join(self.top, p, self.sub + n)

    def put(self, f, c, m, inplace):
        path = self.file(f)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        s = source(c, self.sub)
        if isinstance(s, str):
            s = s.encode("utf-8")
        t = 1.7e9 + m * self.unit
        if inplace and os.path.exists(path):
            with open(path, "wb") as fd:
                fd.write(s)
            os.utime(path, (t, t))
        else:
            with open(path + ".new", "wb") as fd:
                fd.write(s)
            os.utime(path + ".new", (t, t))
            os.replace(path + ".new", path)
        self.content[f] = c

    def env(self, op):
        o = op["o"]
        if o == "write":
            self.ver += 1
            self.put(op["f"], dict(id=op["id"], k=op["k"], to=op["to"], v=self.ver), -self.ver if op["older"] else self.ver, op["inplace"])
        elif o == "touch":
            self.ver += 1
            t = 1.7e9 + self.ver * self.unit
            os.utime(self.file(op["f"]), (t, t))
        elif o == "delete":
            self.ver += 1
            os.unlink(self.file(op["f"]))
            self.content.pop(op["f"], None)
        elif o == "tick":
            NOW[0] += op["t"] * TICK
        elif o == "addpath":
            self.loader.add_path(*[self.path(p) for p in op["ps"]])
        elif o == "reload":
            self.loader.set_reload(op["flag"])

    def load(self, n, tracer=None):
        """the outcome and the template"""
        if n.startswith("="):
            n = self.file(n[1:])
        else:
            n = self.sub + n
        t = None
        try:
            if tracer:
                sys.settrace(tracer.trace)
            try:
                t = self.loader.load(n)
            finally:
                sys.settrace(None)
            return t.render({}).replace("<html>", "").replace("</html>", ""), t
        except TemplateSyntaxError:
            return "bad", t
        except UnicodeDecodeError:
            return "utf8", t
        except OSError as e:
            return ("ENOENT" if e.errno == errno.ENOENT else repr(e)), t
        except Exception as e:
            return repr(e), t


class Tracer:
    """does what is due at a point of the loader's code"""

    def __init__(self, due):
        self.due = due
        self.n = 0

    def local(self, frame, event, arg):
        if event in ("line", "return"):
            self.n += 1
            acts = self.due.pop(self.n, None)
            if acts:
                sys.settrace(None)
                try:
                    for act in acts:
                        act()
                finally:
                    sys.settrace(self.trace)
        return self.local

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename == SOURCE:
            return self.local(frame, event, arg) or self.local
        return None


def split(g):
    """the loads with something happening during them: [(begin, end)]"""
    ops = g["ops"]
    b = [i for i, x in enumerate(ops) if x["o"] == "begin"]
    e = [i for i, x in enumerate(ops) if x["o"] == "end"]
    return [(i, j) for i, j in zip(b, e) if j > i + 1]


SLOW = []


def run_history(g, top, R, at):
    """The outcomes, and the numbers of points during the loads.

    at: the points for what happens during each of them, in their order"""
    w = World(g, top, R)
    w.unit = R.choice([1.0, 1.0, .001, 86400.0])
    ops = g["ops"]
    res = [None] * len(ops)
    lines = {}
    blocked = []        # operations that waited for the load they were done during

    i = 0
    while i < len(ops):
        op = ops[i]
        w.elsewhere()
        if op["o"] == "load":
            res[i] = w.load(op["n"])
        elif op["o"] == "begin":
            j = i
            while ops[j]["o"] != "end":
                j += 1
            threads = []

            def act(k):
                x = ops[k]
                if x["o"] != "load":
                    return w.env(x)

                def target():
                    res[k] = w.load(x["n"])
                th = threading.Thread(target=target, daemon=True)
                th.start()
                threads.append(th)
                th.join(2 if len(SLOW) < 3 else .05)
                if th.is_alive():
                    SLOW.append(1)
                    blocked.append((k, i, j))

            due = {}
            for p, k in zip(at.get(i, ()), range(i + 1, j)):
                due.setdefault(p, []).append(lambda k=k: act(k))
            tr = Tracer(due)
            res[j] = w.load(ops[j]["n"], tr)
            for th in threads:
                th.join(10)
            lines[i] = tr.n
            if i not in at:
                for k in range(i + 1, j):
                    act(k)
            if due:
                return res, lines, blocked, False
            i = j
        else:
            w.env(op)
        i += 1
    return res, lines, blocked, True


def judge(g, res, blocked):
    ops = g["ops"]
    # what another thread gets that waits for the load in progress is left open if files change during it
    skip = {k for k, i, j in blocked if any(x["o"] not in ("load", "tick") for x in ops[i + 1:j])}
    for i, (op, must) in enumerate(zip(ops, g["must"])):
        if op["o"] not in ("load", "end") or must in ("?", "") or i in skip:
            continue
        got = res[i]
        if got is None:
            return "operation %d: loading %s did not end" % (i + 1, op["n"])
        want = normal(must)
        if got[0] != want:
            return "operation %d: loading %s gave %s, expected %s" % (i + 1, op["n"], got[0], want)
    for i, j in g["same"]:
        if i in skip or j in skip:
            continue
        if res[i] and res[j] and res[i][1] is not None and res[j][1] is not None and res[i][1] is not res[j][1]:
            return "operations %d and %d: another template was returned for %s, though nothing changed" % (j + 1, i + 1, ops[i]["n"])
    return None


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    base = os.path.dirname(os.path.abspath(sys.argv[2]))
    results = []
    k = 0
    for t in tasks:
        R = random.Random(t["seed"])
        out = dict(runs=0, loads=0, determined=0, points=0, bad=[])
        for g in t["groups"]:
            def attempt(at):
                nonlocal k
                k += 1
                with tempfile.TemporaryDirectory(dir=base, prefix="w%d-" % k) as top:
                    out["runs"] += 1
                    try:
                        return run_history(g, top, R, at)
                    finally:
                        os.chdir(base)
            out["loads"] += sum(o["o"] in ("load", "end") for o in g["ops"])
            out["determined"] += sum(m not in ("?", "") for m in g["must"])
            loads = split(g)
            if not loads:
                ats = [{}]
            else:
                # all points for one operation, some for several
                lines = attempt({})[1]
                i, j = loads[0]
                if len(loads) == 1 and j - i == 2 and g["family"] != "random":
                    ps = range(1, lines[i] + 1)
                    ats = [{i: [p]} for p in (ps if len(ps) <= t["points"] else R.sample(ps, t["points"]))]
                else:
                    ats = [{i: sorted(R.randint(1, lines[i]) for _ in range(i + 1, j)) for i, j in loads} for _ in range(t["several"])]
            for at in ats:
                res, _, blocked, done = attempt(at)
                if done:
                    out["points"] += bool(at)
                    what = judge(g, res, blocked)
                    if what and len(out["bad"]) < 10:
                        out["bad"].append(dict(ops=g["ops"], fs=g["fs"], paths=g["paths"], reload=g["reload"], points=at,
                                               what=what + (" (points %s)" % list(at.values()) if at else "")))
                        break
        results.append(out)
    with open(sys.argv[2], "w") as f:
        json.dump(results, f)


if __name__ == "__main__":
    main()
