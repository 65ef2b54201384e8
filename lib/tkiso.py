"""Renders what shares templates, loader and contexts by the schedules of spec/Isolation.tla.

A task: {files, renders, tr, schedules: [{ops, threads, load}]}.  Every rendering is first done
alone; then the schedules must lead to the same.  In threads, a rendering is stopped at
instructions of its templates and at lines of the implementation."""
import json
import os
import random
import sys
import tempfile
import threading

import tkdrive
from tkdrive import Env, FileLoader, exc_name, norm, snapshot, template_frames, Boom

import tonnikala
ROOT = os.path.dirname(os.path.abspath(tonnikala.__file__))
RUNTIME = {os.path.join(ROOT, "loader.py"), os.path.join(ROOT, "runtime", "python.py"), os.path.join(ROOT, "helpers", "__init__.py")}
LOCAL = threading.local()

# what the modules know before the first rendering of the process
FRESH = [(m, dict(vars(m))) for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "tonnikala" and m]
EMPTY = [v for m, ns in FRESH for v in ns.values() if type(v) in (dict, list, set) and not v]


def fresh():
    """as in a process that has rendered nothing yet"""
    for m, ns in FRESH:
        for k, v in ns.items():
            if vars(m).get(k, FRESH) is not v:
                setattr(m, k, v)
            elif hasattr(v, "cache_clear"):
                v.cache_clear()
    for v in EMPTY:
        v.clear()


class SharedEnv(Env):
    """the logs are those of the rendering"""

    nested = None       # renderings within renderings: tkdrive

    def __init__(self, tr):
        self.tr = tr

    log = property(lambda self: LOCAL.log)
    raised = property(lambda self: LOCAL.raised)


class Tracer:
    """counts the points by category, and stops at some"""

    def __init__(self, d, stops=(), stop=None, load=True):
        self.d = d
        self.n = dict(tmpl=0, run=0, load=0)
        self.stops = set(stops)
        self.stop = stop
        self.load = load
        self.cats = {}

    def cat(self, code):
        c = self.cats.get(code)
        if c is None:
            f = code.co_filename
            if f.startswith(self.d):
                c = "load" if code.co_name == "<module>" else "tmpl"
            elif f in RUNTIME:
                c = "run"
            elif f.startswith(ROOT) and self.load:
                c = "load"
            else:
                c = ""
            self.cats[code] = c
        return c

    def trace(self, frame, event, arg):
        c = self.cat(frame.f_code)
        if not c:
            return None
        if c == "tmpl":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                n = self.n
                n[c] += 1
                if (c, n[c]) in self.stops:
                    self.stop()
            return local
        return local


class Client:
    def __init__(self, task, r, d, env=None, ctx=None):
        self.task, self.r, self.d = task, r, d
        self.env = env or SharedEnv(r["tr"])
        if ctx is None:
            ctx = {x["n"]: self.env.value(x["v"]) for x in r["ctx"]}
            if r["tr"] != "off":
                ctx["gettext"] = self.env.h_gettext
        self.ctx = self.given = ctx
        self.before = snapshot(ctx)
        self.buf = None
        self.obs = None

    def render(self, loader, tracer=None):
        LOCAL.log, LOCAL.raised = [], []
        o = dict(ok=True, out="", log=[], exc="", same=True, tb=[], inn={"file": "", "line": 0}, msg="")
        try:
            if tracer:
                sys.settrace(tracer.trace)
            try:
                t = loader.load(self.r["entry"])
                buf = t.render_to_buffer(self.given, self.r["func"])
                o["out"] = norm(buf.join())
            finally:
                sys.settrace(None)
            self.buf = buf
        except Exception as e:
            self.buf = None
            o["ok"] = False
            o["exc"] = exc_name(e)
            o["msg"] = str(e)[:200]
            o["same"] = not isinstance(e, Boom) or (len(LOCAL.raised) == 1 and LOCAL.raised[0] is e)
            o["tb"], o["inn"] = template_frames(e, self.d)
        o["log"] = LOCAL.log
        o["ctxkept"] = snapshot(self.given) == self.before
        o["again"] = True
        self.obs = o
        return o


def differs(o, solo):
    for k in ("ok", "out", "exc", "log", "ctxkept", "same", "tb", "inn"):
        if o[k] != solo[k]:
            return "%s: %r, alone: %r" % (k, o[k], solo[k])
    return None


class Scheduled:
    """one rendering in a thread of its own"""

    def __init__(self, client, loader, stops, load):
        self.client, self.loader = client, loader
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.tracer = Tracer(client.d, stops, self.pause, load)
        self.ended = False
        self.free = False
        self.th = threading.Thread(target=self.main, daemon=True)
        self.th.start()

    def main(self):
        self.go.acquire()
        self.client.render(self.loader, self.tracer)
        self.ended = True
        self.back.release()

    def pause(self):
        if self.free:
            return
        self.back.release()
        self.go.acquire()

    def run(self):
        """to the next stop"""
        if self.ended:
            return True
        self.go.release()
        return self.back.acquire(timeout=1)


def concurrent(task, sch, d, solo, counts, R):
    rs = task["renders"]
    which = sch["which"]
    loaders = {}

    def loader():
        return FileLoader([d], syntax=task.get("syntax", "tonnikala"), translatable=task["tr"] != "off")
    ld = loader()
    if sch["warm"]:
        for i in which:
            Client(task, rs[i], d).render(ld)
    if sch["fresh"]:
        fresh()
    shared = {}
    threads = []
    segs = {}
    for op in sch["ops"]:
        segs[op["c"]] = segs.get(op["c"], 0) + 1
    for c, i in enumerate(which, 1):
        key = json.dumps([rs[i]["ctx"], rs[i]["tr"]])
        if sch["share"] and key in shared:
            cl = Client(task, rs[i], d, *shared[key])
        else:
            cl = Client(task, rs[i], d)
            shared[key] = (cl.env, cl.ctx)
        cats = [k for k in ("tmpl", "tmpl", "tmpl", "run", "load") if counts[i][k] and (k != "load" or sch["load"])]
        stops = []
        for _ in range(segs[c] - 1):
            k = R.choice(cats) if cats else "tmpl"
            stops.append((k, R.randint(1, max(1, counts[i][k]))))
        if sch["fresh"] and stops:
            stops[0] = ("run", R.randint(1, max(1, 2 * counts[i]["run"])))
        threads.append(Scheduled(cl, ld, stops, sch["load"]))
    stuck = False
    for op in sch["ops"]:
        if not threads[op["c"] - 1].run():
            # it waits for another one: let all go on
            stuck = True
            break
    for t in threads:
        t.free = True
        t.go.release()
    for t in threads:
        t.th.join(20)
        if t.th.is_alive():
            return "a rendering did not end", None
    for t, i in zip(threads, which):
        w = differs(t.client.obs, solo[i])
        if w:
            return w, [sorted(x.tracer.stops) for x in threads]
    return None, None


def sequential(task, sch, d, solo):
    rs = task["renders"]

    def loader():
        return FileLoader([d], syntax=task.get("syntax", "tonnikala"), translatable=task["tr"] != "off")
    ld = loader()
    # all may be rendered with one dictionary, whose values change in between
    one = {} if sch["reuse"] else None
    shared, clients = {}, []
    for i in sch["which"]:
        key = json.dumps([rs[i]["ctx"], rs[i]["tr"]])
        if sch["share"] and key in shared:
            clients.append(Client(task, rs[i], d, *shared[key]))
        else:
            clients.append(Client(task, rs[i], d))
            shared[key] = (clients[-1].env, clients[-1].ctx)
    for k, op in enumerate(sch["ops"]):
        if op["o"] == "renew":
            ld = loader()
            continue
        c = clients[op["c"] - 1]
        s = solo[sch["which"][op["c"] - 1]]
        if op["o"] == "run":
            if one is not None:
                one.clear()
                one.update(c.ctx)
                c.given = one
            w = differs(c.render(ld), s)
        else:
            w = None
            if c.buf is not None and not (norm(c.buf.join()) == norm(str(c.buf)) == s["out"]):
                w = "the result is now %r, alone: %r" % (norm(c.buf.join()), s["out"])
        if w:
            return "operation %d: %s" % (k + 1, w)
    return None


def run(task, base):
    d = tempfile.mkdtemp(dir=base)
    R = random.Random(task["seed"])
    for name, src in task["files"].items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), "w", encoding="utf-8") as f:
            f.write(src)
    solo, counts = [], []
    for r in task["renders"]:
        ld = FileLoader([d], syntax=task.get("syntax", "tonnikala"), translatable=task["tr"] != "off")
        tr = Tracer(d, load=True)
        c = Client(task, r, d)
        solo.append(c.render(ld, tr))
        counts.append(tr.n)
    bad = []
    # how deep an endless recursion gets is nobody's business
    good = [i for i, o in enumerate(solo) if o["exc"] != "RecursionError"]
    for s in task["schedules"] if good else ():
        s["which"] = [i if i in good else R.choice(good) for i in s["which"]]
        if s["threads"]:
            w, stops = concurrent(task, s, d, solo, counts, R)
        else:
            w, stops = sequential(task, s, d, solo), None
        if w:
            bad.append(dict(what=w, schedule=s, stops=stops))
            if len(bad) > 2:
                break
    for o in solo:
        for x in o["tb"] + [o["inn"]]:
            x["file"] = task["names"].get(x["file"], x["file"])
    return dict(solo=solo, bad=bad, points=sum(c["tmpl"] + c["run"] for c in counts))


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    base = os.path.abspath(tempfile.mkdtemp(dir="."))
    res = [run(t, base) for t in tasks]
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
