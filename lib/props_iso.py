"""C10: schedules of spec/Isolation.tla over programs judged by spec/TkMachine.tla."""
import copy
import json
from concurrent.futures import ThreadPoolExecutor

import tkast
import tkrun
from tkast import *
from tkgen import Gen, profile

ASSUME = ["within one instruction of a template or one line of the implementation nothing is interleaved"]


def vary(ctx, R):
    """the same names with other values of the same types"""
    r = []
    for n, v in ctx:
        v = copy.deepcopy(v)

        def go(v):
            if v["t"] in ("str", "mk"):
                v["s"] = R.choice(["", "V", "<v>", "v&amp;", "vary"]) + v["s"]
            elif v["t"] == "int":
                v["n"] = v["n"] + 1 if v["n"] else 0
            elif v["t"] == "list":
                for x in v["v"]:
                    go(x)
            elif v["t"] == "dict":
                for x in v["v"]:
                    go(x["v"])
        go(v)
        r.append((n, v))
    return r


def systematic(R):
    g = []
    v = lambda *a, **k: text(*a, **k)
    ctxs = lambda: [[("v", vs("<1>")), ("l", vl(vs("a"), vs("<"))), ("yes", vi(1)), ("d", vd(("x", vs("y"))))],
                    [("v", vs("2")), ("l", vl(vs("b"))), ("yes", vi(0)), ("d", vd(("x", VN), ("z", vi(3))))],
                    [("v", vbad("1")), ("l", vl(vs("a"), vbad("2"))), ("yes", vi(1)), ("d", vd(("x", vb(True))))]]

    def family(files, entries, funcs=("__main__",)):
        g.append([prog(files, c, entry=e, func=f, tbs=True) for e in entries for f in funcs for c in ctxs()])
    # results of functions kept, output several times, passed on, nested
    f = ctl(def_("f", "a"), text("[", V("a"), V("v"), "]"))
    h = ctl(def_("h", "r"), text("(", V("r"), V("r"), ")"))
    family([file("t.tk", el("html", f, h, ctl(with_(("r", call("f", S("<")))), text(V("r"), V("v"), V("r"), call("h", V("r")), V("r"))),
                            el("p", "x", attrs=[at("a", call("f", V("v")), "b", call("f", N(1)))])))], [1], ("__main__", "html"))
    family([file("t.tk", el("html", f, ctl(for_(V("l"), "i"), ctl(with_(("r", call("f", V("i")))), text(V("i"), ":", V("r"), V("r"))))))], [1])
    family([file("t.tk", el("html", ctl(def_("k"), text(V("v")), ctl(def_("n", "x"), text(V("x"), V("v"))), text(call("n", S("1")), call("n", V("v")))),
                            text(call("k"), call("k"))))], [1], ("__main__", "k"))
    # variables, attributes, conditions
    family([file("t.tk", el("html", ctl(with_(("w", V("v")), ("u", cat(S("u"), S("-")))), text(V("w"), V("u")), ctl(if_(V("yes")), text("y", V("w"))),
                                        el("p", text(V("w")), attrs=[at("a", V("w")), at("b", V("yes"))], pyattrs=V("d")))))], [1])
    family([file("t.tk", el("html", code(("w", V("v"))), text(V("w")), ctl(for_(V("l"), "i"), text(V("i"), V("w")))))], [1])
    # chains, imports
    lib = file("l.tk", el("div", ctl(def_("f", ("a", N(1))), text("lib", V("a"), V("v"), call("q"))), ctl(def_("q"), text("q", V("yes")))))
    base = file("b.tk", el("html", imp(1, "m"), ctl(block("A"), text("A0", call("f"))), ctl(def_("f"), text("f0", V("v"))), text(call(attr(V("m"), "f"), V("v")), call("f"))))
    d1 = file("d1.tk", ctl(block("A"), text("A1", V("v"), call("f"))), ext=2)
    d2 = file("d2.tk", ctl(def_("f"), text("f2", V("l"), V("v"))), ext=2)
    d3 = file("d3.tk", imp(1, "m"), ctl(block("A"), text("A3", call(attr(V("m"), "f")), call("f"))), ext=4)
    family([lib, base, d1, d2, d3], [2, 3], ("__main__",))
    family([lib, base, d1, d2, d3], [4, 5], ("__main__",))
    family([lib, base, d1, d2, d3], [5, 3], ("__main__", "A"))
    family([lib, base, d1, d2, d3], [1, 5], ("f", "q"))
    u = lambda a: file("u%s.tk" % a, el("html", imp(1, "m"), ctl(for_(V("l"), "i"), text(call(attr(V("m"), "f"), V("i")))), text(call(attr(V("m"), "q")))))
    family([lib, u("1"), u("2")], [2, 3])
    # contexts that are equal, and are not the same
    ones = [vi(1), vb(True), as_("float", vobj("1.0"))]
    strs = [vs("<b>"), vmk("<b>"), as_("sub", vs("<b>"))]
    for nodes in ([text(V("v"), "/", V("w")), el("p", attrs=[at("a", V("v"), "b", V("w")), at("checked", V("v"))])],
                  [ctl(def_("f", "a", ("b", V("v"))), text("[", V("a"), V("b"), V("v"), "]")), text(call("f", V("w")), call("f", S("x"), V("w")))],
                  [ctl(block("A"), ctl(for_(V("l"), "i"), text(V("i"), ";"))), el("i", pyattrs=V("d")), ctl(with_(("u", idx(V("l"), N(0)))), text(V("u"), cat(lit(V("w")), V("w"))))]):
        cs = [[("v", a), ("w", b), ("l", vl(a, b)), ("d", vd(("k", a), ("q", b)))] for a in ones for b in strs]
        g.append([prog(el("html", *nodes), c, hosts=False, tbs=True) for c in cs])
    return g


def schedules(run):
    """kinds of schedules -> list of operations"""
    kinds = dict(
        two=dict(segments=[4, 4], template=[1, 1], bound=8, times=1, reads=False, renews=False),
        three=dict(segments=[2, 3, 2], template=[1, 1, 2], bound=7, times=1, reads=False, renews=False),
        four=dict(segments=[2, 2, 2, 2], template=[1, 1, 2, 2], bound=8, times=1, reads=False, renews=False),
        history=dict(segments=[1, 1, 1], template=[1, 1, 2], bound=run.pick(5, 6), times=0, reads=True, renews=True),
        history2=dict(segments=[1, 1, 1, 1], template=[1, 2, 3, 4], bound=run.pick(5, 6), times=0, reads=False, renews=False),
    )
    if run.thorough:
        kinds["two-deep"] = dict(segments=[7, 7], template=[1, 1], bound=14, times=1, reads=False, renews=False)
        kinds["three-deep"] = dict(segments=[3, 4, 3], template=[1, 1, 2], bound=10, times=1, reads=False, renews=False)

    def one(k):
        r = run.tlc("Isolation", env={"ISO_PARAMS": "p.json"}, files={"p.json": json.dumps(kinds[k])}, workers=1, mem="3g", timeout=run.pick(250, 800))
        s = [json.loads(json.loads(x)[3:]) for x in r["text"].split("\n") if x.startswith('"IS ')]
        run.cov["states"] = run.cov.get("states", 0) + r["distinct"]
        run.cov["transitions"] = run.cov.get("transitions", 0) + r["generated"]
        return k, s
    with ThreadPoolExecutor(6) as ex:
        r = dict(ex.map(one, kinds))
    run.cov["schedules"] = {k: len(s) for k, s in r.items()}
    return kinds, r


def check(run):
    R = run.rng
    groups = systematic(R)
    g = Gen(R, profile(depth=2, nodes=dict(imp=1), ctls={"block": 2, "def": 3, "with": 3}, exprs=dict(call=5, bad=.15), tbs=True))
    g1 = Gen(R, profile(depth=3, nodes=dict(imp=0), exprs=dict(call=4, bad=.15), tbs=True))
    gt = Gen(R, profile(depth=2, nodes=dict(imp=.5), exprs=dict(bad=.15), tbs=True, tr="wrap"))
    for j in range(run.pick(70, 900)):
        pr = gt.family((1, 3), (0, 1)) if j % 4 == 1 else g.family((1, 4), (0, 2)) if j % 3 else g1.single()
        ks = [j for j, f in enumerate(pr["files"], 1) if f["name"].startswith("t") or f["name"] == "main.tk"]
        grp = []
        base = [(x["n"], x["v"]) for x in pr["ctx"]]
        for ctx in (base, vary(base, R)):
            for e in {pr["entry"], R.choice(ks)}:
                grp.append(dict(pr, entry=e, ctx=[{"n": n, "v": v} for n, v in ctx], func=pr["func"] if e == pr["entry"] else "__main__"))
        if j % 4 == 1:
            grp = [dict(pr, tr=t) for pr in grp[:3] for t in ("id", "wrap", "mk")]
        groups.append(grp)
    kinds, sch = schedules(run)
    tasks, flat, of = [], [], []
    per = run.pick(36, 120)
    nthreads = nseq = 0
    for gi, grp in enumerate(groups):
        pr = tkast.Printer(grp[0], R, wild=True)
        t = tkast.task(grp, pr.files(), pr.real)
        t["seed"] = R.randrange(10 ** 9)
        t["schedules"] = []
        # translated or not, the loader is the same
        for r, pr in zip(t["renders"], grp):
            r["tr"] = pr["tr"]
        t["tr"] = "on" if any(pr["tr"] != "off" for pr in grp) else "off"
        for _ in range(per * (3 if gi < 18 else 1)):
            k = R.choice([k for k in sch])
            ops = R.choice(sch[k])
            n = len(kinds[k]["segments"])
            which = [R.randrange(len(grp)) for _ in range(n)]
            if R.random() < .3:
                which[1] = which[0]
            th = not k.startswith("history")
            nthreads += th
            nseq += not th
            t["schedules"].append(dict(ops=ops, which=which, threads=th, share=R.random() < .5, warm=R.random() < .5, load=R.random() < .1, reuse=not th and R.random() < .3,
                                       fresh=th and R.random() < .2))
        tasks.append(t)
        for pr in grp:
            f = tkast.flatten(pr, len(flat) + 1)
            flat.append(f)
            of.append((t, pr))
    res = run.worker("tkiso", tasks, timeout=850)
    obs = [o for r in res for o in r["solo"]]
    for f, o in zip(flat, obs):
        f["obs"] = {k: v for k, v in o.items() if k not in ("msg", "how")}
    tkrun.collect(run, flat, [t for t, _ in of], obs, [pr for _, pr in of])
    run.cov.update(concurrent=nthreads, sequential=nseq, points=sum(r["points"] for r in res))
    for t, r in zip(tasks, res):
        for b in r["bad"]:
            run.violation("isolation:%s" % ("threads" if b["schedule"]["threads"] else "history"),
                          "%s: %s with %s" % (b["what"][:600], json.dumps(b["schedule"]), json.dumps(t["files"])[:800]),
                          dict(task=dict(t, schedules=[b["schedule"]]), **b))


CHECKS = dict(C10=check)
