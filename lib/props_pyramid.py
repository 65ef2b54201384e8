"""C20: histories of spec/PyramidCfg.tla in real Pyramid applications."""
import itertools
import json
from concurrent.futures import ThreadPoolExecutor

ASSUME = [
    "the configuration is complete before the first rendering, and follows Pyramid's rules for conflicts",
    "two versions of a file have different modification times, and in reload mode no new file hides one that was loaded",
    "values that dict.update() accepts although they are not dictionaries are not given",
]

BASES = {
    "a.tk": dict(how="", to=""), "b.html": dict(how="", to=""), "sub/c.tk": dict(how="", to=""), "lib.tk": dict(how="", to=""), "n.zz": dict(how="", to=""),
    "i.tk": dict(how="imports", to="lib.tk"), "x.tk": dict(how="extends", to="a.tk"), "ia.tk": dict(how="imports", to="P:lib.tk"), "xa.tk": dict(how="extends", to="B=a.tk"),
    "o.other": dict(how="", to=""), "no:w.tk": dict(how="", to=""), "nomodule:sub/v.tk": dict(how="extends", to="no:w.tk"),
}
NAMES = {b: dict(kind="plain", d="", b=b, ext="." + b.rsplit(".", 1)[1]) for b in BASES}
for _b in ("a.tk", "lib.tk", "i.tk", "x.tk", "b.html", "sub/c.tk", "no:w.tk", "nomodule:sub/v.tk"):
    NAMES["P:" + _b] = dict(kind="asset", d="P", b=_b, ext="." + _b.rsplit(".", 1)[1])
    NAMES["B=" + _b] = dict(kind="abs", d="B", b=_b, ext="." + _b.rsplit(".", 1)[1])


def settings(exts=((".tk",),), paths=((),), reload=("",), pyramid=("",), l10n=("",)):
    return [dict(exts=list(e), paths=list(p), reload=r, pyramid=q, l10n=t) for e, p, r, q, t in itertools.product(exts, paths, reload, pyramid, l10n)]


def ext(*v, a=1):
    return dict(o="ext", a=a, v=list(v))


def paths(*v, a=1):
    return dict(o="paths", a=a, v=list(v))


def reload(v, a=1):
    return dict(o="reload", a=a, v=v)


def l10n(v, a=1):
    return dict(o="l10n", a=a, v=v)


def include(a=1):
    return dict(o="include", a=a)


def render(n, v="plain", a=1):
    return dict(o="render", a=a, n=n, v=v)


def write(f):
    return dict(o="write", f=f)


def delete(f):
    return dict(o="delete", f=f)


FLAGS = ("", "T", "F")
FILES = ["A/a.tk", "B/a.tk", "B/lib.tk", "P/a.tk", "P/lib.tk", "C/sub/c.tk", "A/i.tk", "A/x.tk", "B/b.html", "A/no:w.tk", "B/no:w.tk", "P/no:w.tk", "P/nomodule:sub/v.tk"]


def families():
    r, w, d = render, write, delete
    f = {}
    f["flags"] = dict(settings=[settings(paths=[("A",)], reload=FLAGS, pyramid=FLAGS, l10n=FLAGS)], alphabet=[reload(True), reload(False), l10n(True), l10n(False), include()],
                      bound=(2, 3), fewer=True, files=FILES, then=[r("a.tk"), w("A/a.tk"), r("a.tk"), d("A/a.tk"), r("a.tk"), r("a.tk", "bad")])
    f["paths"] = dict(settings=[settings(paths=[(), ("A",), ("B", "A"), ("P",), ("P", "C")], reload=("", "T"))], alphabet=[paths("A"), paths("B"), paths("P"), paths("C"), paths("P", "A"), paths("C", "B"), include()],
                      bound=(2, 3), fewer=True, files=FILES,
                      then=[r("a.tk"), r("P:a.tk"), r("i.tk"), r("x.tk", "over"), r("sub/c.tk"), r("B=a.tk"), r("P:lib.tk"), r("P:sub/c.tk"), r("lib.tk"), r("no:w.tk"), r("nomodule:sub/v.tk"), r("P:no:w.tk"), r("P:nomodule:sub/v.tk"), r("B=no:w.tk"), d("A/a.tk"), d("P/lib.tk"), r("a.tk"), r("i.tk"), r("x.tk"), r("lib.tk")])
    f["extensions"] = dict(settings=[settings(exts=[(), (".tk",), (".html",), (".tk", ".html", ".pt")], paths=[("A", "B", "P")])],
                           alphabet=[ext(".tk"), ext(".html"), ext(".zz"), ext(".tk", ".html"), ext(".html", ".zz"), include(), l10n(True)], bound=(2, 3), fewer=True,
                           files=FILES + ["A/n.zz", "A/o.other"], then=[r("a.tk"), r("b.html"), r("n.zz"), r("o.other"), r("P:a.tk"), r("B=b.html", "over"), r("a.tk", "bad")])
    f["serving"] = dict(settings=[settings(paths=[("A", "B", "P")], reload=("T", "F"), l10n=("T",))],
                        alphabet=[r("a.tk"), r("i.tk"), r("x.tk"), r("P:a.tk"), w("A/a.tk"), d("A/a.tk"), w("B/lib.tk"), d("B/lib.tk"), w("P/a.tk"), w("A/x.tk"), r("a.tk", "bad")],
                        bound=(4, 5), files=FILES)
    f["two"] = dict(settings=[settings(paths=[("A",)], reload=("", "T"), l10n=("", "T")), settings(exts=[(".tk",), (".html",)], paths=[("B", "A")], reload=("", "T"))],
                    alphabet=[reload(True), l10n(True, 2), paths("P", a=2), paths("B"), ext(".html"), ext(".tk", a=2), r("a.tk"), r("a.tk", a=2), w("A/a.tk")], bound=(3, 4), files=FILES,
                    then=[r("a.tk"), r("a.tk", a=2), w("A/a.tk"), w("B/a.tk"), r("a.tk"), r("a.tk", a=2), r("b.html"), r("b.html", a=2), r("x.tk", "over"), r("x.tk", a=2)])
    return f


def random_history(R):
    n = R.choice([1, 1, 2, 3])
    sets = []
    some = lambda xs, a, b: R.sample(xs, R.randint(a, b))
    for _ in range(n):
        sets.append(dict(exts=R.choice([[], [".tk"], [".tk", ".html"], [".html", ".pt"], [".tk", ".zz"]]), paths=some(["A", "B", "C", "P"], 0, 3),
                         reload=R.choice(FLAGS), pyramid=R.choice(FLAGS), l10n=R.choice(FLAGS)))
    h = []
    for _ in range(R.randint(0, 4 * n)):
        a = R.randint(1, n)
        h.append(R.choice([lambda: ext(*some([".tk", ".html", ".zz"], 1, 2), a=a), lambda: paths(*some(["A", "B", "C", "P"], 1, 2), a=a), lambda: paths(*some(["A", "B", "C", "P"], 1, 2), a=a),
                           lambda: reload(R.random() < .5, a), lambda: l10n(R.random() < .5, a), lambda: include(a)])())
    names = list(NAMES)
    files = ["%s/%s" % (d, b) for d in "ABCP" for b in BASES]
    mine = some(names, 2, 5) + ["a.tk"]
    rel = [f for f in files if any(f.split("/", 1)[1] == NAMES[x]["b"] or f.split("/", 1)[1] == NAMES.get(BASES[NAMES[x]["b"]]["to"], {}).get("b") for x in mine)]
    for _ in range(R.randint(3, 14)):
        x = R.random()
        h.append(render(R.choice(mine), R.choice(["plain", "plain", "over", "bad"]), R.randint(1, n)) if x < .6 else write(R.choice(rel)) if x < .85 else delete(R.choice(rel)))
    return sets, h, R.sample(files, R.randint(8, 30))


def tlc(run, f):
    files = {x: j + 1 for j, x in enumerate(f["files"])}
    p = dict(settings=f["settings"], names=NAMES, bases=BASES, alphabet=f.get("alphabet") or [include()], bound=f["n"], then=f["then"] if f["family"] == "random" else [f.get("then", [])], fewer=f.get("fewer", False),
             files=files, ver=len(files) + 10)
    r = run.tlc("PyramidCfg", env={"PC_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g", timeout=run.pick(300, 800))
    hs = [json.loads(json.loads(line)[3:]) for line in r["text"].split("\n") if line.startswith('"PC ')]
    return [dict(h, files=files, family=f["family"]) for h in hs], r


def check(run):
    R = run.rng
    jobs = []
    for n, f in families().items():
        f = dict(f, family=n, n=f["bound"][1 if run.thorough else 0])
        # a job for each settings of the first application
        for s in f["settings"][0]:
            jobs.append(dict(f, settings=[[s]] + f["settings"][1:]))
    for _ in range(run.pick(40, 400)):
        sets, _, files = random_history(R)
        k = len(sets)
        then = [[dict(x, a=(x["a"] - 1) % k + 1) if "a" in x else x for x in random_history(R)[1]] for _ in range(25)]
        jobs.append(dict(family="random", settings=[[s] for s in sets], then=then, n=0, files=files))
    hists, fams, states, trans = [], {}, 0, 0
    with ThreadPoolExecutor(8) as ex:
        for f, (hs, r) in zip(jobs, ex.map(lambda f: tlc(run, f), jobs)):
            hists += hs
            fams[f["family"]] = fams.get(f["family"], 0) + len(hs)
            states += r["distinct"]
            trans += r["generated"]
    R.shuffle(hists)
    cap, used, use = run.pick(1500, 20000), {}, []
    for h in hists:
        if not any(x["o"] == "render" for x in h["hist"]):
            continue
        used[h["family"]] = used.get(h["family"], 0) + 1
        if used[h["family"]] <= cap:
            use.append(dict(h, names=NAMES, bases=BASES))
    k = run.pick(100, 400)
    res = run.worker("tkpyramid", [dict(seed=R.randrange(10 ** 9), hists=use[j:j + k]) for j in range(0, len(use), k)], timeout=850)
    ways = {}
    for r in res:
        for x, y in r["ways"].items():
            ways[x] = ways.get(x, 0) + y
    run.cov.update(histories=len(hists), replayed=len(use), states=states, transitions=trans, renders=sum(r["renders"] for r in res), traces_validated_against_impl=len(use),
                   families=fams, ways=ways)
    for h in use[:3]:
        run.sample(dict(sets=h["sets"], hist=h["hist"]))
    for r in res:
        for b in sorted(r["bad"], key=lambda b: len(b["hist"]) or 10 ** 6):
            run.violation("history", "%s: settings %s, %s" % (b["what"], json.dumps(b["sets"]), json.dumps(b["hist"])), b)


CHECKS = dict(C20=check)
