"""C11, C12: histories of spec/FileLoader.tla on the real FileLoader."""
import json
from concurrent.futures import ThreadPoolExecutor

ASSUME = [
    "two versions of a file have different modification times, and in reload mode no new file hides one that was loaded",
    "what a load returns while files change during it is left open",
]


def c(id_, k, to="", v=0):
    return dict(id=id_, k=k, to=to, v=v)


def load(n):
    return dict(o="load", n=n)


def begin(n):
    return dict(o="begin", n=n)


def write(f, k, to="", older=False, inplace=True):
    return dict(o="write", f=f, id=f[3:], k=k, to=to, older=older, inplace=inplace)


def touch(f):
    return dict(o="touch", f=f)


def delete(f):
    return dict(o="delete", f=f)


def tick(t):
    return dict(o="tick", t=t)


def addpath(*ps):
    return dict(o="addpath", ps=list(ps))


def reload(flag):
    return dict(o="reload", flag=flag)


def fs(**kw):
    """p1_a=("leaf",) ..."""
    r = {}
    for j, (f, x) in enumerate(kw.items()):
        f = f.replace("_", "/")
        r[f] = dict(c=c(f[3:], x[0], x[1] if len(x) > 1 else "", j + 1), m=j + 1, ino=j + 1)
    return r


CHAIN = fs(p1_a=("ext", "b"), p1_b=("ext", "c"), p1_c=("leaf",))
PLAIN = fs(p1_a=("ext", "b"), p1_b=("leaf",), p1_d=("imp", "b"))
PATHS = fs(p1_a=("leaf",), p2_a=("leaf",), p2_b=("leaf",), p3_c=("leaf",))
W = write


def families(prop):
    f = {}
    if prop == "C11":
        f["search"] = dict(fs=PATHS, paths=["p1"], alphabet=[load("a"), load("b"), load("c"), load("=p2/a"), load("=p2/z"), addpath("p2"), addpath("p3"), addpath("p3", "p2"), addpath("p1"), delete("p1/a"), W("p1/b", "leaf")],
                           bound=(4, 5))
        f["hiding"] = dict(fs=fs(p2_a=("leaf",), p2_b=("ext", "a")), paths=["p1", "p2"], alphabet=[load("a"), load("b"), W("p1/a", "leaf"), W("p1/b", "ext", "a"), delete("p2/a"), delete("p1/a"),
                                                                                               W("p2/a", "leaf", inplace=False), load("=p1/a"), addpath("p1")], bound=(4, 6))
        f["forever"] = dict(fs=PLAIN, paths=["p1"], alphabet=[load("a"), load("b"), load("d"), W("p1/a", "leaf"), W("p1/b", "leaf", inplace=False), W("p1/b", "bad"), touch("p1/a"), delete("p1/a"),
                                                              delete("p1/b"), tick(2)], bound=(4, 5))
        f["failing"] = dict(fs=fs(p1_a=("ext", "b"), p1_b=("bad",)), paths=["p1"], alphabet=[load("a"), load("b"), load("=p1/b"), W("p1/b", "leaf"), W("p1/b", "bad"), W("p1/b", "utf8"), W("p1/a", "ext", "z"),
                                                                                         W("p1/a", "imp", "z"), delete("p1/b"), W("p1/z", "leaf", older=True)], bound=(4, 5))
        L = load
        wi, wb, d = W("p1/a", "leaf"), W("p1/b", "leaf", inplace=False), delete("p1/b")
        then = [load("a"), load("b"), load("d")]
        before = [[], [L("a")], [L("b")], [L("d")], [wb], [d]]
        f["threads"] = dict(fs=PLAIN, paths=["p1"], given=before, alphabet=[begin("a"), begin("b"), begin("d"), load("a"), load("b"), load("d"), wb], bound=(4, 4), during=3, then=then)
        f["during"] = dict(fs=PLAIN, paths=["p1"], given=before, alphabet=[begin("a"), begin("b"), begin("d"), wi, wb, d, W("p1/b", "bad"), W("p1/d", "ext", "a"), delete("p1/a"), load("a")],
                           bound=(3, 4), during=3, then=then)
        f["failing-during"] = dict(fs=fs(p1_a=("ext", "b"), p1_b=("bad",)), paths=["p1"], given=[[], [L("a")], [d]], alphabet=[begin("a"), begin("b"), W("p1/b", "leaf"), W("p1/b", "utf8"), d, load("a"), load("b")],
                                   bound=(4, 4), during=3, then=[load("a"), W("p1/b", "leaf"), load("a"), load("b")])
    else:
        f["changes"] = dict(fs=PLAIN, paths=["p1"], alphabet=[load("a"), load("b"), load("d"), W("p1/a", "leaf"), W("p1/b", "leaf", older=True), W("p1/b", "bad"), touch("p1/b"), delete("p1/b"),
                                                              W("p1/b", "leaf", inplace=False), tick(1), tick(2)], bound=(4, 5))
        f["chain"] = dict(fs=CHAIN, paths=["p1"], alphabet=[load("a"), load("b"), load("c"), W("p1/a", "ext", "c", older=True), W("p1/b", "leaf"), W("p1/c", "leaf"), delete("p1/c"), tick(2), W("p1/c", "utf8")],
                          bound=(5, 6))
        f["paths"] = dict(fs=PATHS, paths=["p1", "p2"], alphabet=[load("a"), load("b"), delete("p1/a"), delete("p2/a"), W("p2/a", "leaf", older=True), W("p1/a", "leaf"), tick(2), load("=p2/a"), addpath("p3"), load("c")],
                          bound=(4, 5))
        f["flag"] = dict(fs=PLAIN, paths=["p1"], alphabet=[load("a"), load("d"), W("p1/b", "leaf"), delete("p1/a"), tick(2), tick(1), reload(True), reload(False)], bound=(5, 6), reload=False)
        f["interval"] = dict(fs=fs(p1_a=("leaf",)), paths=["p1"], alphabet=[load("a"), tick(1), tick(2), tick(100), W("p1/a", "leaf"), W("p1/a", "leaf", older=True, inplace=False), delete("p1/a")], bound=(6, 7))
        # another version, or another thread, during a load; then loads after the interval
        L, T = load, tick(2)
        wb, wo, wi, d = W("p1/b", "leaf", inplace=False), W("p1/b", "leaf", older=True), W("p1/a", "leaf"), delete("p1/b")
        then = [tick(2), load("a"), load("b"), load("d")]
        before = [[], [L("a")], [L("a"), T], [L("a"), wb, T], [L("b"), T, wo], [L("a"), d, T], [L("d"), wo, T], [L("b"), T]]
        f["during"] = dict(fs=PLAIN, paths=["p1"], given=before, alphabet=[begin("a"), begin("b"), begin("d"), wi, wb, wo, W("p1/b", "bad"), d, touch("p1/b"), touch("p1/a"), T, load("a"), load("b"), load("d")],
                           bound=(3, 4), during=3, then=then)
        f["threads"] = dict(fs=PLAIN, paths=["p1"], given=before, alphabet=[begin("a"), load("a"), load("b"), wb, T], bound=(4, 4), during=3, then=then)
        f["threads-chain"] = dict(bound=(3, 4), fs=CHAIN, paths=["p1"], given=[[], [L("a"), T], [L("c"), T], [L("a"), W("p1/c", "leaf"), T], [L("b"), W("p1/b", "ext", "c"), T]],
                                  alphabet=[begin("a"), load("b"), load("a"), W("p1/c", "leaf"), W("p1/b", "ext", "c"), T], during=3, then=[tick(2), load("a"), load("b"), load("c")])
    return f


def tlc(run, prop, name, f, given, bound):
    files = f["fs"]
    p = dict(alphabet=f.get("alphabet") or [tick(1)], given=given, bound=bound, during=f.get("during", 0), fs=files, reload=f.get("reload", prop == "C12"), paths=f["paths"],
             ver=len(files) + 10, then=f.get("then", []), nested="then" in f)
    r = run.tlc("FileLoader", env={"FL_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g", timeout=run.pick(250, 800))
    groups = {}
    n = 0
    for line in r["text"].split("\n"):
        if line.startswith('"FL '):
            h = json.loads(json.loads(line)[3:])
            n += 1
            ops = [x["op"] for x in h]
            key = json.dumps(ops, sort_keys=True)
            same = {(i, j) for i, x in enumerate(h) for j in range(i) if x["same"] and x["same"] == h[j]["same"]}
            must = [x["must"] for x in h]
            if key in groups:
                g = groups[key]
                # what holds wherever in the load the other operations are
                g["must"] = [a if a == b else "?" for a, b in zip(g["must"], must)]
                g["same"] &= same
            else:
                groups[key] = dict(ops=ops, must=must, same=same)
    for g in groups.values():
        g.update(same=sorted(g["same"]), fs=files, paths=f["paths"], reload=p["reload"], family=name)
    return list(groups.values()), r, n


def random_history(R, prop):
    f = dict(fs=fs(p1_a=("ext", "b"), p1_b=("leaf",), p1_c=("imp", "b"), p2_b=("leaf",), p2_e=("ext", "a"), p1_d=("imp", "a")), paths=["p1", "p2"])
    names = ["a", "b", "c", "d", "e", "=p1/b", "=p2/e", "z"]
    fsn = ["p1/a", "p1/b", "p1/c", "p2/b", "p2/e", "p1/d", "p3/z", "p1/z"]
    h, began = [], False
    for _ in range(R.randint(4, 16)):
        x = R.random()
        if x < .5:
            h.append(load(R.choice(names)))
        elif x < .58 and not began:
            began = True
            h.append(begin(R.choice(names[:5])))
        elif x < .75:
            fn = R.choice(fsn)
            k, to = R.choice([("leaf", ""), ("leaf", ""), ("ext", "b"), ("imp", "b"), ("bad", ""), ("ext", "z")])
            if fn.endswith("/b") or fn.endswith("/z"):
                k, to = R.choice([("leaf", ""), ("leaf", ""), ("bad", ""), ("utf8", "")])
            h.append(write(fn, k, to, R.random() < .5, R.random() < .5))
        elif x < .8:
            h.append(touch(R.choice(fsn)))
        elif x < .86:
            h.append(delete(R.choice(fsn)))
        elif x < .96:
            h.append(tick(R.choice([1, 2, 2, 3])))
        elif x < .98:
            h.append(addpath(*R.choice([["p3"], ["p1"], ["p2"], ["p4", "p3"], []])))
        elif prop == "C12":
            h.append(reload(R.random() < .7))
    if prop == "C12":
        h.append(tick(2))
    return f, h + [load("a"), load(R.choice(names)), load("e")]


def check(run):
    prop = run.prop
    R = run.rng
    jobs = []
    for n, f in families(prop).items():
        b = f["bound"][1 if run.thorough else 0]
        for g in f.get("given", [[]]):
            jobs.append((n, f, [g], b))
    batches = {}
    for _ in range(run.pick(900, 9000)):
        f, h = random_history(R, prop)
        batches.setdefault(0, []).append(h)
    hs = batches[0]
    k = run.pick(150, 300)
    for j in range(0, len(hs), k):
        jobs.append(("random", dict(f, during=R.choice([1, 2])), hs[j:j + k], 0))
    groups, fams, states, trans, n = [], {}, 0, 0, 0
    with ThreadPoolExecutor(8) as ex:
        for (name, *_), (gs, r, k) in zip(jobs, ex.map(lambda j: tlc(run, prop, *j), jobs)):
            groups += gs
            fams[name] = fams.get(name, 0) + len(gs)
            states += r["distinct"]
            trans += r["generated"]
            n += k
    seen, uniq = set(), []
    for g in groups:
        key = json.dumps([g["ops"], g["fs"], g["paths"], g["reload"]], sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(g)
    groups = uniq
    R.shuffle(groups)
    # plain histories of one family beyond a number are sampled
    cap, used, use = run.pick(2000, 60000), {}, []
    for g in groups:
        used[g["family"]] = used.get(g["family"], 0) + 1
        if used[g["family"]] <= cap:
            use.append(g)
    tasks = [dict(seed=R.randrange(10 ** 9), groups=use[j:j + 150], points=run.pick(50, 200), several=run.pick(2, 20)) for j in range(0, len(use), 150)]
    res = run.worker("tkloader", tasks, timeout=850)
    run.cov.update(histories=n, replayed=len(use), states=states, transitions=trans, runs=sum(r["runs"] for r in res), loads=sum(r["loads"] for r in res),
                   determined=sum(r["determined"] for r in res), points_during_loads=sum(r["points"] for r in res), traces_validated_against_impl=len(use))
    run.cov["families"] = fams
    for g in use[:3]:
        run.sample(dict(ops=g["ops"], must=g["must"], same=g["same"]))
    for r in res:
        for b in sorted(r["bad"], key=lambda b: len(b["ops"])):
            run.violation("history", "%s: %s" % (b["what"], json.dumps(b["ops"])), b)


CHECKS = dict(C11=check, C12=check)
