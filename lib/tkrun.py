"""Prints programs, runs them with the implementation, has TLC judge the results."""
import json
import os
import re
import tempfile

import tkast


def unescape(s):
    return json.loads('"' + s + '"')


def judge(run, progs, chunk=250, workers=None, cfg=None, module="TkMachine", more=None):
    """progs: flattened programs with observations; verdicts by id from TLC"""
    import concurrent.futures
    chunks = [progs[j:j + chunk] for j in range(0, len(progs), chunk)]
    conc = min(4, len(chunks))
    workers = workers or max(1, 8 // conc)
    stats = dict(generated=0, distinct=0)
    verdicts = {}

    def one(part):
        fd, path = tempfile.mkstemp(suffix=".json", dir=run.scratch)
        with os.fdopen(fd, "w") as f:
            json.dump(part, f)
        return run.tlc(module, cfg=cfg, env={"TK_PROGS": path}, workers=workers, mem="3g")

    with concurrent.futures.ThreadPoolExecutor(conc) as ex:
        for r in ex.map(one, chunks):
            stats["generated"] += r["generated"]
            stats["distinct"] += r["distinct"]
            if more:
                more(r["text"])
            for m in re.finditer(r'<<\s*"V",\s*(\d+),\s*"([^"]*)",\s*"((?:[^"\\]|\\.)*)"\s*>>',
                                 r["text"]):
                verdicts[int(m.group(1))] = (m.group(2), unescape(m.group(3).replace("\n", " ")))
    missing = [q["id"] for q in progs if q["id"] not in verdicts]
    if missing:
        from common import Machinery
        raise Machinery("no verdict for programs %s" % missing[:5])
    return verdicts, stats


def has_ops(prs):
    return all(any(x["n"] == "xo" for x in pr["ctx"]) for pr in prs)


def check(run, groups, printer=None, wild=True, nl=False, extra_env=None,
          driver="tkdrive", rename=.3, **kw):
    """Programs (or lists of programs sharing their files, rendered one after
    another with one loader) have to behave as the specification says."""
    printer = printer or tkast.Printer
    groups = [g if isinstance(g, list) else [g] for g in groups]
    tasks, flat, progs, of = [], [], [], []
    for g in groups:
        if wild and run.rng.random() < rename:
            g = tkast.renaming(g, run.rng)
        if wild and run.rng.random() < .4 and not any(pr.get("nodress") for pr in g):
            g = tkast.dress(g, run.rng)
        pr = printer(g[0], run.rng, wild=wild, nl=nl)
        pr.ops = driver == "tkdrive" and has_ops(g)
        tasks.append(tkast.task(g, pr.files(), pr.real))
        tasks[-1]["seed"] = run.rng.randrange(10 ** 6)
        for pr in g:
            progs.append(pr)
            of.append(tasks[-1])
            flat.append(tkast.flatten(pr, len(flat) + 1))
    obs = [o for os_ in run.worker(driver, tasks, extra_env=extra_env) for o in os_]
    for f, o in zip(flat, obs):
        f["obs"] = {k: v for k, v in o.items() if k not in ("msg", "how")}
    return collect(run, flat, of, obs, progs, **kw)


def collect(run, flat, tasks, obs, progs, **kw):
    verdicts, stats = judge(run, flat, **kw)
    n = dict(programs=len(flat), undefined=0, rendered=0, failing=0)
    for f, t, o, pr in zip(flat, tasks, obs, progs):
        v, exp = verdicts[f["id"]]
        if v == "undef" or v != "ok" and pr.get("ofbuiltins") and "NameError" in exp:
            n["undefined"] += 1
            continue
        if o["ok"]:
            n["rendered"] += 1
        else:
            n["failing"] += 1
        if v == "ok":
            run.sample(dict(files=t["files"], output=o["out"], exception=o["exc"], log=o["log"]))
            continue
        run.violation("%s:%s" % (pr.get("label", "program"), v),
                      "%s: expected %s, observed %s in %s" % (
                          v, exp[:600],
                          json.dumps({k: o[k] for k in ("ok", "out", "log", "exc", "msg", "tb", "inn",
                                                        "again", "ctxkept", "how") if k in o})[:600],
                          json.dumps(t["files"])[:600]),
                      dict(task=t, observed=o, expected=exp, verdict=v, prog=f))
    for k, x in n.items():
        run.cov[k] = run.cov.get(k, 0) + x
    for k, x in (("states", stats["distinct"]), ("transitions", stats["generated"]),
                 ("traces_validated_against_impl", len(flat) - n["undefined"])):
        run.cov[k] = run.cov.get(k, 0) + x
    return n
