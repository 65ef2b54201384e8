"""C17: extraction of messages, judged by spec/Extract.tla."""
import json
import re

import tkast
import tkrun
from tkast import (S, N, V, call, cat, cond, not_, op, lst, dct, idx, comp, lam, attr, lit, p, text, el, at, ctl, if_, unless,
                   for_, with_, def_, block, imp, code, comment, raw, prog, file, vs, vi, vb, vl)
from tkgen import Gen, profile, norm
from props_tk import each_name, entries

ASSUME = [
    "gettext() calls in expressions that are not output (conditions, py:with, py:attrs, default values, code) may be extracted or not",
    "of a gettext() call with several possible constants any may be extracted; constant expressions are not computed",
]

MESSAGES = ["hello", " hello ", "a < b & c", "it's \"q\"", "back\\slash", "two\nlines", "$5", "%s and {0}", "[x&]", "a(b", "b)", "#no comment", "QE xQEy", "QU",
            "gettext", "f(gettext('inner'))", ",", "x" * 300, "1", "\tt", "{x}", "'", "''", '"""', "\\n", "None", "t:x", "2.5", "-", "007"]


def gt(m):
    return call("gettext", S(m))


def kind(R, m, m2):
    """another kind of lookup; never evaluated, for the context has no such functions"""
    e = R.choice([lambda: call("ngettext", S(m), S(m2), N(R.randint(0, 3))), lambda: call("ngettext", S(m), S(m2), V("n")),
                  lambda: call("ngettext", S(m), S(m), call("p", S("gn"), gt(m2))), lambda: call("pgettext", S(m), S(m2)),
                  lambda: call("dgettext", S(m), S(m2))])()
    return R.choice([lambda: cond(V("yes"), S("u"), e), lambda: cond(V("no"), e, gt(m)), lambda: op("and", V("no"), e)])()


def forms(R, m, m2):
    """expressions looking up messages, with whether they can be evaluated"""
    g = lambda: gt(m)
    return {
        "plain": lambda: g(),
        "cat": lambda: cat(g(), S("x")),
        "catl": lambda: cat(S("x y"), g()),
        "both": lambda: cat(g(), gt(m2)),
        "cond": lambda: cond(V("no"), g(), gt(m2)),
        "condc": lambda: cond(gt(m), S("T"), S("F")),
        "or": lambda: op("or", S(""), g()),
        "and": lambda: op("and", V("no"), g()),
        "not": lambda: not_(g()),
        "eq": lambda: op("eq", g(), S("z")),
        "arg": lambda: call("p", S("id"), g()),
        "args": lambda: call("p", g(), gt(m2)),
        "list": lambda: idx(lst(g(), gt(m2)), N(1)),
        "dict": lambda: idx(dct(("k", g()), ("l", V("n"))), S("k")),
        "index": lambda: idx(dct((m, S("by message"))), S(m)),
        "comp": lambda: idx(comp("cx", V("l2"), g()), N(0)),
        "compit": lambda: idx(comp("cx", lst(g()), cat(V("cx"), gt(m2))), N(0)),
        "lam": lambda: call(lam(["u"], cat(V("u"), g())), S("arg")),
        "lamarg": lambda: call(lam(["u"], V("u")), g()),
        "lit": lambda: lit(g()),
        "plural": lambda: kind(R, m, m2),
        "plurals": lambda: cat(kind(R, m, m2), kind(R, m2, m)),
        "pluralarg": lambda: call("p", S("id"), kind(R, m, m2)),
        "nested": lambda: call("gettext", call("p", S("i"), g())),
        "nested2": lambda: call("gettext", call("gettext", g())),
        "choice": lambda: call("gettext", cond(V("yes"), S(m), S(m2))),
        "choice2": lambda: call("gettext", op("or", S(""), S(m))),
        "dyn": lambda: call("gettext", cat(S("dyn "), call("p", S("i"), S("part")))),
        "dynname": lambda: call("gettext", V("n")),
        "other": lambda: call("p", S("i"), S(m)),
        "const": lambda: S(m),
        "two": lambda: call("p", cat(g(), S(")")), cat(S("("), gt(m2))),
    }


def places():
    return {
        "el": lambda ps: [el("p", text(*ps))],
        "root": lambda ps: [text(*ps)],
        "title": lambda ps: [el("title", text(*ps))],
        "textarea": lambda ps: [el("textarea", text(*ps))],
        "script": lambda ps: [el("script", text(*[x.replace("<", "") if isinstance(x, str) else x for x in ps], raw=True))],
        "style": lambda ps: [el("style", text(*[x.replace("<", "") if isinstance(x, str) else x for x in ps], raw=True))],
        "def": lambda ps: [ctl(def_("f"), text(*ps)), text(call("f"), call("f"))],
        "uncalled": lambda ps: [el("div", ctl(def_("f"), text(*ps)))],
        "defattr": lambda ps: [el("p", text(*ps), ctl=[def_("f", "x")])],
        "block": lambda ps: [el("p", text(*ps), ctl=[block("bl")])],
        "for": lambda ps: [ctl(for_(V("l2"), "i"), text(*ps))],
        "for0": lambda ps: [ctl(for_(V("no"), "i"), el("b", text(*ps)))],
        "if": lambda ps: [ctl(if_(V("yes")), text(*ps))],
        "if0": lambda ps: [ctl(if_(V("no")), text(*ps))],
        "unless0": lambda ps: [ctl(unless(V("yes")), text(*ps))],
        "never": lambda ps: [ctl(if_(N(0)), text(*ps))],
        "neverattr": lambda ps: [el("b", el("p", text(*ps)), ctl=[if_(N(0))])],
        "always": lambda ps: [ctl(if_(N(1)), text(*ps))],
        "with": lambda ps: [el("b", text(*ps), ctl=[with_(("q", N(1)))])],
        "deep": lambda ps: [el("b", el("i", ctl(for_(V("l2"), "i"), el("u", ctl(if_(V("no")), el("p", text(*ps))))), strip=V("yes")), ctl=[block("bl"), def_("f")])],
        "strip": lambda ps: [el("b", text(*ps), strip=V("yes"))],
        "nostrip": lambda ps: [el("b", text(*ps), strip=V("no"))],
        "content": lambda ps: [el("b", text(*ps), content=V("n"))],
        "replace": lambda ps: [el("b", text(*ps), replace=V("n"))],
        "comments": lambda ps: [comment(" c "), text(*ps), comment("d")],
        "comment": lambda ps: [comment("not this"), text(*ps)],
        "after": lambda ps: [el("img", attrs=[at("alt", "An image")]), text(*ps)],
        "two": lambda ps: [el("b", text(*ps)), el("i", "t", attrs=[at("title", *ps)])],
        "replacedattr": lambda ps: [el("b", "q", attrs=[at("title", *ps)], replace=V("n"))],
        "contentattr": lambda ps: [el("b", "q", attrs=[at("title", *ps)], content=V("n"))],
        "pyattrs": lambda ps: [el("b", attrs=[at("title", *ps)], pyattrs=dct(("q", S("v"))))],
        **{"@" + a: lambda ps, a=a: [el("img", attrs=[at(a, *ps)])]
           for a in ["title", "alt", "placeholder", "value", "caption", "class", "href", "data-title"]},
        **{"s@" + a: lambda ps, a=a: [el("p", "x", attrs=[at("lang", "1"), at(a, *ps)], strip=V("no"))] for a in ["title", "class"]},
        **{"script@" + a: lambda ps, a=a: [el("script", attrs=[at(a, *ps)])] for a in ["title", "src"]},
    }


# where an expression is output on its own, or is not
def outputs():
    return {
        "content": lambda e: [el("b", "q", content=e)],
        "replace": lambda e: [el("b", "q", replace=e)],
        "if": lambda e: [el("b", "q", ctl=[if_(e)])],
        "for": lambda e: [el("b", "q", ctl=[for_(lst(e), "i")])],
        "with": lambda e: [el("b", text(V("w")), ctl=[with_(("w", e))])],
        "pyattrs": lambda e: [el("b", "q", pyattrs=dct(("q", e)))],
        "default": lambda e: [ctl(with_(("w", N(1))), ctl(def_("f", ("x", e)), text(V("x"))), text(call("f")))],
        "strip": lambda e: [el("b", "q", strip=e)],
        "contentnever": lambda e: [el("b", "q", content=e, ctl=[if_(N(0))])],
        "code": lambda e: [el("p", code(("pv", e)), text(V("pv")))],
    }


def systematic(run):
    R = run.rng
    ctx = [("yes", vb(True)), ("no", vl()), ("l2", vl(vi(1), vi(2))), ("n", vs("<n>"))]
    r = []

    def add(nodes, tr):
        r.append(prog(el("div", *norm(nodes)), ctx, tr=tr))
    texts = ["hello", " hello", "\n hello world \n", "a < b & c", " ", "$5", "it's \"q\"", "QE and QU", "one QR\ntwo", "gettext('no')", "%d{x}", "x" * 200, "2.5", "123", "-", "1,000.- ", "?"]
    shapes = [lambda t, e: [t], lambda t, e: [e], lambda t, e: [t, e], lambda t, e: [e, t], lambda t, e: [t, e, "more"], lambda t, e: [e, t, e],
              lambda t, e: [t, e, e, " and ", e]]
    fs = list(forms(R, "m", "m2"))
    for pn, pl in places().items():
        for t in R.sample(texts, run.pick(8, len(texts))):
            for sh in R.sample(shapes, run.pick(2, len(shapes))):
                f = R.choice(fs)
                m, m2 = R.sample(MESSAGES, 2)
                e = lambda: forms(R, m, m2)[f]()
                ps = sh(t, 0)
                ps = [e() if x == 0 else x for x in ps]
                add(pl([x for x in ps if x != ""]), "wrap" if R.random() < .7 else "id")
    for ns in each_name(lambda a: [el("b", attrs=[at(a, "some text")]), el("i", attrs=[at(a, " a ", V("n"), " b ")])], attribute=True):
        r.append(dict(prog(el("div", *ns), ctx, tr="wrap"), nodress=True))
    for ns in each_name(lambda e: [el(e, text(" some text ", V("n"), "b")), el("b", el(e, el("i", "inner")), "after")], void=False):
        r.append(dict(prog(el("div", *ns), ctx, tr="wrap"), nodress=True))
    some = list(places().items())
    for f in fs:
        for m, m2 in ([R.sample(MESSAGES, 2) for _ in range(run.pick(3, 20))]):
            for pn, pl in R.sample(some, run.pick(4, 12)):
                add(pl([forms(R, m, m2)[f]()]), "wrap")
            for on, o in outputs().items():
                add(o(forms(R, m, m2)[f]()), "wrap")
    for k in range(16):
        base = file("t0.tk", el("html", "Head", ctl(block("A"), text("A zero ", gt("azero"))), ctl(def_("F"), "F zero")))
        der = file("t1.tk", *([ctl(block("A"), text("A one", call("F"), gt("aone")))] if k & 1 else []), *([ctl(def_("F"), " F one ")] if k & 2 else []),
                   *([ctl(block("Z"), el("p", "never", attrs=[at("alt", "Z alt")]))] if k & 8 else []), ext=1)
        lib = file("l.tk", el("div", ctl(def_("g"), text("Lib ", V("n"))), "outside"))
        main = file("m.tk", el("div", imp(3, "m"), text("go ", call(attr(V("m"), "g")))))
        r.append(entries([base, der, lib, main], ctx, [2, 1, 4], tr="wrap" if k & 4 else "id"))
    return r


def sprinkle(R, x, q=.35):
    """looks up messages in the expressions that are output"""
    if isinstance(x, list):
        for y in x:
            sprinkle(R, y, q)
    elif isinstance(x, dict):
        if x.get("k") == "e" and R.random() < q:
            x["e"] = around(R, x["e"])
        for k in ("content", "replace"):
            if isinstance(x.get(k), dict) and R.random() < q:
                x[k] = around(R, x[k])
        for k in ("root", "ch", "attrs", "parts"):
            if k in x:
                sprinkle(R, x[k], q)


def around(R, e):
    m = lambda: gt(R.choice(MESSAGES))
    return R.choice([m, lambda: cond(m(), e, m()), lambda: cond(not_(m()), m(), e), lambda: idx(lst(m(), e), N(R.randint(0, 1))),
                     lambda: call(lam(["lq"], V("lq")), m()), lambda: op("or", e, m()), lambda: call("p", S("gi"), m()),
                     lambda: call("gettext", call("p", S("gj"), m())), lambda: cond(N(1), e, kind(R, *R.sample(MESSAGES, 2)))])()


def check(run, groups):
    groups = [g if isinstance(g, list) else [g] for g in groups]
    tasks, flat, progs, of = [], [], [], []
    for g in groups:
        pr = tkast.Printer(g[0], run.rng)
        pr.plainly = dict(gettext=1, ngettext=2, pgettext=2, dgettext=2)
        pr.ops = tkrun.has_ops(g)
        src = pr.files()
        tasks.append(dict(tkast.task(g, src, pr.real), order=[pr.real[f["name"]] for f in g[0]["files"]]))
        for q in g:
            progs.append(q)
            of.append(tasks[-1])
            flat.append(tkast.flatten(q, len(flat) + 1))
    obs = [o for os_ in run.worker("tkextract", tasks) for o in os_]
    for f, o, t in zip(flat, obs, of):
        f["extracted"] = o.pop("extracted")
        failure = o.pop("failure")
        if failure:
            run.violation("extract:%s" % f["id"], "%s from %s" % (failure, json.dumps(t["files"])[:600]), dict(task=t, failure=failure))
        f["obs"] = {k: v for k, v in o.items() if k not in ("msg", "how")}
    verdicts = {}

    def more(t):
        for m in re.finditer(r'<<\s*"X",\s*(\d+),\s*"([^"]*)",\s*"((?:[^"\\]|\\.)*)"\s*>>', t):
            verdicts[int(m.group(1))] = (m.group(2), m.group(3))
    tkrun.collect(run, flat, of, obs, progs, module="Extract", more=more)
    for f, t in zip(flat, of):
        v, x = verdicts[f["id"]]
        if v != "ok":
            run.violation("%s:%s" % (v, f["id"]), "%s: %s in %s" % (v, tkrun.unescape(x.replace("\n", " "))[:600], json.dumps(t["files"])[:600]),
                          dict(task=t, expected=x, prog=f))
    run.cov["files_extracted"] = sum(len(t["order"]) for t in tasks)
    run.cov["messages_extracted"] = sum(len(x) for f in flat for x in f["extracted"])
    run.cov["only_constant_lookups"] = sum(x == "1" for _, x in verdicts.values())


def c17(run):
    progs = systematic(run)
    run.cov["systematic"] = sum(len(g) if isinstance(g, list) else 1 for g in progs)
    for tr, n in (("wrap", run.pick(400, 5000)), ("id", run.pick(100, 1500))):
        g = Gen(run.rng, profile(tr=tr, attrs=.6, nodes=dict(script=1, text=10, comment=.6)))
        progs += [g.single() for _ in range(n)]
    g = Gen(run.rng, profile(tr=run.rng.choice(("wrap", "mk")), depth=2, nodes=dict(imp=.5)))
    progs += [g.family() for _ in range(run.pick(60, 800))]
    for q in progs[run.cov["systematic"]:]:
        for x in (q if isinstance(q, list) else [q])[:1]:
            sprinkle(run.rng, x["files"])
    check(run, progs)


CHECKS = dict(C17=c17)
