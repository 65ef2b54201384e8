"""C01, C04-C09, C15, C16: programs decided by spec/TkMachine.tla.

Each property has a systematic part (all combinations within a small scope)
and a random part (larger programs from a profile weighted towards it)."""
import itertools

import htmlnames
import tkast
import tkrun
from tkast import *
from tkgen import Gen, jsprofile, jsvalue, profile

ASSUME = [
    "programs are printed from abstract syntax; markup the printer does not produce is the subject of C02, C03 and C14",
    "programs whose meaning the specification leaves open (verdict undef) are counted, not compared",
]

# the last ones are what others are, in another Python type
VALUES = [vs("<&>\"'"), vs("&amp;"), vs(""), vs("plain"), vmk("<b>&amp;\"</b>"), vmk(""),
          vhtml("a<b", "<u>h</u>"), vobj("o<'"), vi(0), vi(42), vb(True), vb(False), VN,
          as_("sub", vs("<s\"")), as_("float", vobj("1.5")), as_("int", vobj("<i&")), as_("enum", vobj("<3>")),
          as_("inthtml", vhtml("<5", "<i>5</i>")), as_("strhtml", vhtml("s<h", "<u>'</u>")),
          as_("liststr", vobj("<l>")), as_("decimal", vobj("1.50")), as_("exc", vobj("<e'"))]


def values_ctx():
    return [("v%d" % j, v) for j, v in enumerate(VALUES)] + [("vals", vl(*VALUES)), ("n", vi(3)),
                                                            ("yes", vb(True)), ("no", vb(False))]


# -- names ---------------------------------------------------------------------

def each_name(mk, n=28, attribute=False, void=True, raw=False):
    """what mk makes of every name of elements, or of attributes, n to a list"""
    names = htmlnames.ATTRIBUTES + htmlnames.TRANSLATABLE if attribute else htmlnames.ELEMENTS + (htmlnames.VOID if void else [])
    for j in range(0, len(names), n):
        yield [y for x in names[j:j + n] for y in mk(x)]


# -- sizes ---------------------------------------------------------------------

def large(run, kind="py"):
    """programs that are large in one respect: name -> programs"""
    R = run.rng
    js, tal = kind == "js", kind == "tal"
    ctx = [("yes", vb(True)), ("no", vb(False)), ("v", vs("<v&")), ("w", vmk("<b>") if not js else vs("'")), ("n", vi(3)), ("l2", vl(vi(1), vs("<2"))), ("bad", vbad("B")),
           ("many", vl(*[vi(j) if j % 3 else vs("<%d>" % j) for j in range(120)])), ("d", vd(*[("k%d" % j, vi(j)) for j in range(70)]))]
    if js:
        ctx = [x for x in ctx if x[0] != "bad"]
    W = (lambda c, *ch: el("u", *ch, ctl=[c])) if tal else ctl
    r = {}

    def add(name, *nodes, **kw):
        r.setdefault(name, []).append(prog(el("div", *nodes), ctx, target="js" if js else "py", tbs=not js and not tal, **kw))

    def mixed(n, fail=None):
        """texts, expressions, elements and attributes that follow each other"""
        out = []
        for j in range(n):
            x = j % 7
            out += [text("<t%d" % j, V("v"))] if x in (0, 1) else [text(p("%d" % j, V("w")))] if x == 2 else [el("b", attrs=[at("a", V("v"))])] if x == 3 else \
                   [el("i", "%d" % j, attrs=[at("a", "x", V("n"), "&")])] if x == 4 else [text("%d\n" % j)] if x == 5 else [text(N(j))]
            if j == fail:
                out.append(text(V("bad")))
        return out

    def places(name, n):
        add(name, *mixed(n))
        add(name, W(if_(V("yes")), *mixed(n)), "after")
        add(name, W(for_(V("l2"), "q"), *mixed(n)), "after")
        if not tal:
            add(name, ctl(def_("f"), *mixed(n)), text(call("f"), "after"))
            add(name, "before", ctl(with_(("q", N(1))), *mixed(n)), text("after"))
            add(name, ctl(block("bl"), *mixed(n)), "after")
    exprs = lambda n: [text(*[x for j in range(n) for x in (("a" if j % 5 else "<%d>" % j), V("v") if j % 2 else N(j))])]
    for n in (128, 255, 400):
        places("outputs", n)
        add("expressions", *exprs(n))
        add("expressions", *[text(N(j)) for j in range(n)])
    if not js and not tal:
        for n in (126, 251, 260):
            add("failing", *mixed(n + 5, n))
            add("failing", ctl(def_("f"), *mixed(n + 5, n)), text(call("f")))
    # an attribute of many parts, many attributes, many elements
    for n in (130, 260):
        add("attribute", el("b", attrs=[at("a", *[x for j in range(n) for x in ("p%d" % j, N(j))])]), "after")
        add("attributes", el("b", "c", attrs=[at("a%d" % j, *((V("v"),) if j % 3 else ("x", V("n")) if j % 2 else ("&%d" % j,))) for j in range(n)]))
        add("static", *[el("i" if j % 2 else "br", *(["t%d\n" % j] if j % 2 else []), attrs=[at("id", "%d" % j)] if j % 3 else []) for j in range(n)])
    if js:
        add("attrsdict", el("b", pyattrs=V("d")))
    else:
        add("attrsdict", el("b", attrs=[at("z", "1")], pyattrs=dct(*[("k%d" % j, N(j)) for j in range(80)])))
        add("attrsdict", el("b", attrs=[at("z", "1")], pyattrs=V("d")))
    # depth
    deep = [text(V("v"))]
    for j in range(70):
        deep = ["<", el("i" if j % 2 else "b", *deep, attrs=[at("id", "%d" % j)] if j % 5 == 0 else []), text(N(j))]
    add("depth", *deep)
    conds = [text(V("v"))]
    for j in range(15):
        conds = ["(", W(if_(p("%d" % j, V("yes"))) if tal or j % 3 else unless(V("no")), *conds), text(N(j))]
    add("conditions", *conds)
    loops = [text(V("i0"), V("i7"))]
    for j in range(8):
        loops = [W(for_(lst(N(j), N(j + 1)) if j < 3 else lst(N(j)), "i%d" % j), *loops)]
    add("loops", *loops)
    add("long", W(for_(V("many"), "x"), text("<", V("x"), ";")))
    add("long", W(for_(V("many"), "x"), el("b", attrs=[at("a", V("x"))]), W(if_(V("x")), "y")))
    # long texts
    for s in ("<&>" * 700, "x" * 5000, "a\n" * 400, "\u20ac\U0001f600\xe9" * 300):
        add("text", text(s, V("v"), s), el("b", attrs=[at("a", s), at("b", s, V("n"))]))
        add("string", text(S(s.replace("\n", " ")[:1500])))
        r["string"].append(prog(el("div", text(V("long"), V("long")), el("b", attrs=[at("a", V("long"))])), ctx + [("long", vs(s))], target="js" if js else "py"))
    add("comment", comment("c" * 4000), raw("<!-- %s -->" % ("- " * 500)), text("after"))
    if js or tal:
        if js:
            big = N(0)
            for j in range(40):
                big = cond(V("yes") if j % 2 else V("no"), S("<%d" % j), big) if j % 2 == 0 else op("or", V("no"), big)
            add("expression", text(big))
    else:
        big, log = N(0), S("")
        for j in range(30):
            big = cond(V("yes") if j % 2 else V("no"), S("<%d" % j), big) if j % 2 == 0 else op("or", V("no"), big)
            log = cat(log, S("%d<" % j)) if j % 2 else cat(log, cond(V("yes"), S("x"), N(0)))
        add("expression", text(big, log))
        add("expression", text(idx(lst(*[S("<%d" % j) for j in range(300)]), N(290)), idx(dct(*[("k%d" % j, N(j)) for j in range(100)]), S("k77"))))
    if tal:
        return r
    # many variables, functions, blocks, arguments
    ns = range(45)
    add("variables", ctl(with_(*[("x%d" % j, V("x%d" % (j - 1)) if j % 4 else N(j)) for j in ns]), text(*[V("x%d" % j) for j in ns])), text(V("n")))
    w = [text(*[V("x%d" % j) for j in range(12)])]
    for j in reversed(range(12)):
        w = ["<", ctl(with_(("x%d" % j, N(j)), ("v", cat(S("<"), S("%d" % j)))), text(V("v")), *w), text(V("v"))]
    add("withs", *w)
    add("functions", *[ctl(def_("f%d" % j, "x"), text("[%d" % j, V("x"), call("f%d" % (j - 1), N(j)) if j and j % 6 else "]")) for j in ns], text(*[call("f%d" % j, V("v")) for j in ns]))
    add("blocks", *[el("p", ctl(block("b%d" % j), text("<%d" % j, V("v")))) for j in ns], text(call("b7"), call("b40")))
    add("arguments", ctl(def_("f", *["x%d" % j for j in ns]), text(*[x for j in ns for x in (V("x%d" % j), ";")])), text(call("f", *[N(j) if j % 2 else S("<") for j in ns])))
    if not js:
        add("arguments", ctl(def_("f", *[("x%d" % j, N(j)) for j in ns]), text(*[x for j in ns for x in (V("x%d" % j), ";")])),
            text(call("f", N(100), **{"x%d" % j: S("<") for j in (3, 20, 44)}), call("f")))
    # calls within calls
    add("recursion", ctl(def_("f", "l"), W(for_(V("l"), "x"), text("(", call("f", V("x")), ")"))), text(call("f", nest(25))))
    res = S("<")
    for j in range(15):
        res = call("f", res)
    add("recursion", ctl(def_("f", "x"), text("(", V("x"), ")")), text(res, res))
    # many files
    T = "js" if js else "py"
    files = [file("t0", el("html", *[el("p", ctl(block("b%d" % j), "0.%d<" % j)) for j in range(12)], ctl(def_("f"), "f0"), text(call("f"))))]
    for k in range(1, 12):
        files.append(file("t%d" % k, *[ctl(block("b%d" % j), text("%d.%d" % (k, j), V("v"))) for j in range(12) if j % k == 0],
                          *([ctl(def_("f"), "f%d" % k)] if k in (4, 9) else []), ext=k))
    r["chain"] = [prog(files, ctx, entry=e, target=T, tbs=not js) for e in (2, 6, 12)]
    libs = [file("l%d" % k, el("div", ctl(def_("f", "x"), text("%d<" % k, V("x"))))) for k in range(12)]
    use = file("main", el("html", *[imp(k + 1, "m%d" % k) for k in range(12)], text(*[call(attr(V("m%d" % k), "f"), V("v")) for k in range(12)])))
    if not js:
        r["imports"] = [prog(libs + [use], ctx, entry=13, tbs=True)]
    return r


def nest(n):
    e = lst()
    for _ in range(n):
        e = lst(e)
    return e


# the sizes that concern each property
LARGE = dict(
    C01="outputs expressions attribute attributes attrsdict text string expression arguments recursion imports chain long",
    C04="outputs depth conditions loops variables functions blocks withs",
    C05="conditions loops expression failing outputs long",
    C06="attribute attributes attrsdict text long",
    C07="variables withs functions arguments loops recursion imports",
    C08="chain blocks functions outputs",
    C09="imports functions",
    C15="failing outputs chain imports recursion",
    C16="outputs attributes text static blocks", C18="", C19="")


def larger(run, kind="py"):
    r = large(run, kind)
    use = LARGE[run.prop].split() or list(r)
    out = [q for k in use for q in r[k]]
    for q in out:
        if run.prop != "C15":
            q["tbs"] = False
        q["norename"] = True
        if run.prop == "C16":
            q["tr"] = run.rng.choice(("wrap", "mk"))
            q["ctx"] = q["ctx"] + [{"n": "gettext", "v": vhost("gettext")}]
    run.cov["large"] = len(out)
    return out


# -- C01 ---------------------------------------------------------------------

POSITIONS = {
    "text": lambda e: [el("b", text(e))],
    "mixed": lambda e: [text("x<", e, "&\"")],
    "twice": lambda e: [text(e, e)],
    "attr": lambda e: [el("b", attrs=[at("title", e)])],
    "attrmix": lambda e: [el("b", "c", attrs=[at("id", "x&", e), at("z", e, "'")])],
    "voidattr": lambda e: [el("br", attrs=[at("id", e)])],
    "content": lambda e: [el("b", "gone", content=e)],
    "ctlcontent": lambda e: [ctl(if_(V("yes")), "gone", content=e)],
    "replace": lambda e: [el("b", "gone", replace=e)],
    "ctlreplace": lambda e: [el("", replace=e)],
    "attrsdict": lambda e: [el("b", pyattrs=dct(("k", e), ("l", S("<"))))],
    "attrslist": lambda e: [el("b", attrs=[at("s", "&")], pyattrs=lst(lst(S("k"), e)))],
    "script": lambda e: [el("script", text("a<b && ", e, "<x>", raw=True))],
    "title": lambda e: [el("title", text("<", e))],
    "textarea": lambda e: [el("textarea", text(e))],
    "strip": lambda e: [el("b", text(e), strip=V("n"), attrs=[at("q", e)])],
}

# how a value gets to a position: (expression, place) -> nodes
SOURCES = {
    "direct": lambda e, at_: at_(e),
    "literal": lambda e, at_: at_(lit(e)),
    "literal2": lambda e, at_: at_(lit(lit(e))),
    "lambda": lambda e, at_: at_(call(lam(["x"], V("x")), e)),
    "cond": lambda e, at_: at_(cond(V("yes"), e, S("no"))),
    "condlit": lambda e, at_: at_(cond(V("no"), S("no"), lit(e))),
    "or": lambda e, at_: at_(op("or", e, S("<or>"))),
    "index": lambda e, at_: at_(idx(dct(("k", e)), S("k"))),
    "comp": lambda e, at_: at_(idx(comp("q", lst(e), V("q")), N(0))),
    "probe": lambda e, at_: at_(p("1", e)),
    "with": lambda e, at_: [ctl(with_(("w", e)), *at_(V("w")))],
    "withattr": lambda e, at_: [el("i", *at_(V("w")), ctl=[with_(("w", e))])],
    "for": lambda e, at_: [ctl(for_(lst(e, e), "q"), *at_(V("q")))],
    "arg": lambda e, at_: [ctl(def_("f", "x"), *at_(V("x"))), text(call("f", e))],
    "kwarg": lambda e, at_: [ctl(def_("f", "y", ("x", S("<d>"))), *at_(V("x"))), text(call("f", N(1), x=e))],
    "default": lambda e, at_: [ctl(with_(("z", e)), ctl(def_("f", ("x", V("z"))), *at_(V("x"))), text(call("f")))],
    "result": lambda e, at_: [ctl(def_("f"), text("<", e)), *at_(call("f"))],
    "result2": lambda e, at_: [ctl(def_("f", "x"), text(V("x"))), *at_(call("f", call("f", e)))],
    "litresult": lambda e, at_: [ctl(def_("f"), text("<", e)), *at_(lit(call("f")))],
    "block": lambda e, at_: [el("p", text(e), ctl=[block("bl")]), *at_(call("bl"))],
    "closure": lambda e, at_: [ctl(with_(("w", e)), ctl(def_("f"), text(V("w"))), *at_(call("f")))],
    "withres": lambda e, at_: [ctl(def_("f"), text(e, "&")), ctl(with_(("r", call("f"))), *at_(V("r")), *at_(V("r")))],
    "cat": lambda e, at_: at_(cat(S("<"), e)),
    "catm": lambda e, at_: at_(cat(lit(S("<i>")), e)),
    "concat": lambda e, at_: at_(cat(cat(S("&"), S("'")), S("\""))),
    "const": lambda e, at_: at_(S("<&>\"'")),
    # a name that also is that of a function of the template
    "shadowwith": lambda e, at_: [ctl(def_("f"), "F"), ctl(with_(("f", lam([], e))), *at_(call("f")))],
    "shadowfor": lambda e, at_: [ctl(def_("f"), "F"), ctl(for_(lst(lam(["x"], V("x"))), "f"), *at_(call("f", e)))],
    "shadowarg": lambda e, at_: [ctl(def_("f"), "F"), ctl(def_("g", "f"), *at_(call("f", e))), text(call("g", lam(["x"], V("x"))))],
    "shadowhost": lambda e, at_: [ctl(def_("f"), "F"), ctl(with_(("f", V("p"))), *at_(call("f", S("1"), e)))],
    "shadowblock": lambda e, at_: [ctl(block("f"), "F"), ctl(with_(("f", lam([], e))), *at_(call("f")))],
    "ctxfn": lambda e, at_: [ctl(def_("p"), "F"), *at_(call("p", S("1"), e))],
    "host": lambda e, at_: at_(call(V("p"), S("<"), e)),
    "alias": lambda e, at_: [ctl(def_("f"), text("<", e)), ctl(with_(("g", V("f"))), *at_(call("g")))],
}


def partly_constant():
    """conditions of which a part is constant"""
    r = []
    for v in ("yes", "no"):
        for c in (N(1), N(0), S(""), S("x"), C(VN), C(vb(True)), lst(), not_(N(1))):
            q = lambda: p("q", V(v))
            r += [op("or", q(), c), op("or", c, q()), op("and", q(), c), op("and", c, q()), cond(q(), c, N(0)), cond(c, q(), N(1)),
                  not_(op("or", q(), c)), not_(op("and", q(), c)), lst(q()), op("or", c, op("and", c, q())), op("and", op("or", q(), c), c)]
    r += [op("eq", N(1), N(1)), op("eq", N(1), N(2)), op("lt", N(0), N(1)), cat(S(""), S("")), cat(S("a"), S("b")), cat(N(1), N(-1)),
          idx(lst(N(0)), N(0)), idx(dct(("a", N(0))), S("a")), lit(S("")), lit(S("x")), call(lam([], N(0))), call("len", lst()),
          comp("q", lst(), N(1)), lam([], N(0)), lst(lst()), not_(lam([], N(0))), not_(op("eq", N(1), N(1)))]
    return r


CONDPLACES = [lambda e: [ctl(if_(e), "T")], lambda e: [ctl(unless(e), "F")],
              lambda e: [el("b", "t", ctl=[if_(e)])], lambda e: [el("b", "t", ctl=[unless(e)])],
              lambda e: [el("b", "t", strip=e)], lambda e: [el("b", strip=e)], lambda e: [el("br", strip=e)]]


def c01_systematic(run):
    ctx = values_ctx()
    r = []
    for pn, at_ in POSITIONS.items():
        for sn, src in SOURCES.items():
            vs_ = range(len(VALUES))
            if sn in ("cat", "catm"):
                vs_ = [0, 1, 2, 4]
            if sn in ("concat", "const"):
                vs_ = [0]
            if pn in ("text", "attr", "content") or run.thorough:
                # every value in a program of its own
                for j in vs_:
                    r.append(prog(el("div", *src(V("v%d" % j), at_)), ctx))
            elif sn in ("cat", "catm"):
                r.append(prog(el("div", ctl(for_(lst(*[V("v%d" % j) for j in vs_]), "v"),
                                            *src(V("v"), at_))), ctx))
            else:
                r.append(prog(el("div", ctl(for_(V("vals"), "v"), *src(V("v"), at_))), ctx))
    # every operator, everywhere
    for pn, at_ in POSITIONS.items():
        for v in (0, 1, 4) if pn in ("text", "attr", "content") or run.thorough else (run.rng.choice((0, 1, 4)),):
            ns = [n for j in range(len(tkast.OPERATIONS)) for n in at_(tkast.operated(V("v%d" % v), j))]
            r.append(dict(prog(el("div", *ns), ctx), nodress=True))
    for ns in each_name(lambda a: [el("b", attrs=[at(a, V("v0"))]), el("b", attrs=[at(a, "<", V("v4"))])], attribute=True):
        r.append(dict(prog(el("div", *ns), ctx), nodress=True))
    for ns in each_name(lambda e: [el(e, text(V("v0")))], void=False):
        r.append(dict(prog(el("div", *ns), ctx), nodress=True))
    # across files: argument and result of an imported and an inherited function
    for pn, at_ in POSITIONS.items():
        lib = file("lib.tk", el("div", ctl(def_("g", "x"), *at_(V("x"))), ctl(block("bb"), *at_(V("v0")))))
        r.append(prog([lib, file("main.tk", el("div", imp(1, "m"), ctl(
            for_(V("vals"), "v"), text(call(attr(V("m"), "g"), V("v"))), text(call(attr(V("m"), "bb"))))))],
            ctx, entry=2))
        base = file("base.tk", el("div", ctl(block("bb"), "base"), ctl(def_("g", "x"), "base"),
                                  ctl(for_(V("vals"), "v"), text(call("g", V("v"))), *at_(call("g", V("v"))))))
        r.append(prog([base, file("main.tk", ctl(block("bb"), *at_(V("v0"))), ctl(def_("g", "x"), *at_(V("x"))),
                                  ext=1)], ctx, entry=2))
    return r


def c01(run):
    prof = profile(exprs=dict(lit=2, call=3, probe=.3), attrs=.6, elextra=dict(content=.25, replace=.15, pyattrs=.3))
    progs = c01_systematic(run)
    run.cov["systematic"] = len(progs)
    g = Gen(run.rng, prof)
    progs += [g.single() for _ in range(run.pick(900, 12000))]
    progs += [g.family() for _ in range(run.pick(60, 1500))]
    progs += larger(run)
    tkrun.check(run, progs)
    half = c01_systematic(run)
    run.rng.shuffle(half)
    tkrun.check(run, half[:run.pick(250, 1000)], extra_env={"TK_PUREBUF": "1"})


# -- C04 ---------------------------------------------------------------------

CTLS = ["block", "if", "unless", "for", "def", "with"]


def c04_element(kinds, term, truth, own, R):
    """one element with the given control attributes"""
    inst = []
    for k in kinds:
        inst.append({"block": lambda: block("bl"),
                     "if": lambda: if_(p("if", V("yes") if truth[0] else V("no"))),
                     "unless": lambda: unless(p("un", V("no") if truth[1] else V("yes"))),
                     "for": lambda: for_(p("for", V("l2") if truth[2] else V("l0")), "i"),
                     "def": lambda: def_("f", ("x", N(7))),
                     "with": lambda: with_(("w", p("w", S("<"))))}[k]())
    body = ["c", p("body", S("B"))]
    inside = "block" not in kinds
    # what the nesting order makes visible in the content
    if "for" in kinds:
        body.append(V("i"))
    if "def" in kinds:
        body.append(V("x"))
    if "with" in kinds:
        body.append(V("w"))
    o = [inst.pop(inst.index(x)) for x in inst if x["k"] == own]
    kw = {}
    if term == "strip1":
        kw["strip"] = p("st", V("yes"))
    elif term == "strip0":
        kw["strip"] = p("st", V("no"))
    elif term == "content":
        kw["content"] = p("co", S("C&"))
    elif term == "replace":
        kw["replace"] = p("re", S("R&"))
    elif term == "stripcontent":
        kw["strip"] = p("st", V("yes"))
        kw["content"] = p("co", S("C&"))
    elif term == "attrs":
        kw["attrs"] = [at("a", p("a", V("n")))]
        kw["pyattrs"] = p("pa", dct(("z", V("n"))))
    R.shuffle(inst)
    if o and ("attrs" in kw or "strip" in kw):
        kw.pop("attrs", 0), kw.pop("pyattrs", 0), kw.pop("strip", 0)
    e = el("" if o else "b", text(*body), own=o, ctl=inst, **kw)
    after = []
    if "def" in kinds:
        # where the function can be called depends on what surrounds it
        if set(kinds) & {"for"} or ("if" in kinds and not truth[0]) or ("unless" in kinds and not truth[1]):
            after = []
        if "block" not in kinds:
            after = [text("[", call("f"), call("f", N(8)), "]")]
    return [text("<", p("pre", S("1"))), e, text("mid"), *after, el("u", "z")]


def c04_systematic(run):
    R = run.rng
    ctx = [("yes", vb(True)), ("no", vl()), ("l2", vl(vi(1), vi(2))), ("l0", vl()), ("n", vi(3))]
    r = []
    for m in range(64):
        kinds = [k for j, k in enumerate(CTLS) if m >> j & 1]
        for term in ["", "strip1", "strip0", "content", "replace", "stripcontent", "attrs"]:
            truths = [(1, 1, 1)]
            if "if" in kinds:
                truths.append((0, 1, 1))
            if "unless" in kinds:
                truths.append((1, 0, 1))
            if "for" in kinds:
                truths.append((1, 1, 0))
            for tr in truths:
                r.append(prog(el("div", *c04_element(kinds, term, tr, None, R)), ctx))
            if kinds:
                r.append(prog(el("div", *c04_element(kinds, term, (1, 1, 1), R.choice(kinds), R)), ctx))
    # every construct within every other, as element and as attribute
    def wrap(k, form, ch, d):
        c = {"if": lambda: if_(p("i%d" % d, V("yes"))), "unless": lambda: unless(p("u%d" % d, V("no"))),
             "if0": lambda: if_(p("i%d" % d, V("no"))), "ifc": lambda: if_(N(1)), "ifc0": lambda: if_(S("")),
             "for": lambda: for_(V("l2"), "i%d" % d), "with": lambda: with_(("w%d" % d, p("w%d" % d, N(d)))),
             "def": lambda: def_("f%d" % d), "block": lambda: block("b%d" % d)}.get(k)
        if k == "strip":
            return [el("s", *ch, strip=p("s%d" % d, V("yes")))]
        if k == "strip0":
            return [el("s", *ch, strip=C(VN), attrs=[at("q", p("q%d" % d, N(1)))])]
        if k == "el":
            return [el("e", *ch, attrs=[at("q", p("q%d" % d, N(1)))])]
        x = ctl(c(), *ch) if form else el("s", *ch, ctl=[c()])
        return [x] + ([text(call("f%d" % d))] if k == "def" else [])
    ks = ["if", "unless", "if0", "ifc", "ifc0", "for", "with", "def", "block", "strip", "strip0", "el"]
    for k1, k2, k3 in itertools.product(ks, ks, ks):
        if not run.thorough and R.random() > .45:
            continue
        n = [text("x", p("leaf", V("n")))]
        for d, k in enumerate((k3, k2, k1)):
            n = [text("<%d" % d)] + wrap(k, R.random() < .5, n, d) + [text("&%d" % d)]
        r.append(prog(el("div", *n), ctx))
    # constant conditions and conditions of the same value at run time
    consts = [S(""), S("0"), N(0), N(1), C(VN), C(vb(True)), C(vb(False)), lst(), lst(N(0)), dct(), dct(("a", N(0))),
              not_(N(0)), not_(not_(S("x"))), not_(lst()), N(-1), lst(lst()), not_(dct())]
    for c in partly_constant():
        for mk in CONDPLACES if run.thorough else R.sample(CONDPLACES, 3):
            r.append(prog(el("div", "<", *mk(c), ">"), ctx))
    # what is in an element whose tags are conditional
    for c in (lambda: [comment(" c ")], lambda: [comment("c"), comment("d")], lambda: [el("i")], lambda: [el("br")],
              lambda: [comment("c"), text("t")], lambda: [raw("<!---->"), el("br")], lambda: [text(" ")], lambda: [text("<!--")],
              lambda: [text(V("n"))], lambda: [ctl(if_(V("no")), "x")], lambda: [ctl(def_("f"), "x")], lambda: [ctl(block("k"))],
              lambda: [el("", replace=V("n"))], lambda: [el("i", "x", strip=V("yes"))], lambda: [el("i", strip=V("yes"))],
              lambda: [ctl(for_(V("l2"), "i"))], lambda: [ctl(with_(("w", N(1))))], lambda: [comment("$n")]):
        for s in (0, V("yes"), V("no"), N(1), N(0), p("s", V("yes")), p("s", V("no"))):
            for cs in ([], [if_(V("yes"))], [for_(V("l2"), "j")], [block("bb")], [def_("ff")]):
                if cs and not run.thorough and R.random() > .3:
                    continue
                e = el("b", *c(), strip=s, ctl=cs, attrs=[at("q", V("n"))] if R.random() < .5 else [])
                r.append(prog(el("div", "<", e, *([text(call("ff"))] if cs and cs[0]["k"] == "def" else [])), ctx))
    for c in consts:
        for mk in CONDPLACES:
            r.append(prog(el("div", "<", *mk(c), ">"), ctx))
            r.append(prog(el("div", "<", ctl(with_(("q", c)), *mk(V("q"))), ">"), ctx))
        # blocks are defined whatever the condition
        for k in (if_, unless):
            for t in (c, None):
                r.append(prog(el("div", "<", ctl(k(t or V("yes")), "x", ctl(block("k"), text("K&", p("k", V("n"))))), ">", text(call("k"))), ctx))
                r.append(prog(el("div", text(call("k")), el("b", "K", ctl=[k(t or V("no")), for_(V("l2"), "n"), block("k")]), text("$", V("n"))), ctx))
    return r


def c04(run):
    progs = c04_systematic(run)
    run.cov["systematic"] = len(progs)
    g = Gen(run.rng, profile(nctl=[(0, 2), (1, 4), (2, 3), (3, 2), (4, 1)], depth=4, constcond=.35,
                             elextra=dict(strip=.3, content=.2, replace=.12)))
    progs += [g.single() for _ in range(run.pick(800, 12000))]
    progs += [g.family((1, 2), (0, 1)) for _ in range(run.pick(0, 800))]
    progs += larger(run)
    tkrun.check(run, progs)


# -- C05 ---------------------------------------------------------------------

def c05_systematic(run):
    R = run.rng
    ctx = [("yes", vb(True)), ("no", vl()), ("l2", vl(vi(1), vi(2))), ("n", vi(3)), ("m", vmk("<i>"))]
    r = []
    r += [prog(x, ctx) for x in siblings(R, run.pick(.1, 1))]
    sizes = [1, 2, 124, 125, 126, 249, 250, 251, 252, 255, 256, 257, 499, 500, 501, 750, 751]
    if run.thorough:
        sizes += list(range(240, 262)) + [1000, 1250, 2000]

    def outs(n, style):
        ps = []
        for j in range(n):
            if style == "expr":
                ps += [p(str(j), N(j))]
            elif style == "alt":
                ps += ["t%d<" % j, p(str(j), S("&"))]
            elif style == "lit":
                ps += [lit(p(str(j), S("<")))] if j % 3 else ["x"]
            else:
                ps += [p(str(j), N(j)), C(vi(5)), S("<")]
        return ps
    for n in sizes:
        styles = ["expr", "alt", "lit", "mix"]
        for st in styles if run.thorough else R.sample(styles, 2 if n < 600 else 1):
            where = R.choice(["text", "def", "for", "attr", "els", "if", "elems"])
            ps = outs(n, st)
            if where == "text":
                ch = [text(*ps)]
            elif where == "def":
                ch = [ctl(def_("f"), text(*ps)), text(call("f"))]
            elif where == "for":
                ch = [ctl(for_(V("l2"), "i"), text(*ps))]
            elif where == "if":
                ch = [text("a"), ctl(if_(p("c", V("yes"))), text(*ps)), text("b")]
            elif where == "attr":
                ch = [el("b", attrs=[at("q", *ps)])]
            elif where == "els":
                ch = [el("b", text(*ps[j:j + 7]), attrs=[at("k", p("a%d" % j, V("n")))]) for j in range(0, len(ps), 7)]
            else:
                ch = [el("b", text(x)) for x in ps]
            r.append(prog(el("div", *ch), ctx))
    # order of evaluation on one element and around it
    for strip in (0, "yes", "no"):
        for inner in ("text", "content", "none"):
            for na in range(3):
                kw = {}
                if strip:
                    kw["strip"] = p("strip", V(strip))
                if inner == "content":
                    kw["content"] = p("content", N(1))
                e = el("b", *([text(p("in", N(2)))] if inner == "text" else []),
                       attrs=[at("s", "x")] + [at("d%d" % j, p("d%d" % j, V("n"))) for j in range(na)]
                       + [at("m", "a", p("m1", N(1)), "b", p("m2", N(2)))] * (na > 1),
                       pyattrs=p("attrs", dct(("q", p("q", N(1))), ("u", p("u", C(VN))))) if na else 0,
                       ctl=[if_(p("if", V("yes"))), for_(p("for", V("l2")), "i"), unless(p("unless", V("no"))),
                            with_(("w", p("w1", N(1))), ("v", p("w2", V("w"))))][:na + 2], **kw)
                r.append(prog(el("div", text("x", p("before", N(1))), e, text(p("after", N(1)))), ctx))
    for c in partly_constant():
        for mk in R.sample(CONDPLACES, run.pick(2, 7)):
            r.append(prog(el("div", text("x", p("before", N(1))), *mk(c), text(p("after", N(1)))), ctx))
        r.append(prog(el("div", *R.choice(list(POSITIONS.values()))(cond(c, p("t", S("T")), p("f", S("F"))))), ctx))
    # arguments and operators
    es = [spread(call("p", p("x", S("y"))), lst(p("z", N(1)))), spread(call("p"), lst(p("x", S("y")), p("z", N(1)))),
          call("p", p("x", S("y")), p("z", N(1))),
          cond(p("c", V("yes")), p("a", N(1)), p("b", N(2))), cond(p("c", V("no")), p("a", N(1)), p("b", N(2))),
          op("and", p("a", V("no")), p("b", N(2))), op("or", p("a", V("no")), p("b", N(2))),
          op("or", p("a", V("yes")), p("b", N(2))), cat(p("a", S("x")), p("b", S("y"))),
          idx(lst(p("a", N(1)), p("b", N(2))), p("i", N(1))), call("len", comp("q", V("l2"), p("q", V("q"))))]
    for e in es:
        for pn in ("text", "attr", "content", "replace", "attrsdict"):
            r.append(prog(el("div", *POSITIONS[pn](e)), ctx))
    return r


def c05(run):
    progs = c05_systematic(run)
    run.cov["systematic"] = len(progs)
    g = Gen(run.rng, profile(exprs=dict(probe=8, var=3, call=3), constcond=.2,
                             elextra=dict(strip=.3, content=.2, pyattrs=.25)))
    progs += [g.single() for _ in range(run.pick(1000, 12000))]
    g = Gen(run.rng, profile(exprs=dict(probe=8, call=4), nodes=dict(code=.5, imp=.5)))
    progs += [g.family() for _ in range(run.pick(60, 1200))]
    progs += larger(run)
    tkrun.check(run, progs)


# -- C06 ---------------------------------------------------------------------

def c06_systematic(run):
    ctx = values_ctx() + [("e0", vl()), ("dd", vd(("x", vs("<")), ("y", VN), ("z", vb(True)), ("w", vi(0)),
                                                  ("v", vb(False)), ("u", vmk("&lt;")), ("t", vs(""))))]
    prs = [("x", vs("<")), ("y", VN), ("x", vb(True)), ("z", vb(False)), ("x", vi(0)), ("y", vs("")), ("a", vs("2")), ("w", VN)]
    pairs = vl(*[vl(vs(k), v) for k, v in prs])
    ctx += [("pl", pairs), ("pt", as_("tuple", vl(*[as_("tuple", x) for x in pairs["v"]]))), ("ps", as_("seq", pairs)),
            ("se", as_("seq", vl())), ("te", as_("tuple", vl())), ("de", vd())]
    ctx += [("d" + k, as_(k, vd(("x", vs("<")), ("y", VN), ("a", vb(True))))) for k in ("proxy", "odict", "chain")]
    r = []
    shapes = {
        "whole": lambda e: [at("a", e)],
        "pre": lambda e: [at("a", "x", e)],
        "post": lambda e: [at("a", e, "<")],
        "two": lambda e: [at("a", e, e)],
        "multi": lambda e: [at("a", e), at("s", "1"), at("b", e), at("bare", bare=True)],
        "bare": lambda e: [at("checked", bare=True), at("a", e)],
        "empty": lambda e: [at("empty"), at("a", " ", e)],
        "static": lambda e: [at("a", "<\"'&>"), at("b")],
        "translatable": lambda e: [at("title", e), at("value", "v", e), at("alt", "x")],
    }
    els = {"b": lambda **k: [el("b", **k)], "bt": lambda **k: [el("b", "t", **k)], "br": lambda **k: [el("br", **k)],
           "strip0": lambda **k: [el("b", "t", strip=V("no"), **k)], "strip1": lambda **k: [el("b", "t", strip=V("yes"), **k)],
           "content": lambda **k: [el("b", content=V("n"), **k)],
           "input": lambda **k: [el("input", ctl=[for_(lst(N(1), N(2)), "q")], **k)]}
    pas = {"": 0, "dict": dct(("k", V("v"))), "list": lst(lst(S("k"), V("v")), lst(S("l"), V("v"))), "dd": V("dd"),
           "none": C(VN), "empty": V("e0"), "edict": dct()}
    for x in ("pl", "pt", "ps", "se", "te", "de", "dproxy", "dodict", "dchain"):
        pas[x] = V(x)
    pas["dup"] = lst(lst(S("a"), V("v")), lst(S("b"), V("v")), lst(S("a"), N(1)), lst(S("b"), C(VN)))
    for sn, sh in shapes.items():
        for en, mk in els.items():
            for pn, pa in pas.items():
                if not run.thorough and pn and run.rng.random() > .4:
                    continue
                r.append(prog(el("div", ctl(for_(V("vals"), "v"), *mk(attrs=sh(V("v")), pyattrs=pa))), ctx))
        for j in range(len(VALUES)):
            r.append(prog(el("div", attrs=sh(V("v%d" % j))), ctx))
            r.append(prog(el("div", el("b", attrs=sh(lit(V("v%d" % j))))), ctx))
    for pn, pa in pas.items():
        for en, mk in els.items():
            r.append(prog(el("div", ctl(for_(V("vals"), "v"), *mk(pyattrs=pa))), ctx))
    some = vl(*[x for j, x in enumerate(VALUES) if j in (0, 2, 3, 4, 8, 9, 10, 11, 12)])
    for ns in each_name(lambda a: [el("b", attrs=[at(a, V("v"))]), el("i", attrs=[at(a, "x", V("v"))]), el("b", pyattrs=dct((a, V("v"))))],
                        14, attribute=True):
        r.append(dict(prog(el("div", ctl(for_(V("some"), "v"), *ns)), ctx + [("some", some)]), nodress=True))
    for ns in each_name(lambda a: [el("b", attrs=[at(a, bare=True)]), el("i", attrs=[at(a)]), el("b", attrs=[at(a, "a  b\n ")]), el("b", attrs=[at(a, a)])],
                        attribute=True):
        r.append(dict(prog(el("div", *ns), ctx), nodress=True))
    for ns in each_name(lambda e: [el(e, attrs=[at("a", V("v")), at("b", "1"), at("c", bare=True)])]):
        r.append(dict(prog(el("div", ctl(for_(V("some"), "v"), *ns)), ctx + [("some", some)]), nodress=True))
    consts = [S("<"), S(""), N(0), C(VN), C(vb(True)), C(vb(False)), not_(N(1))]
    for c in consts:
        r.append(prog(el("div", el("b", attrs=[at("a", c)]), el("b", attrs=[at("a", "-", c)])), ctx))
    fn = [ctl(def_("f"), text("<", V("n"))), ctl(def_("g"))]
    for f in "fg":
        for sn, sh in shapes.items():
            r.append(prog(el("div", *fn, el("b", attrs=sh(call(f)), pyattrs=dct(("k", call(f))))), ctx))
    return r


def c06(run):
    progs = c06_systematic(run)
    run.cov["systematic"] = len(progs)
    g = Gen(run.rng, profile(attrs=.95, elextra=dict(pyattrs=.5), nodes=dict(text=2, el=8), exprs=dict(const=3)))
    progs += [g.single() for _ in range(run.pick(700, 9000))]
    progs += larger(run)
    tkrun.check(run, progs)
    progs = c06_systematic(run)
    run.rng.shuffle(progs)
    g = Gen(run.rng, profile(attrs=.95, elextra=dict(pyattrs=.5), nodes=dict(text=2, el=8), exprs=dict(const=3)))
    tkrun.check(run, progs[:run.pick(300, 1000)] + [g.single() for _ in range(run.pick(150, 3000))],
                extra_env={"TK_PUREBUF": "1"})


# -- C07 ---------------------------------------------------------------------

def c07_systematic(run):
    R = run.rng
    r = []

    def show(tag):
        return text(tag + "=", V("x"), ";")

    def wrap(k, ch, d, top):
        v = S("%s%d" % (k, d))
        if k == "with":
            return [ctl(with_(("x", v)), *ch)]
        if k == "withel":
            return [el("i", *ch, ctl=[with_(("x", v))])]
        if k == "for":
            return [ctl(for_(lst(v), "x"), *ch)]
        if k == "def":
            return [ctl(def_("f%d" % d, "x"), *ch), text(call("f%d" % d, v))]
        if k == "default":
            return [ctl(def_("f%d" % d, ("x", v)), *ch), text(call("f%d" % d))]
        if k == "def0":
            return [ctl(def_("f%d" % d, "y"), *ch), text(call("f%d" % d, v))]
        if k == "block":
            return [ctl(block("b%d" % d), *ch)]
        if k == "code":
            return [code(("x", v))] + ch
        if k == "comp":
            return [text(idx(comp("x", lst(v), V("x")), N(0)))] + ch
        if k == "lam":
            return [text(call(lam(["x"], V("x")), v))] + ch
        if k == "nested":
            # a function that refers to its definition site and is called elsewhere
            return [ctl(def_("g%d" % d), "g", show("g")), ctl(with_(("x", v)), *ch, text(call("g%d" % d)))]
        if k == "fnx":
            return [ctl(def_("x"), "fn")] + ch
        raise ValueError(k)
    ks = ["with", "withel", "for", "def", "default", "def0", "block", "code", "comp", "lam", "nested", "fnx"]
    depth = 3 if run.thorough else 2
    combos = list(itertools.product(ks, repeat=2)) + [
        c for c in itertools.product(ks, repeat=3) if run.thorough or R.random() < .25]
    for c in combos:
        # mixing these in one function runs into a defect of CPython 3.12
        if "comp" in c and set(c) & {"with", "withel", "nested", "lam", "def", "default", "def0"}:
            continue
        for inctx in (0, 1):
            ch = [show("in")]
            for d, k in enumerate(reversed(c)):
                ch = [show("a%d" % d)] + wrap(k, ch, d, False) + [show("z%d" % d)]
            g = prog(el("div", *(ch if "code" not in c else [ctl(def_("m"), *ch), text(call("m"))])),
                     [("x", vs("ctx"))] if inctx else [])
            r.append(g)
            if not inctx:
                # without the accesses that must fail
                ch = [show("in")]
                for d, k in enumerate(reversed(c)):
                    ch = wrap(k, ch, d, False)
                r.append(prog(el("div", *(ch if "code" not in c else [ctl(def_("m"), *ch), text(call("m"))]))))
    # functions: keyword arguments, recursion, builtin names, use before definition
    nn = op("lt", N(0), V("n"))
    rec = ctl(def_("rec", "n", ("acc", S(""))), ctl(if_(nn), text(V("n"), call("rec", cat(V("n"), N(-1)), acc=cat(V("acc"), S("<"))))),
              ctl(unless(nn), text("end", V("acc"))))
    r.append(prog(el("div", rec, text(call("rec", N(4))))))
    r.append(prog(el("div", text(call("rec", N(3), S("&"))), rec)))
    r.append(prog(el("div", ctl(with_(("k", N(2))), ctl(def_("rec", "n"), ctl(if_(nn), text(V("n"), V("k"), call("rec", cat(V("n"), N(-1)))))), text(call("rec", V("k")))))))
    even = ctl(def_("even", "n"), ctl(if_(nn), text("e", call("odd", cat(V("n"), N(-1))))))
    odd = ctl(def_("odd", "n"), ctl(if_(nn), text("o", call("even", cat(V("n"), N(-1))))))
    r.append(prog(el("div", text(call("even", N(5))), even, odd)))
    for nm in ("len", "max", "id", "list", "dict", "input", "print", "type", "filter", "format", "title", "literal_"):
        for mk in (lambda: ctl(def_(nm), "mine"), lambda: ctl(block(nm), "mine"), lambda: el("b", "mine", ctl=[def_(nm)])):
            r.append(prog(el("div", mk(), text(call(nm)), ctl(def_("w"), text(call(nm))), text(call("w")))))
            r.append(prog([file("b.tk", el("div", mk(), text(call(nm)))),
                           file("d.tk", ctl(def_(nm), "derived"), ext=1)], entry=2))
            r.append(prog([file("l.tk", el("div", mk())),
                           file("m.tk", el("div", imp(1, "m"), text(call(attr(V("m"), nm)))))], entry=2))
        r.append(prog(el("div", ctl(with_((nm, S("w"))), text(V(nm))), ctl(for_(lst(N(1)), nm), text(V(nm))))))
        r.append(prog(el("div", text(V(nm))), [(nm, vs("ctx"))]))
    ps = ["a", ("b", S("B")), ("c", S("C"))]
    f = ctl(def_("f", *ps), text(V("a"), V("b"), V("c")))
    for a, kw in [([1], {}), ([1, 2], {}), ([1, 2, 3], {}), ([], dict(a=1)), ([1], dict(c=3)), ([1], dict(b=2, c=3)),
                  ([], dict(c=3, a=1)), ([], {}), ([1, 2, 3, 4], {}), ([1], dict(a=1)), ([1], dict(zz=1))]:
        r.append(prog(el("div", f, text(call("f", *[N(x) for x in a], **{k: N(x) for k, x in kw.items()})))))
    # all kinds of parameters
    D = lambda: R.choice([S("D"), V("t"), V("u"), C(VN)])
    sigs = [lambda: ["a", ("b", D()), ("k", D(), "ko")], lambda: ["a", ("k", 0, "ko")], lambda: [("a", 0, "po"), "b"],
            lambda: [("a", 0, "po"), ("b", D(), "po"), ("c", D())], lambda: ["a", ("r", 0, "va")], lambda: [("r", 0, "va"), ("k", D(), "ko")],
            lambda: [("w", 0, "vk")], lambda: ["a", ("r", 0, "va"), ("k", 0, "ko"), ("w", 0, "vk")], lambda: [("k", V("t"), "ko")],
            lambda: [("k", V("t"), "ko"), ("b", V("u"), "ko")], lambda: [("a", 0, "po"), ("w", 0, "vk")], lambda: [("b", V("u"))],
            lambda: [("a", V("t"), "po"), ("b", V("t")), ("k", V("u"), "ko")], lambda: ["a", ("b", D()), ("w", 0, "vk")]]
    for sg in sigs:
        for _ in range(run.pick(14, 60)):
            ps = def_("f", *sg())["ps"]
            body = []
            for q in ps:
                if q["k"] == "vk":
                    body.append(el("i", pyattrs=V(q["n"])))
                elif q["k"] == "va":
                    body += [text(call("len", V(q["n"]))), ctl(for_(V(q["n"]), "q"), text("-", V("q")))]
                else:
                    body.append(text(q["n"], V(q["n"]), ";"))
            args = [N(j) for j in range(R.choice([0, 1, 1, 2, 2, 3]))]
            kws = {n: S(n.upper()) for n in ("a", "b", "k", "zz") if R.random() < .3}
            if R.random() < .6:
                # a call that fits, mostly
                req = [q for q in ps if not q["d"] and q["k"] in ("po", "", "ko")]
                args = [N(j) for j, q in enumerate(ps) if q["k"] in ("po", "") and not q["d"]]
                kws = {q["n"]: S(q["n"].upper()) for q in ps if q["k"] == "ko" and (not q["d"] or R.random() < .5)}
            c = call("f", *args, **kws)
            if R.random() < .4:
                j = R.randint(0, len(args))
                c = spread(call("f", *args[:j], **kws), lst(*args[j:]))
            if R.random() < .4:
                ks = [n for n in kws if R.random() < .5]
                c = spread(dict(c, kw=[x for x in c["kw"] if x["n"] not in ks]), c["sa"],
                           dct(*[(n, kws[n]) for n in ks], *([("zz", N(9))] if R.random() < .1 else [])))
            d = dict(def_("f"), ps=ps)
            ns = R.choice([lambda: [ctl(d, *body), text(call("f") if 0 else c)], lambda: [text(c), el("b", *body, ctl=[d])],
                           lambda: [ctl(for_(lst(N(1)), "z"), ctl(d, *body), text(c))],
                           lambda: [ctl(with_(("t", S("T2"))), ctl(d, *body), text(c))],
                           lambda: [ctl(def_("o", "t"), ctl(d, *body), text(c)), text(call("o", S("T3")))]])()
            r.append(dict(prog(el("div", *ns), [("t", vs("<T>")), ("u", vs("U&"))]), norename=True))
    # closures: each definition captures the variables of its place
    for body in (lambda: [ctl(def_("f"), text(V("x"))), text(call("f"))],
                 lambda: [ctl(def_("f", ("y", V("x"))), text(V("y"), V("x"))), text(call("f"))]):
        r.append(prog(el("div", ctl(for_(lst(N(1), N(2), N(3)), "x"), *body()))))
        r.append(prog(el("div", ctl(for_(lst(N(1), N(2)), "x"), ctl(with_(("z", V("x"))), ctl(def_("g"), text(V("z"))), text(call("g")))))))
        r.append(prog(el("div", ctl(with_(("x", N(1))), *body(), ctl(with_(("x", N(2))), text(call("f"), V("x"))), text(call("f"))))))
        r.append(prog(el("div", ctl(def_("o", "x"), *body()), text(call("o", N(1)), call("o", N(2))))))
    fs = [ctl(def_("h", "k"), text(call("k"))), ctl(with_(("x", S("here"))), ctl(def_("f"), text(V("x"))), text(call("h", V("f")))),
          ctl(with_(("x", S("there"))), text(call("h", lam([], V("x")))))]
    r.append(prog(el("div", *fs)))
    # code with scopes of its own that have names of variables used elsewhere
    for j in range(len(tkast.DECOYS)):
        for perm in itertools.permutations(["x", "y", "z"]):
            u = lambda: text(V("x"), "-", V("y"), "-", V("z"))
            c = dict(code(("q", S("q"))), decoy=[j, *perm])
            ctx = [("x", vs("<")), ("y", vi(2)), ("z", vmk("&"))]
            for nodes in ([c, u()], [u(), c], [u(), el("p", ctl=[if_(V("no"))], *[c])], [ctl(def_("f"), u(), c, u()), u(), text(call("f"))],
                          [ctl(with_(("y", S("w"))), c, u()), u()], [ctl(def_("h"), "def"), c, text(V("x"), call("h"), V("z"))]):
                r.append(dict(prog(el("div", *nodes), ctx + [("no", vi(0))]), norename=True))
    return r


def c07(run):
    progs = c07_systematic(run)
    run.cov["systematic"] = len(progs)
    pool = ["a", "b", "c", "s", "n"]
    mk = lambda **kw: Gen(run.rng, profile(**kw))
    g1 = mk(wildpool=pool, exprs=dict(wild=4, call=3), ctls={"if": 1, "unless": .5, "with": 4, "for": 3, "def": 4, "block": 2})
    g2 = mk(wildpool=pool, exprs=dict(call=5, wild=.1), ctls={"if": 1, "unless": .5, "with": 4, "for": 3, "def": 4, "block": 2}, nctl=[(0, 4), (1, 4), (2, 3)])
    # comprehension variables that are used elsewhere; see DESIGN.md on CPython
    g3 = mk(wildpool=["a", "b", "s"], compvars=["a", "b", "s"], comps=.7, exprs=dict(wild=2, lam=0, call=3, len=1),
            ctls={"with": 0, "def": 0, "block": 2, "for": 4})
    g4 = mk(wildpool=pool, nodes=dict(code=1.2, imp=.5), exprs=dict(wild=1), depth=2)
    progs += [g1.single() for _ in range(run.pick(700, 8000))]
    progs += [g2.single() for _ in range(run.pick(500, 8000))]
    progs += [g3.single() for _ in range(run.pick(300, 3000))]
    progs += [g4.family() for _ in range(run.pick(100, 2000))]
    progs += larger(run)
    tkrun.check(run, progs)


# -- C08 ---------------------------------------------------------------------

def entries(files, ctx, which, funcs=("__main__",), **kw):
    return [prog(files, ctx, entry=e, func=f, **kw) for e in which for f in funcs]


def c08_systematic(run):
    R = run.rng
    ctx = [("v", vs("<v>"))]
    r = []
    names = ["A", "B", "F"]        # two blocks and a function

    def define(n, lv, calls):
        body = [text("%s%d(" % (n, lv))] + [text(call(x)) for x in calls] + [text(")")]
        body = [x for x in body]
        from tkgen import norm
        body = norm(body)
        if n == "F":
            ps = [("x", S("dx")), ("y", N(1))][:R.choice([0, 0, 0, 1, 2])]
            body += [text(V("x"))] * bool(ps)
            return ctl(def_("F", *ps), *norm(body)) if R.random() < .6 else el("i", *norm(body), ctl=[def_("F", *ps)])
        return ctl(block(n), *body) if R.random() < .6 else el("i", *body, ctl=[block(n)])
    callsets = [dict(A="", B="", F=""), dict(A="F", B="A", F=""), dict(A="BF", B="", F="B"),
                dict(A="", B="F", F="A"), dict(A="F", B="F", F="")]
    for L in ((2, 3, 4) if run.thorough else (2, 3)):
        for over in itertools.product(range(8), repeat=L - 1):
            for cs in callsets if run.thorough or L == 2 else R.sample(callsets, 2):
                files = [file("t0.tk", el("html", define("A", 0, cs["A"]), text("-", call("F"), "-"),
                                          el("p", define("B", 0, cs["B"])), define("F", 0, cs["F"]),
                                          text("|", call("A"), call("B"), V("v"))))]
                for lv, m in enumerate(over, 1):
                    ds = []
                    for j, n in enumerate(names):
                        if m >> j & 1:
                            # overriding definitions may call what the base does not
                            ds.append(define(n, lv, R.choice([cs[n], "", "F" if n == "A" else ""])))
                    R.shuffle(ds)
                    files.append(file("t%d.tk" % lv, *ds, ext=lv))
                whole = list(range(1, L + 1))
                R.shuffle(whole)
                g = entries(files, ctx, whole)
                if R.random() < .4 or run.thorough:
                    g += entries(files, ctx, [L, 1], ("A", "F"))
                r.append(g)
    # siblings sharing a parent
    base = lambda: file("t0.tk", el("html", ctl(block("A"), text("A0", call("F"))), ctl(def_("F", ("x", N(1))), text("F0", V("x"))),
                                    ctl(def_("G"), text("G0", call("F", S("g")))), text(call("G"), call("F"))))
    for m1, m2 in itertools.product(range(1, 8), repeat=2):
        def sib(name, m):
            ds = [ctl(block("A"), text("A", name)), ctl(def_("F", ("x", S(name))), text("F", name, V("x"))),
                  ctl(def_("G"), text("G", name, call("F")))]
            return file(name, *[d for j, d in enumerate(ds) if m >> j & 1], ext=1)
        files = [base(), sib("t1.tk", m1), sib("t2.tk", m2)]
        o = [1, 2, 3, 2, 1, 3]
        R.shuffle(o)
        r.append(entries(files, ctx, o))
    # new functions and blocks of a derived template, nested and conditional blocks
    for cond_ in (0, 1):
        inner = ctl(block("I"), "I0")
        b = file("t0.tk", el("html", ctl(block("O"), text("O0"), inner, text(call("N") if 0 else V("v"))),
                             ctl(if_(V("c")), ctl(block("C"), "C0")), ctl(for_(lst(N(1), N(2)), "i"), ctl(block("L"), "L0"))))
        for m in range(16):
            ds = [ctl(block("O"), text("O1"), ctl(block("I"), "I1")), ctl(block("I"), text("I1", call("N"))),
                  ctl(block("C"), text("C1", call("N"))), ctl(block("L"), "L1")]
            d = file("t1.tk", *[x for j, x in enumerate(ds) if m >> j & 1], ctl(def_("N"), "new"), ext=1)
            r.append(entries([b, d], ctx + [("c", vi(cond_))], [2, 1, 2]))
    # a context variable as an argument, blocks that use the context, definitions overridden by blocks
    for k1, k2 in itertools.product("bd", "bd"):
        mk = lambda k, s: ctl(block("X") if k == "b" else def_("X"), text(s, V("v")))
        r.append(entries([file("t0.tk", el("html", mk(k1, "0"), text("[", call("X"), "]"))),
                          file("t1.tk", mk(k2, "1"), ext=1)], ctx, [1, 2, 1], ("__main__", "X")))
    return r


def c08(run):
    progs = c08_systematic(run)
    run.cov["systematic"] = sum(len(g) for g in progs)
    g = Gen(run.rng, profile(depth=2, nodes=dict(imp=.5), ctls={"block": 3, "def": 3}, exprs=dict(call=4)))
    for _ in range(run.pick(170, 3500)):
        pr = g.family((2, 5), (0, 2))
        k = [j for j, f in enumerate(pr["files"], 1) if f["name"].startswith("t")]
        sub = run.rng.sample(k, min(len(k), 2))
        progs.append([dict(pr, entry=e, func="__main__") for e in sub] + [pr])
    progs += larger(run)
    tkrun.check(run, progs)


# -- C09 ---------------------------------------------------------------------

def c09_systematic(run):
    R = run.rng
    r = []
    places = {
        "top": lambda i, u: [i, *u],
        "after": lambda i, u: [*u, i],
        "el": lambda i, u: [el("p", i), *u],
        "if": lambda i, u: [ctl(if_(V("yes")), i, *u)],
        "ifconst": lambda i, u: [ctl(if_(N(1)), i), *u],
        "for": lambda i, u: [ctl(for_(lst(N(1), N(2)), "q"), i, *u)],
        "with": lambda i, u: [ctl(with_(("q", N(1))), i, *u)],
        "def": lambda i, u: [ctl(def_("d"), i, *u), text(call("d"))],
        "block": lambda i, u: [ctl(block("bk"), i, *u)],
        "usedef": lambda i, u: [i, ctl(def_("d"), *u), text(call("d"))],
        "usenested": lambda i, u: [i, ctl(for_(lst(N(1)), "q"), ctl(def_("d"), *u), text(call("d")))],
        "usewith": lambda i, u: [i, ctl(with_(("q", V("m"))), *[text(call(attr(V("q"), "f"))), *u])],
        "usearg": lambda i, u: [i, ctl(def_("d", "m"), *u), text(call("d", V("m")))],
        "useblock": lambda i, u: [i, ctl(block("bk"), *u)],
        "useattr": lambda i, u: [i, el("p", *u, attrs=[at("z", call(attr(V("m"), "f")))])],
    }
    libs = {
        "plain": lambda: [file("l1.tk", el("div", ctl(def_("f"), text("f1", V("v"), ";")), ctl(def_("g"), text("g1", call("f"))),
                                         ctl(block("bl"), text("bl1", call("g"))), "not this"))],
        "extends": lambda: [file("l1.tk", ctl(def_("f"), text("f1", V("v"), ";")), ext=2),
                            file("l2.tk", el("div", ctl(def_("f"), "f2"), ctl(def_("g"), text("g2", call("f"))), ctl(block("bl"), text("bl2", call("g")))))],
        "imports": lambda: [file("l1.tk", el("div", imp(2, "n"), ctl(def_("f"), text("f1", call(attr(V("n"), "f")))),
                                           ctl(def_("g"), text("g1", call("f"), call(attr(V("n"), "g")))), ctl(block("bl"), text(call("g"))))),
                            file("l2.tk", el("div", ctl(def_("f"), text("f2", V("v"))), ctl(def_("g"), text("g2", call("f")))))],
        "nested": lambda: [file("l1.tk", el("div", el("p", text("b", call("g")), ctl=[block("bl")]), ctl(def_("f", ("x", S("dx"))), text("f", V("x"))),
                                          el("i", text(call("f", S("<"))), ctl=[def_("g")])))],
    }
    own = {
        "none": lambda: [],
        "same": lambda: [ctl(def_("f"), "MINE"), ctl(def_("g"), text("mine", call("f")))],
        "block": lambda: [ctl(block("bl"), "MINE"), ctl(def_("f"), "MF")],
    }
    uses = {
        "all": lambda o: [text(call(attr(V("m"), "f")), call(attr(V("m"), "g")), call(attr(V("m"), "bl")))],
        "own": lambda o: [text(call(attr(V("m"), "g")))] + ([text(call("f"))] if o != "none" else []),
        "missing": lambda o: [text("x", call(attr(V("m"), "nope")))],
        "main": lambda o: [text("x", call(attr(V("m"), "v")))],
    }
    for (ln, lb), (on, ow), (pn, pl), (un, us) in itertools.product(libs.items(), own.items(), places.items(), uses.items()):
        if not run.thorough and R.random() > .5:
            continue
        ls = lb()
        me = len(ls) + 1
        body = ow() + pl(imp(1, "m"), us(on)) + [text("end", call("f")) if on == "same" else text("end")]
        if on == "none" and R.random() < .2:
            body.append(text(V("f")))       # not the importer's
        from tkgen import norm
        main = file("main.tk", el("html", *norm(body)))
        r.append(entries(ls + [main], [("v", vs("<v>")), ("yes", vi(1))], [me, 1] if R.random() < .3 and not ls[0]["ext"] else [me]))
    # chains: every template of the chain and the libraries import and define the same names
    for m in range(32):
        b = lambda j: bool(m >> j & 1)
        l1 = file("l1.tk", el("div", ctl(def_("f"), text("lib1", call("h"))), ctl(def_("h"), "h1")))
        l2 = file("l2.tk", el("div", ctl(def_("f"), text("lib2", call("h"))), ctl(def_("h"), "h2")))
        base = file("t0.tk", el("html", *([imp(1, "m")] if b(0) else []), ctl(def_("h"), "hbase"), ctl(def_("k"), text("k", call("h"))),
                                ctl(block("A"), text("A0", call(attr(V("m"), "f")) if b(0) else V("v"), call("h"))), text(call("k"))))
        der = file("t1.tk", *([imp(2, "m")] if b(1) else []), *([ctl(def_("h"), "hder")] if b(2) else []),
                   *([ctl(block("A"), text("A1", call(attr(V("m"), "f")) if b(1) else V("v"), call("h")))] if b(3) else []),
                   *([ctl(def_("f"), "fder")] if b(4) else []), ext=3)
        r.append(entries([l1, l2, base, der], [("v", vs("v"))], [4, 3, 4]))
    return r


def c09(run):
    progs = c09_systematic(run)
    run.cov["systematic"] = sum(len(g) for g in progs)
    g = Gen(run.rng, profile(depth=2, nodes=dict(imp=3), exprs=dict(call=6)))
    progs += [g.family((1, 3), (1, 3)) for _ in range(run.pick(220, 4000))]
    g = Gen(run.rng, profile(depth=2, nodes=dict(imp=3), exprs=dict(call=6, wild=1), wildpool=["m1", "m2", "g0", "f0", "s"]))
    progs += [g.family((1, 3), (1, 3)) for _ in range(run.pick(100, 2000))]
    progs += larger(run)
    tkrun.check(run, progs)


# -- C15 ---------------------------------------------------------------------

def c15_systematic(run):
    R = run.rng
    ctx = [("yes", vb(True)), ("no", vl()), ("n", vi(3)), ("l2", vl(vi(1), vi(2))), ("bad", vbad("B")), ("il", vl(vl(vi(1)), vl(vi(1), vi(2)))),
           ("d", vd(("k", vs("x"))))]
    r = []
    fails = {
        "boom": lambda: call("boom", S("1")),
        "arg": lambda: p("1", call("boom", S("2"))),
        "bad": lambda: V("bad"),
        "name": lambda: V("nowhere"),
        "type": lambda: call(V("n")),
        "key": lambda: idx(V("d"), S("none")),
        "index": lambda: idx(V("l2"), N(5)),
        "lam": lambda: call(lam(["x"], call("boom", V("x"))), S("3")),
        "comp": lambda: idx(comp("q", V("l2"), call("boom", S("4"))), N(0)),
        "cond": lambda: cond(V("no"), N(1), call("boom", S("5"))),
    }
    pos = dict(POSITIONS)
    pos.update({
        "if": lambda e: [ctl(if_(e), "x")], "ifattr": lambda e: [el("b", "x", ctl=[if_(e)], attrs=[at("q", "\n")])],
        "unless": lambda e: [ctl(unless(e), "x")], "for": lambda e: [ctl(for_(e, "q"), "x")],
        "forattr": lambda e: [el("b", "x", ctl=[for_(e, "q")])],
        "stripdyn": lambda e: [el("b", "x", strip=e)], "with": lambda e: [ctl(with_(("a", N(1)), ("q", e)), "x", text(V("q")))],
        "withattr": lambda e: [el("b", text("x\n", V("q")), ctl=[with_(("q", e))])],
        "attrs": lambda e: [el("b", "x", pyattrs=e)],
        "callarg": lambda e: [ctl(def_("ff", "x"), text("\n", V("x"))), text("\n", call("ff", e))],
        "default": lambda e: [ctl(for_(V("l2"), "q"), ctl(def_("ff", ("x", e)), "x"), text("\n", call("ff")))],
        "literal": lambda e: [text("\n", lit(e))],
        "lateattr": lambda e: [el("b", attrs=[at("a", "x\ny"), at("b", V("n")), at("c", "\n", V("n"), "\n", e)])],
    })
    conts = {
        "main": lambda ch: [file("m.tk", el("html", *ch))],
        "nl": lambda ch: [file("m.tk", el("html", "\n\n", el("p", "\n", *ch), "\n"))],
        "def": lambda ch: [file("m.tk", el("html", "\n", ctl(def_("f"), "\n", *ch), "\n", el("p", "\n", text(call("f")))))],
        "defs": lambda ch: [file("m.tk", el("html", ctl(def_("f"), "\n", *ch), ctl(def_("g"), "\n\n", text(call("f"))), ctl(for_(V("l2"), "i"), "\n", text(call("g")))))],
        "block": lambda ch: [file("m.tk", el("html", "\n", el("p", "\n", *ch, ctl=[block("bl")])))],
        "for": lambda ch: [file("m.tk", el("html", "\n", ctl(for_(V("l2"), "i"), "\n", ctl(if_(V("yes")), *ch), "\n")))],
        "with": lambda ch: [file("m.tk", el("html", "\n", ctl(with_(("w", N(1)), ("u", N(2))), "\n", *ch)))],
        "nested": lambda ch: [file("m.tk", el("html", ctl(with_(("w", N(1))), "\n", ctl(def_("f", "x"), "\n", *ch), el("p", "\n", text("x", call("f", V("w")))))))],
        "import": lambda ch: [file("m.tk", el("html", imp(2, "m"), ctl(def_("d"), "\n\n", text(call(attr(V("m"), "f")))), "\n", text(call("d")))),
                              file("lib.tk", el("div", "\n\n", ctl(def_("f"), "\n", *ch)))],
        "ancestor": lambda ch: [file("m.tk", ctl(def_("f"), "\n", *ch), ext=2), file("base.tk", el("html", "\n", ctl(def_("f"), "x"), "\n", text(call("f"))))],
        "base": lambda ch: [file("m.tk", ctl(def_("f"), "\n"), ext=2), file("base.tk", el("html", "\n", ctl(block("bb"), "\n", *ch), "\n", ctl(def_("f"), "x")))],
    }
    for (fn, f), (pn, p_), (cn, c) in itertools.product(fails.items(), pos.items(), conts.items()):
        if fn == "bad" and pn in ("for", "forattr", "callarg", "with", "withattr", "default", "attrs"):
            pass
        if not run.thorough and R.random() > .3:
            continue
        files = c(p_(f()))
        r.append(prog(files, ctx, tbs=True))
    # recursion
    nn = lambda: op("lt", N(0), V("n"))
    dec = lambda: cat(V("n"), N(-1))
    for fn, f in fails.items():
        for style in range(6):
            bad = text("\n", f())
            again = [text(call("r", dec()))]
            body = {0: lambda: [ctl(if_(nn()), *again), ctl(unless(nn()), bad)],
                    1: lambda: [ctl(if_(nn()), "\n", *again, "\n"), "\n", ctl(unless(nn()), bad)],
                    2: lambda: [ctl(with_(("w", N(1))), ctl(if_(nn()), *again)), ctl(unless(nn()), bad)],
                    3: lambda: [ctl(for_(V("l2"), "i"), ctl(if_(nn()), *again), ctl(unless(nn()), bad))],
                    4: lambda: [el("p", *again, ctl=[if_(nn())]), el("b", bad, ctl=[unless(nn())])],
                    5: lambda: [text(cond(nn(), call("s", V("n")), f()))]}[style]()
            top = ["\n", ctl(def_("r", "n"), *body), ctl(def_("s", "n"), "\n", text(call("r", dec())))]
            if style % 2:
                main = [file("m.tk", el("html", *top, el("p", text(call("r", N(3))))))]
            else:
                main = [file("m.tk", el("html", imp(2, "m"), text("\n", call(attr(V("m"), "r"), N(2))))), file("lib.tk", el("div", *top))]
            r.append(prog(main, ctx, tbs=True))
    # loop targets
    for t in (("a", "b"), ("a",), ("a", "b", "c")):
        r.append(prog(el("html", "\n\n", ctl(for_(V("il"), *t, tup=True), "\n", text(V("a")))), ctx, tbs=True))
    return r


class CharrefPrinter(tkast.Printer):
    """line breaks of texts as character references"""

    def enc(self, s, quote=None):
        return tkast.Printer.enc(self, s, quote).replace("\n", "&#10;")


def c15(run):
    progs = [prog(el("html", "a\n\n", text("x\n", V("nowhere"))), tbs=True), prog(el("html", attrs=[at("a", "\n\n", V("nowhere"))]), tbs=True)]
    for q in progs:
        q["label"] = "charref-newline"
    tkrun.check(run, progs, printer=CharrefPrinter, wild=False)
    progs = c15_systematic(run)
    run.cov["systematic"] = len(progs)
    progs += larger(run)
    tkrun.check(run, progs, nl=False)
    ex = dict(bad=.15, boom=.15, unbound=.05, call=4)
    g = Gen(run.rng, profile(tbs=True, exprs=ex, width=4))
    progs = [g.single() for _ in range(run.pick(700, 9000))]
    g = Gen(run.rng, profile(tbs=True, exprs=ex, depth=2, nodes=dict(imp=1, code=.3)))
    progs += [g.family() for _ in range(run.pick(170, 2500))]
    tkrun.check(run, progs, nl=True)


# constructs of the same shape side by side; the variables are yes, no, l2, n

def siblings(R, share):
    def one(k, j, form):
        t = lambda *a: text("%s%d" % (k, j), *a)
        w = lambda c, *ch: ctl(c, *ch) if form else el("s", *ch, ctl=[c])
        return {
            "with": lambda: [w(with_(("x", N(j))), t(V("x")))],
            "withother": lambda: [w(with_(("x%d" % j, V("n"))), t(V("x%d" % j)))],
            "with2": lambda: [w(with_(("x", N(j)), ("y", V("x"))), t(V("x"), V("y")))],
            "for": lambda: [w(for_(lst(N(j), N(j + 1)), "i"), t(V("i")))],
            "forother": lambda: [w(for_(V("l2"), "i%d" % j), t(V("i%d" % j)))],
            "if": lambda: [w(if_(V("yes" if j % 2 else "no")), t(V("n")))],
            "unless": lambda: [w(unless(V("yes" if j % 2 else "no")), t(V("n")))],
            "def": lambda: [w(def_("f%d" % j, "a"), t(V("a"))), text(call("f%d" % j, N(j)))],
            "nested": lambda: [w(def_("f%d" % j), ctl(def_("g", "a"), t(V("a"))), text(call("g", N(j)))), text(call("f%d" % j))],
            "defwith": lambda: [w(def_("f%d" % j), ctl(with_(("x", N(j))), t(V("x")))), text(call("f%d" % j))],
            "forwith": lambda: [w(for_(V("l2"), "i%d" % j), ctl(with_(("x", N(j))), t(V("i%d" % j), V("x"))))],
            "withdef": lambda: [w(with_(("x", N(j))), ctl(def_("f"), t(V("x"))), text(call("f")))],
            "withwith": lambda: [w(with_(("x", N(j))), ctl(with_(("x", cat(V("x"), N(10)))), t(V("x"))), t(V("x")), ctl(with_(("x", N(j + 5))), t(V("x"))))],
            "block": lambda: [w(block("b%d" % j), t(V("n")))],
            "strip": lambda: [el("s", t(V("n")), strip=V("yes" if j % 2 else "no"), attrs=[at("k", N(j))])],
            "el": lambda: [el("s", t(V("n")), attrs=[at("k", N(j)), at("m", "a", V("n"))])],
            "lam": lambda: [t(call(lam(["a"], V("a")), N(j)))],
            "comp": lambda: [t(idx(comp("q", lst(N(j)), V("q")), N(0)))],
        }[k]()
    ks = ["with", "withother", "with2", "for", "forother", "if", "unless", "def", "nested", "defwith", "forwith", "withdef", "withwith", "block", "strip", "el", "lam", "comp"]
    places = {
        "root": lambda c: c,
        "el": lambda c: [el("p", *c)],
        "def": lambda c: [ctl(def_("o"), *c), text(call("o"), call("o"))],
        "block": lambda c: [ctl(block("bo"), *c)],
        "for": lambda c: [ctl(for_(V("l2"), "io"), *c)],
        "with": lambda c: [ctl(with_(("xo_", N(1))), *c)],
        "if": lambda c: [ctl(if_(V("yes")), *c)],
    }
    from tkgen import norm
    r = []
    for pn, pl in places.items():
        for k1, k2 in itertools.product(ks, ks):
            if "block" in (k1, k2) and pn in ("def", "for", "with"):
                continue
            if k1 != k2 and R.random() > share:
                continue
            if {"comp", "lam"} <= {k1, k2}:
                continue
            form = R.random() < .7
            c = one(k1, 1, form) + one(k2, 2, form) + (one(k1, 3, form) if R.random() < .5 else [])
            r.append(el("div", *norm(pl(c))))
    return r


# -- C16 ---------------------------------------------------------------------

def c16_systematic(run):
    R = run.rng
    ctx = [("yes", vb(True)), ("no", vl()), ("l2", vl(vi(1), vi(2))), ("n", vs("<n>"))]
    r = []
    texts = ["hello", " hello", "hello ", "\n hello world \n", "a < b & c", " ", "\n", "", "$5", "it's \"q\"", "x", "&amp;", "a\n  b", "\xa0nbsp\xa0", "\xa0", "\u3000\u2003wide\x85", "\u2028", "2.5", "42", "-", ".", "é\xa0ü", "\r\nx\r", "\\", "\x0b"]
    places = {
        "el": lambda ps: [el("p", text(*ps))],
        "root": lambda ps: [text(*ps)],
        "title": lambda ps: [el("title", text(*ps))],
        "textarea": lambda ps: [el("textarea", text(*ps))],
        "script": lambda ps: [el("script", text(*[x.replace("<", "") if isinstance(x, str) else x for x in ps], raw=True))],
        "style": lambda ps: [el("style", text(*[x.replace("<", "") if isinstance(x, str) else x for x in ps], raw=True))],
        "def": lambda ps: [ctl(def_("f"), text(*ps)), text(call("f"), call("f"))],
        "block": lambda ps: [el("p", text(*ps), ctl=[block("bl")])],
        "for": lambda ps: [ctl(for_(V("l2"), "i"), text(*ps))],
        "if0": lambda ps: [ctl(if_(V("no")), text(*ps))],
        "with": lambda ps: [el("b", text(*ps), ctl=[with_(("q", N(1)))])],
        "strip": lambda ps: [el("b", text(*ps), strip=V("yes"))],
        "content": lambda ps: [el("b", text(*ps), content=V("n"))],
        "replace": lambda ps: [el("b", text(*ps), replace=V("n"))],
        "comment": lambda ps: [comment(" c "), text(*ps), comment("d")],
    }
    for a in ["title", "alt", "placeholder", "value", "caption", "class", "href", "data-title", "TITLE".lower(), "id"]:
        places["@" + a] = lambda ps, a=a: [el("img", attrs=[at(a, *ps)])]
        places["s@" + a] = lambda ps, a=a: [el("p", "x", attrs=[at("lang", "1"), at(a, *ps)], strip=V("no"))]
        places["script@" + a] = lambda ps, a=a: [el("script", attrs=[at(a, *ps)])]
    shapes = [lambda t: [t], lambda t: [V("n")], lambda t: [t, V("n")], lambda t: [V("n"), t], lambda t: [t, V("n"), t],
              lambda t: [V("n"), t, V("n")], lambda t: [t, V("n"), V("n"), " and "]]
    for pn, pl in places.items():
        for t in texts:
            for sh in R.sample(shapes, run.pick(2, 7)):
                ps = [x for x in sh(t) if x != ""]
                for tr in ("wrap", "id", "mk", "off") if run.thorough else (R.choice(("wrap", "wrap", "wrap", "mk", "id")),):
                    q = prog(el("div", *pl(ps)), ctx, tr=tr)
                    r.append(q)
    for ns in each_name(lambda a: [el("b", attrs=[at(a, "some text")]), el("i", attrs=[at(a, " a ", V("n"), " b ")])], attribute=True):
        r.append(dict(prog(el("div", *ns), ctx, tr="wrap"), nodress=True))
    for ns in each_name(lambda e: [el(e, text(" some text ", V("n"), "b")), el("b", el(e, el("i", "inner")), "after")], void=False):
        r.append(dict(prog(el("div", *ns), ctx, tr="wrap"), nodress=True))
    for m in range(8):
        base = file("t0.tk", el("html", "Head", ctl(block("A"), text("A zero ", V("n"))), ctl(def_("F"), "F zero")))
        der = file("t1.tk", *([ctl(block("A"), text("A one", call("F")))] if m & 1 else []), *([ctl(def_("F"), " F one ")] if m & 2 else []), ext=1)
        lib = file("l.tk", el("div", ctl(def_("g"), text("Lib ", V("n")))))
        main = file("m.tk", el("div", imp(3, "m"), text("go ", call(attr(V("m"), "g")))))
        r.append(entries([base, der, lib, main], ctx, [2, 1, 4], tr="wrap" if m & 4 else "id"))
    return r


def c16(run):
    progs = c16_systematic(run)
    run.cov["systematic"] = len(progs)
    for tr, n in (("wrap", run.pick(400, 5000)), ("mk", run.pick(200, 2500)), ("id", run.pick(200, 3000)), ("off", run.pick(100, 1000))):
        g = Gen(run.rng, profile(tr=tr, attrs=.6, nodes=dict(script=1, text=10, comment=.6)))
        progs += [g.single() for _ in range(n)]
    g = Gen(run.rng, profile(tr=run.rng.choice(("wrap", "mk")), depth=2, nodes=dict(imp=.5)))
    progs += [g.family() for _ in range(run.pick(60, 1200))]
    progs += larger(run)
    tkrun.check(run, progs)


# -- C19 ---------------------------------------------------------------------

def c19_systematic(run):
    """all combinations of the attributes on an element, at top level and nested"""
    R = run.rng
    ctx = values_ctx() + [("l2", vl(vi(1), vi(2))), ("l0", vl()), ("pairs", vl(vl(vs("<"), vi(1)), vl(vi(2), vs("&"))))]
    r = []
    for m in range(32):
        on = [k for j, k in enumerate(["if", "for", "strip", "content", "attrs"]) if m >> j & 1]
        for truth in itertools.product((0, 1), repeat=len([k for k in on if k != "content"])):
            tv = dict(zip([k for k in on if k != "content"], truth))
            for repl in (0, 1):
                if repl and not run.thorough and R.random() < .5:
                    continue
                cs = []
                if "if" in on:
                    cs.append(if_(p("if", V("yes") if tv["if"] else V("no"))))
                if "for" in on:
                    cs.append(for_(p("for", V("l2") if tv["for"] else V("l0")), "i"))
                kw = {}
                if "strip" in on:
                    kw["strip"] = p("st", V("yes") if tv["strip"] else V("no")) if R.random() < .8 else N(tv["strip"])
                if "content" in on:
                    kw["content"] = p("co", S("C&"))
                if "attrs" in on:
                    kw["pyattrs"] = p("pa", dct(("z", V("n")), ("y", S("<"))) if tv["attrs"] else C(VN))
                kw["attrs"] = [at("a", p("a", V("v0"))), at("b", "1"), at("c", bare=True)]
                if repl:
                    # on an element that is replaced there is nothing else to see
                    e = el("b", text("gone", p("x", N(1))), replace=p("re", S("R&")), ctl=cs)
                else:
                    e = el(R.choice(["b", "b", "title", "br"]) if "content" not in on else "b",
                           **dict(kw, ctl=cs))
                    if not e["void"]:
                        e["ch"] = el("b", text("c<", V("i") if "for" in on else V("n")))["ch"]
                r.append(prog(el("div", text("<", p("pre", N(1))), e, el("u", e), text("post")), ctx))
                r.append(prog(e, ctx))
    for e in (V("v0"), V("v4"), V("v6"), lit(V("v0")), V("v12"), call(lam(["q"], V("q")), V("v1"))):
        for pl in POSITIONS.values():
            ns = pl(e)
            if any(x["k"] == "el" and x["own"] for x in ns):
                continue
            r.append(prog(el("div", *ns), ctx))
    for t in (("a", "b"), ("q",)):
        r.append(prog(el("div", el("b", text(*[V(x) for x in t]), ctl=[for_(V("pairs"), *t, tup=len(t) > 1)])), ctx))
    r.append(prog([file("main.tk", raw("<!DOCTYPE html>"), comment(" c "), el("html", el("input", attrs=[at("checked", bare=True)]),
                                                                              text("$x $$ $", V("n"), "$5.00 {}")))], ctx))
    return r


def c19(run):
    progs = c19_systematic(run)
    run.cov["systematic"] = len(progs)
    g = Gen(run.rng, profile(ctls={"if": 3, "for": 3, "unless": 0, "with": 0, "def": 0, "block": 0}, nodes=dict(ctlel=0),
                             elextra=dict(strip=.3, content=.25, replace=.2, pyattrs=.3), attrs=.6, depth=4,
                             nctl=[(0, 2), (1, 4), (2, 3)]))
    progs += [g.single() for _ in range(run.pick(900, 12000))]
    progs += larger(run, "tal")
    for q in progs:
        q["syntax"] = "chameleon"
    tkrun.check(run, progs, printer=TalPrinter)


# -- C18 ---------------------------------------------------------------------

def c18_systematic(run):
    R = run.rng
    from tkgen import norm
    J = lambda files, ctx=(), **kw: prog(files, list(ctx), target="js", **kw)
    vals = [jsvalue(v) for v in VALUES[:13] if v["t"] != "html"] + [vs("</script>"), vi(-7), vs("'")]
    ctx = [("v%d" % j, v) for j, v in enumerate(vals)] + [
        ("vals", vl(*vals)), ("n", vi(3)), ("yes", vb(True)), ("no", vb(False)), ("l2", vl(vi(1), vi(2))), ("l0", vl()),
        ("dd", vd(("x", vs("<")), ("y", VN), ("z", vb(True)), ("w", vi(0)), ("v", vb(False)), ("t", vs("")))),
        ("pl", vl(*[vl(vs(k), v) for k, v in [("x", vs("<")), ("y", VN), ("x", vb(True)), ("z", vb(False)), ("q", vi(0))]]))]
    r = []
    # where a value comes from and where it goes
    pos = {k: v for k, v in POSITIONS.items() if k != "attrslist"}
    pos["attrslist"] = lambda e: [el("b", attrs=[at("s", "&")], pyattrs=lst(lst(S("k"), e), lst(S("j"), e)))]
    srcs = {k: v for k, v in SOURCES.items() if k not in ("kwarg", "default", "cat", "catm", "index", "comp")}
    srcs["index"] = lambda e, at_: at_(idx(lst(S("<no>"), e), N(1)))
    srcs["prop"] = lambda e, at_: at_(idx(dct(("k", e)), S("k")))
    srcs["comp"] = lambda e, at_: at_(idx(comp("q", lst(e), V("q")), N(0)))
    srcs["cat"] = lambda e, at_: at_(cat(S("<"), S("&x")))
    srcs["fnarg"] = lambda e, at_: [ctl(def_("h", "k"), *at_(call("k"))), text(call("h", lam([], e)))]
    srcs["arg2"] = lambda e, at_: [ctl(def_("f", "y", "x"), *at_(V("x")), text(V("y"))), text(call("f", S("y&"), e))]
    for (pn, at_), (sn, src) in itertools.product(pos.items(), srcs.items()):
        if not run.thorough and pn not in ("text", "attr", "content", "attrsdict") and R.random() > .5:
            continue
        r.append(J(el("div", ctl(for_(V("vals"), "v"), *src(V("v"), at_))), ctx))
        if pn in ("text", "attr", "content"):
            for j in range(len(vals)):
                if run.thorough or R.random() < .4:
                    r.append(J(el("div", *src(V("v%d" % j), at_)), ctx))
    # attributes
    shapes = {"whole": lambda e: [at("a", e)], "pre": lambda e: [at("a", "x", e)], "post": lambda e: [at("a", e, "<")],
              "two": lambda e: [at("a", e, e)], "multi": lambda e: [at("a", e), at("s", "1"), at("b", e), at("bare", bare=True)],
              "empty": lambda e: [at("empty"), at("a", " ", e)], "static": lambda e: [at("a", "<\"'&>"), at("b")]}
    els = {"b": lambda **k: [el("b", **k)], "bt": lambda **k: [el("b", "t", **k)], "br": lambda **k: [el("br", **k)],
           "strip0": lambda **k: [el("b", "t", strip=V("no"), **k)], "strip1": lambda **k: [el("b", "t", strip=V("yes"), **k)],
           "content": lambda **k: [el("b", content=V("n"), **k)]}
    pas = {"": 0, "dict": dct(("k", V("v"))), "list": lst(lst(S("k"), V("v")), lst(S("l"), V("v"))), "dd": V("dd"), "none": C(VN),
           "empty": V("l0"), "pl": V("pl"), "edict": dct()}
    for (sn, sh), (en, mk), (pn, pa) in itertools.product(shapes.items(), els.items(), pas.items()):
        if run.thorough or R.random() < .5:
            r.append(J(el("div", ctl(for_(V("vals"), "v"), *mk(attrs=sh(V("v")), pyattrs=pa))), ctx))
    # combinations of control attributes
    for m in range(64):
        kinds = [k for j, k in enumerate(CTLS) if m >> j & 1]
        for term in ["", "strip1", "strip0", "content", "replace", "stripcontent", "attrs"]:
            truths = [(1, 1, 1)] + [(0, 1, 1)] * ("if" in kinds) + [(1, 0, 1)] * ("unless" in kinds) + [(1, 1, 0)] * ("for" in kinds)
            for tr in truths:
                own = R.choice(kinds) if kinds and R.random() < .3 else None
                ns = c04_element(kinds, term, tr, own, R)
                if "def" in kinds:
                    # no default values; calls only next to the definition
                    for x in ns[1]["own"] + ns[1]["ctl"]:
                        if x and x["k"] == "def":
                            x["ps"] = []
                    ns = [x for x in ns if not (x["k"] == "text" and x["parts"][0].get("s") == "[")]
                    if not set(kinds) & {"block", "for", "if", "unless"}:
                        ns.insert(3, text("[", call("f"), call("f"), "]"))
                r.append(J(el("div", *ns), ctx + [("x", vs("X"))]))
    # every construct within every other
    def wrap(k, form, ch, d):
        c = {"if": lambda: if_(p("i%d" % d, V("yes"))), "unless": lambda: unless(p("u%d" % d, V("no"))),
             "if0": lambda: if_(p("i%d" % d, V("no"))), "ifc": lambda: if_(N(1)), "ifc0": lambda: if_(S("")),
             "for": lambda: for_(V("l2"), "i%d" % d), "with": lambda: with_(("w%d" % d, p("w%d" % d, N(d)))),
             "with2": lambda: with_(("w%d" % d, N(d)), ("ww%d" % d, V("w%d" % d))),
             "def": lambda: def_("f%d" % d), "defp": lambda: def_("f%d" % d, "a%d" % d), "block": lambda: block("b%d" % d)}.get(k)
        see = {"for": "i%d", "with": "w%d", "with2": "ww%d", "defp": "a%d"}.get(k)
        ch = norm(([text(V(see % d))] if see else []) + ch)
        if k == "strip":
            return [el("s", *ch, strip=p("s%d" % d, V("yes")))]
        if k == "strip0":
            return [el("s", *ch, strip=C(VN), attrs=[at("q", p("q%d" % d, N(1)))])]
        if k == "el":
            return [el("e", *ch, attrs=[at("q", p("q%d" % d, N(1)))])]
        x = ctl(c(), *ch) if form else el("s", *ch, ctl=[c()])
        return [x] + ([text(call("f%d" % d))] if k == "def" else []) + ([text(call("f%d" % d, S("<%d" % d)))] if k == "defp" else [])
    ks = ["if", "unless", "if0", "ifc", "ifc0", "for", "with", "with2", "def", "defp", "block", "strip", "strip0", "el"]
    for k1, k2, k3 in itertools.product(ks, ks, ks):
        if run.thorough or R.random() < .3:
            # the innermost content can see every variable around it
            see = {"for": "i%d", "with": "w%d", "with2": "ww%d", "defp": "a%d"}
            kk, blk = [(2, k1), (1, k2), (0, k3)], -1
            leaf = [V(see[k] % d) for d, k in kk if k in see and "block" not in (k1, k2, k3)]
            n = norm([text("x", p("leaf", V("n")), *leaf)])
            for d, k in enumerate((k3, k2, k1)):
                n = [text("<%d" % d)] + wrap(k, R.random() < .5, n, d) + [text("&%d" % d)]
            r.append(J(el("div", *norm(n)), ctx))
    for c in [S(""), S("0"), N(0), N(1), C(VN), C(vb(True)), C(vb(False)), not_(N(0)), not_(not_(S("x"))), V("l0"), V("v2"), lst()]:
        for mk in (lambda e: [ctl(if_(e), "T")], lambda e: [ctl(unless(e), "F")], lambda e: [el("b", "t", ctl=[if_(e)])],
                   lambda e: [el("b", "t", ctl=[unless(e)])], lambda e: [el("b", "t", strip=e)], lambda e: [el("br", strip=e)],
                   lambda e: [text(cond(e, S("<1"), S("<0"))), text(op("or", e, S("<or"))), text(not_(not_(e)))]):
            r.append(J(el("div", "<", *mk(c), ">"), ctx))
    # closures, shadowing
    def show(tag):
        return text(tag + "=", V("x"), ";")
    def scope(k, ch, d):
        v = S("%s%d" % (k, d))
        return {"with": lambda: [ctl(with_(("x", v)), *ch)], "withel": lambda: [el("i", *ch, ctl=[with_(("x", v))])],
                # a loop variable is the function's in Python, the loop's in JavaScript: it shadows nothing here
                "for": lambda: [ctl(for_(lst(v, S("2")), "q%d" % d), ctl(with_(("x", V("q%d" % d))), *ch))], "def": lambda: [ctl(def_("f%d" % d, "x"), *ch), text(call("f%d" % d, v))],
                "def0": lambda: [ctl(def_("f%d" % d, "y"), *ch), text(call("f%d" % d, v))],
                "lam": lambda: [text(call(lam(["x"], V("x")), v))] + ch,
                "comp": lambda: [text(idx(comp("x", lst(v), V("x")), N(0)))] + ch,
                "nested": lambda: [ctl(def_("g%d" % d), "g", show("g")), ctl(with_(("x", v)), *ch, text(call("g%d" % d)))]}[k]()
    for c in itertools.product(["with", "withel", "for", "def", "def0", "lam", "comp", "nested"], repeat=3):
        if run.thorough or R.random() < .5:
            ch = [show("in")]
            for d, k in enumerate(reversed(c)):
                ch = [show("a%d" % d)] + scope(k, ch, d) + [show("z%d" % d)]
            r.append(J(el("div", *ch), [("x", vs("ctx"))]))
    for body in (lambda: [ctl(def_("f"), text(V("x"))), text(call("f"))],):
        r.append(J(el("div", ctl(for_(lst(N(1), N(2), N(3)), "x"), *body()))))
        r.append(J(el("div", ctl(with_(("x", N(1))), *body(), ctl(with_(("x", N(2))), text(call("f"), V("x"))), text(call("f"))))))
        r.append(J(el("div", ctl(def_("o", "x"), *body()), text(call("o", N(1)), call("o", N(2))))))
    nn = op("lt", N(0), V("n"))
    even = ctl(def_("even", "n"), ctl(if_(nn), text("e", call("odd", V("n"), V("m")))))
    odd = ctl(def_("odd", "n", "k"), text("o", V("k"), call("even", N(0))))
    r.append(J(el("div", text(call("even", N(5))), even, odd), [("m", vs("<"))]))
    r += [J(x, ctx) for x in siblings(R, run.pick(.25, 1))]
    # inheritance
    for L in (2, 3):
        for over in itertools.product(range(8), repeat=L - 1):
            for cs in R.sample([dict(A="", B="", F=""), dict(A="F", B="F", F=""), dict(A="F", B="", F="B"), dict(A="", B="F", F="A")],
                               run.pick(2, 4)):
                def define(nm, lv):
                    body = [text("%s%d(" % (nm, lv), *[call(x) for x in cs[nm]], ")")]
                    d = def_("F", *["x", "y"][:R.choice([0, 0, 1, 2])]) if nm == "F" else block(nm)
                    return ctl(d, *body) if R.random() < .6 else el("i", *body, ctl=[d])
                files = [file("t0.tk", el("html", define("A", 0), text("-", call("F"), "-"), el("p", define("B", 0)), define("F", 0),
                                          text("|", call("A"), call("B"), V("v"))))]
                for lv, m in enumerate(over, 1):
                    ds = [define(nm, lv) for j, nm in enumerate("ABF") if m >> j & 1]
                    R.shuffle(ds)
                    files.append(file("t%d.tk" % lv, *ds, ext=lv))
                o = list(range(1, L + 1))
                R.shuffle(o)
                r.append([J(files, [("v", vs("<v>"))], entry=e) for e in o])
    return r


def c18(run):
    progs = c18_systematic(run)
    run.cov["systematic"] = sum(len(g) if isinstance(g, list) else 1 for g in progs)
    g = Gen(run.rng, jsprofile())
    progs += [g.single() for _ in range(run.pick(700, 12000))]
    progs += [g.family((1, 4), (0, 0)) for _ in range(run.pick(150, 3000))]
    progs += larger(run, "js")
    tkrun.check(run, progs, printer=JsPrinter, driver="tkjs")


CHECKS = dict(C18=c18, C19=c19, C01=c01, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C15=c15, C16=c16)
