"""C14: malformed templates written by spec/Faults.tla."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

ASSUME = [
    "start tags and comments that the file ends in, value-less control attributes, and repeated attributes are not part of the templates",
    "of several offending constructs any one may be reported",
]

DOC, ALL = ["pro", "epi"], ["pro", "epi", "flow", "ext"]


def piece(t, src, ok=(), bad=(), n="", inner="flow", el=False):
    return dict(t=t, src=src, nl=src.count("\n"), ok=list(ok), bad=[dict(c=c, lo=lo, hi=min(hi, src.count("\n"))) for c, lo, hi in bad], n=n, inner=inner, el=el)


def leaf(src, ok=("flow",), **kw):
    return piece("leaf", src, ok, **kw)


def text(src):
    """text other than white space"""
    a = len(src) - len(src.lstrip())
    b = len(src.rstrip())
    lo, hi = src[:a].count("\n"), src[:b].count("\n")
    return piece("leaf", src, ["flow"], [(c, lo, hi) for c in ("pro", "epi", "ext")])


def elem(src, ok=("pro", "flow")):
    """an element; where there must be none, it is an offence"""
    hi = src[:src.index(">")].count("\n")
    return piece("leaf", src, ok, [("epi", 0, 0)] + ([] if "ext" in ok else [("ext", 0, hi)]), el=True)


def fault(src, lo, hi=None, c=("flow",), el=False):
    hi = lo if hi is None else hi
    return piece("leaf", src, [], [(x, lo, hi) for x in c], el=el)


def open_(src, n, ok=("pro", "flow"), inner="flow", bad=None):
    hi = src.count("\n")
    if bad is None:
        bad = [("epi", 0, 0)] + ([] if "ext" in ok else [("ext", 0, hi)])
    return piece("open", src, ok, bad, n=n, inner=inner)


def badopen(src, n, lo, hi=None):
    """a control element with a fault in its start tag"""
    hi = lo if hi is None else hi
    return piece("open", src, [], [(x, lo, hi) for x in ("pro", "flow")], n=n)


def attr(src, n):
    return piece("attr", src, ["tag"], n=n)


def badattr(src, n, lo, hi=None):
    return piece("attr", src, [], [("tag", lo, lo if hi is None else hi)], n=n)


NL = leaf("\n", ALL)
CLOSE = piece("close", ">", ALL)

# every piece that is valid somewhere
VALID = [
    NL,
    leaf(" \n  \n ", ALL),
    text(" some text "), text("\n one\ntwo\n"), text(" $x ${(x +\n x)} "), text(" ${[1,\n2,\n{'}': 3}][0]} "), text(" $x[\n0] "), text(" &lt;\n&eacute; $$ "),
    text(" ${'''a\nb'''} "), text(" ${ (# }\n x\n) } "), text(" $x.y.z(1,\n'}')\n "),
    leaf("<!-- c\n c -->", ALL), leaf("<!--! $x ${\n -->", ALL), leaf("<!-- ${a b} -->", ALL),
    elem("<i/>"), elem("<br\n/>"), elem("<i\n>$x</i\n>"), elem("<i a='1'\n b=\"2\n3\">\n</i>"),
    elem("<script>\nif (a < $x\n && b) { $(c); }\n</script>"), elem("<style\n>p > q {}\n</style>"),
    leaf("<?python\ny = (1,\n 2)\n?>", ["flow"]), leaf("<?python def g(a):\n  return a ?>", ["flow"]),
    leaf("<py:import href='i' alias='i'/>", ["flow", "ext"]), leaf("<py:import\nhref='i'\nalias='j'\n/>", ["flow", "ext"]),
    elem("<i py:content='x' a='$x\n'/>"), elem("<py:replace\nvalue='x'/>"), elem("<i py:replace='x\n'>z\n</i>"),
    elem("<p py:strip='' py:attrs='{\"a\":\n1}'>z</p>"),
    open_("<b>", "b"), open_("<div\n class='a\nb'>", "div"), open_("<py:if test='x'>", "py:if"), open_("<py:if\ntest='(x ==\n1)'>", "py:if"),
    open_("<py:unless test='not x'>", "py:unless"), open_("<py:for\neach='v in x'>", "py:for"),
    open_("<py:with vars='a = x;\nb = a'>", "py:with"), open_("<py:vars names='a = x'>", "py:vars"),
    open_("<py:block name='k'\n>", "py:block", ["pro", "flow", "ext"], bad=[("epi", 0, 0)]),
    open_("<py:def function='f(a,\nb=x)'>", "py:def", ["pro", "flow", "ext"], bad=[("epi", 0, 0)]),
    open_("<py:def\nfunction='g'>", "py:def", ["pro", "flow", "ext"], bad=[("epi", 0, 0)]),
    open_("<py:if test='0'>", "py:if"), open_("<py:unless test='True'>", "py:unless"),
    open_("<py:extends href='base'>", "py:extends", ["pro"], inner="ext", bad=[("epi", 0, 0)]),
    open_("<py:extends\n\nhref='base'\n>", "py:extends", ["pro"], inner="ext", bad=[("epi", 0, 0)]),
    piece("tag", "<p", n="p"), piece("tag", "<td\n", n="td"),
    piece("tagend", ">", n=">"), piece("tagend", "\n>", n=">"), piece("tagend", "/>", n="/"),
    CLOSE, piece("close", "\n>", ALL),
]
ATTRS = [
    attr(" id='a'", "id"), attr("\n class=\"a\nb\"", "class"), attr(" x=y ", "x"), attr("\nchecked", "checked"),
    attr(" title='$x\n${x}'", "title"), attr(" alt=\"${x[\n0]}\"\n", "alt"), attr(" py:if='x'", "py:if"), attr("\npy:unless='x\n'", "py:unless"),
    attr("\npy:for='v in x'", "py:for"), attr(" py:def='h(a)'", "py:def"), attr("\npy:block='q'", "py:block"), attr(" py:with='w=1;\nu=2'\n", "py:with"),
    attr(" py:strip=''", "py:strip"), attr("\n py:attrs='None'", "py:attrs"), attr("\nxmlns:py='http://tonnikala'", "xmlns:py"), attr(" a='&amp;\n&nosuch; &lt;'", "a"),
]

# expressions that are none: (text between the braces, first line, last line)
EXPR = ["a b", "a +", "1 = 2", "", " ", "a :", "lambda", "f(b=1, b=2)", "f(**a, *b)", "f(a=1, 2)", "await x", "*a", "a := 1", "(None := 1)", "[1, 2",
        "'abc", "'''a", "0777", "1__2", "[q for]", "import os", "a;b", "a\nb", "f(\na b\n)", "\n a b", "a if b", "a[", "not", "x y\n", "..a", "a..b", "[a for 1 in b]",
        "(a, None) = 1", "f\"{a b}\"", "'\\N{nosuch}'", "1if", "a!b", "a?b", "return 1", "pass", "[\n1\n2\n]", "{1: 2, 3}", "(yield from x) = 1",
        "[await q for q in x]", "'\\x1'", "lambda a, a: 1", "f(a b)", "(a\n,b\nc d)", "[*a for a in b]", "\"", "(", "[", "{1:", "f()=1", "[None for None in x]",
        "x.1", "\u0024x", "`x`", "<>", "a <> b"]
NOTBRACE = {"'abc", "'''a", "\"", "(", "[", "{1:", "a[", "[1, 2", " ", ""}


def rng(s):
    return 0, s.count("\n")


def faults():
    res = []
    # in text
    for e in EXPR:
        if any(c in e for c in "<&"):
            continue
        n = e.count("\n")
        for pre, post in ((" ", "\n"), ("\n $x\n", " "), (" ${x[\n0]} a\nb ", "")):
            k = pre.count("\n")
            res.append(fault("%s${%s}%s<i/>" % (pre, e, post), k, k + n + post.count("\n")))
    for s in ("${a", "${a\n b", "${", "${'}", "${{1: 2}", "${(}", "$x[", "$x(\n", "$x[(])", "$x(a b)", "$x(]", "$x['", "$x[0](a=1, a=2)", "$x[await y]", "$x[:=]", "$x[\n1\n2]"):
        for pre in (" ", "\n $x\n", " ${(x +\nx)}\n"):
            k = pre.count("\n")
            res.append(fault(pre + s + "<i></i>", k, k + s.count("\n")))
    for s in ("a\n&nosuch;", "&#1114112;", "\n\n&#x110000;", " &foobar;\n&lt;", "&#99999999999;", "&NoSuch;\n"):
        k = s[:s.index("&")].count("\n")
        res.append(fault(s, k, c=("flow",)))
    # in script
    for s, k in (("var a;\nb = ${c d};\nc", 1), ("if (a < b)\n  {\n$x[}\n}", 2), ("$x[(])", 0)):
        res.append(fault("<script>%s</script>" % s, k, k + (s[:].count("\n") if "$x[" in s else 0)))
        res.append(fault("<style\n>%s</style>" % s, 1 + k, 1 + k + (s.count("\n") if "$x[" in s else 0)))
    # processing instructions
    res += [fault("<?python\na b\n?>", 1), fault("<?python\n\nif x:\ny = 1\n?>", 2, 3), fault("<?python a = (1,\n 2 ?>", 0, 1), fault("<?x?>", 0), fault("<?python\nreturn = 1?>", 1),
            fault("<?python\ny = 1\nfor x in y\n?>", 2, 3), fault("<?python x = 'a ?>", 0), fault("<?python\nx = 1\n\nx = '''\n\n?>", 3, 5), fault("<?python\nbreak\n?>", 1),
            fault("<?python\nx = 1\nawait x\n?>", 2), fault("<?python\ndef f(a, a):\n  pass\n?>", 1)]
    # declarations
    res += [fault("<![CDATA[ x ]]>", 0, c=ALL), fault("<!DOCTYPE html>", 0, c=("flow", "ext"))]
    # control elements
    for n, a in (("if", "test"), ("unless", "test"), ("for", "each"), ("with", "vars"), ("vars", "names"), ("def", "function"), ("block", "name"), ("extends", "href"),
                 ("import", "href"), ("replace", "value")):
        n = "py:" + n
        res.append(badopen("<%s>" % n, n, 0))
        res.append(badopen("<%s\n x='1'\n>" % n, n, 0, 2))
        res.append(fault("<%s\n/>" % n, 0, 1, c=("pro", "flow"), el=True))
    res += [badopen("<py:import\nhref='i'>", "py:import", 0, 1), badopen("<py:import alias='i'>", "py:import", 0)]
    for s in ("<py:nosuch>", "<py:nosuch\nname='x'>", "<py:>", "<py:strip value='x'>", "<py:content>"):
        res.append(badopen(s, s[1:-1].split()[0], 0, s.count("\n")))
    for n, a in (("py:if", "test"), ("py:unless", "test")):
        for e in ("a b", "", "a\nb", "a = 1", "await x", "f(", "'"):
            res.append(badopen("<%s\n%s=\"%s\">" % (n, a, e), n, 1, 1 + e.count("\n")))
    for e in ("x", "in x", "v in", "v in a b", "v+1 in x", "None in x", "", "v, in in", "1 in x", "f() in x", "v in *x y", "a.b() in x", "True in x", "v in await x",
              "v: in x", "v in x if v", "v, v2, in", "*a in x"):
        res.append(badopen("<py:for each=\"%s\">" % e, "py:for", 0, e.count("\n")))
        res.append(badattr("\npy:for=\"%s\"" % e, "py:for", 1, 1 + e.count("\n")))
    for e in ("a b", "a+1=2", "f()=1", "None = 1", "1 = x", "a = ", "a = 1;\nb c", "a = 1; b = ;", "True = x;\na = 1", "a = await x", "a =\nb c", "a = 1;\n\n= 3", "a, None = x", "(a"):
        res.append(badopen("<py:with\nvars=\"%s\">" % e, "py:with", 1, 1 + e.count("\n")))
        res.append(badattr(" py:with=\"%s\"" % e, "py:with", 0, e.count("\n")))
    for e in ("1f()", "f(", "class()", "f(a b)", "f(a, a)", "f(a=1, b)", "f(1)", "", "f()x", "a.b()", "None()", "f(None)", "f g()", "f(a=)", "f(**a, b)", "f\n(a b)", "f(a,\nb c)", "f() + 1", "f(a=await x)",
              "f(*, **a)", "f(a=1\n,\nb)"):
        res.append(badopen("<py:def\nfunction=\"%s\">" % e, "py:def", 1, 1 + e.count("\n")))
        res.append(badattr("\npy:def=\"%s\"" % e, "py:def", 1, 1 + e.count("\n")))
    for e in ("1x", "", "a b", "a.b", "class", "None", "f()", "a\nb", "a-b", "x=1"):
        res.append(badopen("<py:block\nname=\"%s\">" % e, "py:block", 1, 1 + e.count("\n")))
        res.append(badattr("\npy:block=\"%s\"" % e, "py:block", 1, 1 + e.count("\n")))
    # attributes
    for n in ("if", "unless"):
        for e in ("a b", "", "a\nb", "a = 1", "await x", "f(", "'", "x)", "x }", "\nx y", "x\n", ):
            if e == "x\n":
                continue
            res.append(badattr(" py:%s=\"%s\"" % (n, e), "py:" + n, 0, e.count("\n")))
    for n in ("strip", "content", "attrs", "replace"):
        for e in ("a b", "a\nb", "a = 1", "f(", "await x", "{", "*a"):
            res.append(badattr("\n py:%s=\"%s\"" % (n, e), "py:" + n, 1, 1 + e.count("\n")))
    for e in EXPR:
        if '"' in e:
            continue
        for pre, post in (("", ""), ("a\n", "\nb"), ("$x\n${x[\n0]} ", " ")):
            k = pre.count("\n")
            res.append(badattr(" title=\"%s${%s}%s\"" % (pre, e, post), "title", k, k + e.count("\n") + post.count("\n") * ("'" in e or "[" in e or "(" in e or "{" in e)))
    for s in ("${a", "${", "$x[", "$x[(])", "$x(a b)", "$x(]", "a\n$x(\n"):
        res.append(badattr("\nhref='%s'" % s, "href", 1 + s[:s.index("$")].count("\n"), 1 + s.count("\n")))
    res += [badattr(" py:nosuch='x'", "py:nosuch", 0), badattr("\npy:test='x\ny'", "py:test", 1, 2), badattr("\n py:name=x ", "py:name", 1), badattr(" py:href=''", "py:href", 0)]
    # end tags
    res += [piece("noclose", "<u>", ["pro", "flow"], [("epi", 0, 0), ("ext", 0, 0)], n="u"),
            piece("noclose", "<em\nclass='$x'>", ["pro", "flow"], [("epi", 0, 0), ("ext", 0, 1)], n="em"),
            piece("wrong", "</zz>"), piece("wrong", "</br>"), piece("wrong", "</py:for\n>")]
    return res


FAULTS = faults()


def tlc(run, name, given, alphabet, bound, maxfaults):
    p = dict(alphabet=alphabet or [NL], given=given, bound=bound, maxfaults=maxfaults)
    r = run.tlc("Faults", env={"FA_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g", timeout=run.pick(250, 800))
    res = []
    for line in r["text"].split("\n"):
        if line.startswith('"FA '):
            d = json.loads(json.loads(line)[3:])
            d["g"] = name
            res.append(d)
    return res, r


def walk(R, nfaults):
    """pieces of a long template; those without a place are left out by the specification"""
    ps = []
    kinds = R.choice([VALID, VALID, [p for p in VALID if p["t"] in ("open", "close", "leaf")]])
    ext = R.random() < .25
    if ext:
        ps.append(R.choice([p for p in VALID if p["inner"] == "ext"]))
    else:
        ps.append(R.choice([NL, R.choice([p for p in VALID if p["t"] == "open" and p["inner"] == "flow"])]))
    for _ in range(R.randint(2, 30)):
        if R.random() < .12:
            ps.append(R.choice([p for p in VALID if p["t"] == "tag"]))
            ps += [R.choice(ATTRS) for _ in range(R.randint(0, 5))]
            ps.append(R.choice([p for p in VALID if p["t"] == "tagend"]))
        p = R.choice(kinds)
        if p["t"] == "tag":
            continue
        ps.append(p)
    if R.random() < .5:
        ps += [CLOSE] * R.randint(1, 6)
    for _ in range(nfaults):
        f = R.choice(FAULTS)
        if f["t"] == "attr":
            at = [j for j, p in enumerate(ps) if p["t"] == "tag"]
            if at:
                ps.insert(R.choice(at) + 1 + R.randint(0, 2), f)
        else:
            ps.insert(R.randint(0, len(ps)), f)
    return ps


def c14(run):
    R = run.rng
    jobs = []
    # every fault within every short context
    few = [p for p in VALID if p["src"] in ("\n", "\n one\ntwo\n", " ${(x +\n x)} ", "<b>", "<py:if test='0'>", "<py:extends\n\nhref='base'\n>", "<py:block name='k'\n>", "<td\n", "<p", "/>", "\n>")
           or p is CLOSE or p["src"] == "<div\n class='a\nb'>"]
    few += [a for a in ATTRS if a["n"] in ("class", "py:for", "py:block")]
    parts = 10
    fs = list(FAULTS)
    R.shuffle(fs)
    depth = run.pick(4, 5)
    for j in range(parts):
        part = fs[j::parts]
        # contexts, then a fault
        given = [[f] for f in part]
        for p in few:
            for f in part:
                given.append([p, f])
        for p in few:
            for q in few:
                for f in (part if run.thorough else R.sample(part, min(len(part), 25))):
                    given.append([p, q, f] + ([piece("tagend", "\n>", n=">")] if f["t"] == "attr" else []))
        jobs.append(("contexts", given, [CLOSE, piece("tagend", ">", n=">")], 1, 1))
    # every short valid sequence, and the faults that depend on the context
    ctx = [f for f in FAULTS if f["t"] in ("noclose", "wrong")] + [f for f in FAULTS if f["src"] in ("<![CDATA[ x ]]>", "<!DOCTYPE html>")]
    jobs.append(("structure", [[]], few + ctx, run.pick(3, 4), 1))
    # line breaks written as character references
    jobs.append(("charref-newline", [[open_("<b>", "b"), f, CLOSE] for f in (fault("a&#10;&NewLine;${x y}", 0), fault("<p a='\n&#10;&#xA;${x y}'></p>", 1))], [], 0, 1))
    jobs.append(("attributes", [[p] for p in VALID if p["t"] == "tag"], ATTRS + [p for p in VALID if p["t"] == "tagend"], 3, 1))
    for j in range(run.pick(6, 30)):
        jobs.append(("random", [walk(R, R.choice([0, 1, 1, 1, 2])) for _ in range(run.pick(700, 1500))], [], 0, 9))
    states = trans = 0
    docs, fams = [], {}
    with ThreadPoolExecutor(8) as ex:
        for (n, *_), (ds, r) in zip(jobs, ex.map(lambda j: tlc(run, *j), jobs)):
            docs += ds
            states += r["distinct"]
            trans += r["generated"]
    seen, uniq = set(), []
    for d in docs:
        if d["s"] not in seen:
            seen.add(d["s"])
            uniq.append(d)
    docs = uniq
    R.shuffle(docs)
    for d in docs:
        fams[d["g"]] = fams.get(d["g"], 0) + 1
    tasks = [dict(seed=R.randrange(10 ** 9), docs=docs[j:j + 500]) for j in range(0, len(docs), 500)]
    res = run.worker("tkfaults", tasks, timeout=850)
    run.cov.update(templates=len(docs), states=states, transitions=trans, pieces=len(VALID) + len(ATTRS) + len(FAULTS),
                   accepted=sum(r["ok"] for r in res), rejected=sum(r["error"] for r in res),
                   traces_validated_against_impl=sum(r["ok"] + r["error"] for r in res), through_other_templates=sum(r["via"] for r in res))
    run.cov["families"] = fams
    for d in docs[:3]:
        run.sample(d)
    for r in res:
        for b in sorted(r["bad"], key=lambda b: len(b["src"])):
            run.violation("charref-newline" if b["g"] == "charref-newline" else "fault", "%s: %r" % (b["what"], b["src"]), b)


CHECKS = dict(C14=c14)
