"""C02: static documents enumerated by spec/HtmlDoc.tla."""
import itertools
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

import htmlnames
from props_scan import DEC, ENC

ASSUME = [
    "a repeated attribute, a second document type and one after the root element are not part of the documents",
    "malformed markup that HTML parsers repair (stray <, unterminated tags), and <plaintext> is not part of the documents",
]


def start(n, *a):
    return dict(k="start", n=n, a=[x if isinstance(x, dict) else at(*x) for x in a])


def at(n, v=None):
    return dict(n=n, v=v or "", b=v is None)


def selfc(n, *a):
    return dict(start(n, *a), k="self")


def end(n):
    return dict(k="end", n=n)


def text(s):
    return dict(k="text", s=s)


def rawel(n, s, *a):
    return dict(start(n, *a), k="raw", s=s)


def comment(s):
    return dict(k="comment", s=s)


def hidden(s):
    return dict(k="hidden", s=s)


def doctype(s="html"):
    return dict(k="doctype", s=s)


FAMILIES = dict(
    nesting=[start("p"), start("q"), end("p"), end("q"), start("br"), end("br"), text("x"), selfc("p")],
    kinds=[start("p"), end("p"), text("<&>\"'"), text(" \n"), comment(" c <b>$x "), hidden("! h "), rawel("script", "a<b&&\"c\" </b>"),
           start("title"), end("title"), selfc("i"), selfc("hr"), doctype()],
    prolog=[doctype(), text("\n "), text("x"), comment("c"), hidden("!"), start("html"), end("html"), selfc("p"), start("br"),
            rawel("style", "a>b{}")],
    content=[start("textarea"), end("textarea"), start("title"), end("title"), text("a &lt; é"), rawel("script", ""), start("b", ("title", "&amp;\"'<>")),
             end("b"), start("img", ("alt", ""), ("x", None)), comment("")],
    attributes=[start("p", ("a", "1")), end("p"), selfc("p", ("a", "'"), ("b", "\"")), start("input", ("checked", None), ("value", "&lt;<")),
                start("xmp", ("xmlns:py", "http://tonnikala"), ("z", "")), end("xmp"), text("t")],
)
DEPTH = dict(nesting=(6, 8), kinds=(5, 6), prolog=(5, 6), content=(5, 6), attributes=(5, 7))


def tlc(run, name, given, alphabet, bound):
    enc = lambda x: json.loads(json.dumps(x, ensure_ascii=False).translate(ENC))
    p = dict(alphabet=enc(alphabet) or [dict(k="text", s="")], given=enc(given), bound=bound)
    t0 = time.time()
    r = run.tlc("HtmlDoc", env={"HD_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g",
                timeout=run.pick(200, 700))
    res = []
    for line in r["text"].split("\n"):
        if line.startswith('"HD '):
            res.append(json.loads(json.loads(line)[3:].translate(DEC)))
    if os.environ.get("TK_TIME"):
        print(name, len(res), r["distinct"], round(time.time() - t0, 1))
    return res, r


NAMES = htmlnames.ELEMENTS[::3] + ["p", "div", "b", "br", "hr", "img", "input", "title", "textarea", "option", "a:b", "x-y", "td", "h1", "meta", "wbr", "col", "link",
         "area", "base", "embed", "keygen", "param", "source", "track", "pre", "svg", "custom-el", "iframe", "noscript", "xmp"]
ATTRS = list(dict.fromkeys(htmlnames.ATTRIBUTES[::5] + ["id", "class", "data-x", "title", "value", "href", "x:y", "checked", "@click", ":k", "on.x"]))
VALUES = ["€", "”“", "\ufffd™", "\xa0Ÿ", "", "x", "<", "&amp;", "a b", "\"q\"", "'q'", "\"'", "\n", " ", "é", "&nbsp;", "&", "&copy", "a=b", "/", "x/", ">", "&#60;", "a&b=c", "\t", "😀",
          "http://x/?a=1&b=2#c"]
TEXTS = ["€5", "“q”", "\ufffd", "\xa0", "Ÿ™", "≧̸", "x", "hello world", "<", ">", "&", "&lt;", "&amp;amp;", "\"", "'", "\n", "  ", "é", "😀\n", "a<1", "< b", "a & b", "&#38;", "<!--", "-->", "]]>",
         "<b>", "</p>", "\t\n ", "x\ny", "&nbsp", "©", "→", "&copy;", "a\r\nb", "{}", "%s", "\\n"]
RAWS = ["", "x", "if (a < b && c) {}", "</b>", "<!-- x -->", "<p>", "&lt;", "'\"", "\n", "a</", "é", "<\\/script>", "//]]>"]
COMMENTS = ["", " c ", "<b>", "&amp; & <", "-", "a--b", "[if IE]>x<![endif]", "\n", "x!", "é", "py:if", "> x"[1:], "$x ${y} $$"]
DOCTYPES = ["html", "HTML", "html SYSTEM 'about:legacy-compat'", "html PUBLIC '-//W3C//DTD XHTML 1.0 Strict//EN' 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd'"]


def random_doc(R):
    ev, stk = [], []
    void = {"area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"}

    def attrs():
        ns = R.sample(ATTRS, R.choice([0, 0, 1, 1, 2, 3, 5]))
        return [at(n, None if R.random() < .15 else R.choice(VALUES) + R.choice(["", R.choice(VALUES)])) for n in ns]
    if R.random() < .2:
        ev += [R.choice([comment("top"), hidden("! h"), text("\n")]) for _ in range(R.randint(0, 2))]
    if R.random() < .3:
        ev.append(doctype(R.choice(DOCTYPES[:2])))
        ev.append(text("\n"))
    n = R.choice(NAMES[:3])
    ev.append(start(n, *attrs()))
    stk.append(n)
    for _ in range(R.randint(0, 25)):
        x = R.random()
        if x < .3:
            n = R.choice(NAMES)
            ev.append(start(n, *attrs()))
            if n not in void:
                stk.append(n)
        elif x < .4:
            ev.append(selfc(R.choice(NAMES + ["script", "style"]), *attrs()))
        elif x < .65:
            ev.append(text("".join(R.choice(TEXTS) for _ in range(R.randint(1, 4)))))
        elif x < .7:
            ev.append(comment(R.choice(COMMENTS)))
        elif x < .73:
            ev.append(hidden(R.choice(["!", "! $x", " ! <b>", "!--"])))
        elif x < .78:
            ev.append(rawel(R.choice(["script", "style"]), R.choice(RAWS) + R.choice(["", R.choice(RAWS)]), *attrs()))
        elif len(stk) > 1:
            ev.append(end(stk.pop()))
    if R.random() < .8:
        while stk:
            ev.append(end(stk.pop()))
            if R.random() < .1:
                ev.append(text("\n"))
    if R.random() < .12:
        # most of these are no documents any more
        j = R.randrange(len(ev))
        ev[j:j + 1] = R.choice([[], [end(R.choice(NAMES))], [ev[j], ev[j]], [ev[j], R.choice([start("b"), end("p"), text("x"), doctype(), end("br")])]])
        ds = [e for e in ev if e["k"] == "doctype"]
        if len(ds) > 1:
            ev = [e for e in ev if e["k"] != "doctype"]
    # raw text ends where its end tag is, adjacent text is one text
    return ev


def names():
    """every name of an element and of an attribute"""
    r = []
    for n in htmlnames.ELEMENTS:
        r.append([start("div"), start(n, ("a", "<")), text("x <\n"), start("b"), end("b"), end(n), start(n), end(n), selfc(n, ("a", None)),
                  start(n), start("br"), text(" "), end(n), end("div")])
        r.append([start(n), text("x"), start(n), end(n), end(n)])
        r.append([selfc(n)])
        r.append([start(n), start("b"), end("b"), comment("c"), start("script"), end("script"), text("</"), end(n)])
    for n in htmlnames.VOID:
        r.append([start("div"), start(n, ("a", "<")), text("x"), selfc(n, ("b", None)), start(n), end("div")])
        r.append([start(n)])
        r.append([start("p"), start(n), end(n), end("p")])
    for a in htmlnames.ATTRIBUTES + htmlnames.TRANSLATABLE:
        for n in ("p", "input", "script"):
            r.append([start("div")] + [selfc(n, (a, v)) for v in (None, "", "x<", a, " a  b\n", "true", "0", "javascript:x;")] + [end("div")])
    return r


def c02(run):
    R = run.rng
    jobs = [(n, [[]], a, DEPTH[n][1 if run.thorough else 0]) for n, a in FAMILIES.items()]
    rnd = [random_doc(R) for _ in range(run.pick(6000, 60000))]
    deep = [[start("p")] * k + [text("x")] + [end("p")] * k for k in (1, 10, 60, 150)]
    deep += [[start("div")] + [selfc("br"), text("<"), comment("c")] * k + [end("div")] for k in (10, 200)]
    deep += [[start("p", at("id", x), at("b", "a" + x)), text(x), comment("c" + x.replace("--", "")), rawel("script", x), end("p")] for x in ("x<&\"' " * 800, "\n\u20ac" * 2000, "\U0001f600" * 1000)]
    deep += [[start("p", *[at("a%d" % j, ["", "<", "&amp;", None][j % 4]) for j in range(k)]), end("p")] for k in (40, 300)]
    deep += [[start("div")] + [x for j in range(k) for x in (comment("%d" % j), hidden("!%d" % j), selfc("img", at("id", "%d<" % j)))] + [end("div")] for k in (130, 260)]
    rnd += deep + names()
    for j in range(0, len(rnd), 1500):
        jobs.append(("random", rnd[j:j + 1500], [], 0))
    fams, states, trans = {}, 0, 0
    with ThreadPoolExecutor(8) as ex:
        for (n, *_), (ds, r) in zip(jobs, ex.map(lambda j: tlc(run, *j), jobs)):
            fams[n] = fams.get(n, []) + ds
            states += r["distinct"]
            trans += r["generated"]
    tasks, total = [], 0
    share = run.pick(9000, 10 ** 9)
    for n, ds in fams.items():
        if n == "random":
            use = ds
        else:
            ok = [d for d in ds if not d["e"]]
            er = [d for d in ds if d["e"]]
            R.shuffle(ok)
            R.shuffle(er)
            use = ok[:share] + er[:share]
        total += len(use)
        for j in range(0, len(use), 400):
            tasks.append(dict(seed=R.randrange(10 ** 9), variants=run.pick(2, 4), docs=use[j:j + 400]))
    R.shuffle(tasks)
    res = run.worker("tkdoc", tasks, timeout=850)
    run.cov.update(documents=total, states=states, transitions=trans, rendered=sum(r["ok"] for r in res),
                   rejected=sum(r["error"] for r in res), traces_validated_against_impl=sum(r["ok"] + r["error"] for r in res))
    run.cov["families"] = {n: len(d) for n, d in fams.items()}
    for t in tasks[:3]:
        run.sample(t["docs"][0])
    for r in res:
        for b in r["bad"]:
            run.violation("document", "%r: expected %s, observed %s" % (b["src"], b["expected"], b["observed"]), b)


CHECKS = dict(C02=c02)
