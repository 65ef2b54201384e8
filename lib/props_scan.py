"""C03: texts enumerated by spec/Scanner.tla."""
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

ASSUME = [
    "what an expression is worth, and whether it is one, is left to Python; the specification decides where it is",
    "f-strings in triple quotes, and braces after a backslash in an f-string, are left open",
]

SUFFIX = "z $a.-$$"

# TLC keeps strings as bytes on disk: characters it reads stand for others
ENC = str.maketrans({"é": "~", "😀": "`", "€": "^"})
DEC = str.maketrans({"~": "é", "`": "😀", "^": "€"})

# (beginnings, alphabet, characters after the beginning: quick, thorough)
FAMILIES = dict(
    structure=([""], ["$", "{", "}", "(", ")", "[", "]", ".", "a", "'", " "], 4, 5),
    dollars=([""], ["$", "{", "}", "a", "_", "1", "é", "Z", "-", "."], 4, 5),
    braces=(["${"], ["{", "}", "(", ")", "[", "]", "'", "\"", "a", "\n", "#"], 4, 5),
    braces2=(["x${"], ["{", "}", "a", "$", ",", ":", " ", "1", "(", ")", "."], 4, 5),
    trailers=(["$a", "-$_a"], ["(", ")", "[", "]", ".", "a", "1", "é", "$", " ", "'", "\n"], 4, 4),
    arguments=(["$a(", "$a["], ["(", ")", "[", "]", "{", "}", "a", ",", "\"", "\n", "1"], 4, 4),
    quotes=(["${'", "${\"", "$a('", "$a["], ["'", "\"", "\\", "\n", "a", "}", ")", "{"], 4, 5),
    triple=(["${'''", "$a(\"\"\""], ["'", "\"", "\\", "\n", "}", ")", "é"], 5, 6),
    comments=(["${a#", "${(a#", "$a(#"], ["\n", "}", ")", "'", "a", "#", "{", "\\"], 4, 5),
    joins=(["${a\\", "$a(\\"], ["\n", "}", ")", "\\", "a", " "], 4, 6),
    fstrings=(["${f'", "$a[f\""], ["{", "}", "'", "\"", "a", ":", "[", "]"], 5, 6),
    fields=(["${f'{a", "${rf\"{a:"], ["{", "}", "'", "\"", "a", ":", ">", "("], 4, 6),
    second=(["$a ${", "${a}$", "$a.a$", "$a(1)", "$$${"], ["{", "}", "(", ")", "a", ".", "$", "'"], 4, 5),
    foreign=(["é€😀${'é'", "😀$a('é"], ["'", "😀", "}", ")", "é", "$", "a", "("], 4, 5),
)


def enumerate_texts(run, name, begins, alphabet, extra, suffix=SUFFIX):
    enc = lambda ws: [w.translate(ENC) for w in ws]
    t0 = time.time()
    p = dict(alphabet=enc(alphabet), prefixes=enc(begins), bound=extra,
             suffix=suffix, foreign=["~"])
    r = run.tlc("Scanner", env={"SC_PARAMS": "params.json"}, files={"params.json": json.dumps(p)}, workers=1, mem="3g", timeout=run.pick(150, 600))
    res = {}
    for line in r["text"].split("\n"):
        if line.startswith('"SC '):
            t = json.loads(json.loads(line)[3:].translate(DEC))
            res[t["w"]] = t
    if os.environ.get("TK_TIME"):
        print(name, r["distinct"], round(time.time() - t0, 1))
    return list(res.values()), r


def expr(R, d=3):
    """an expression, quite likely a correct one"""
    if d <= 0:
        return R.choice(["a", "b", "_x1", "1", "'}'", "\")\"", "'''\n}'''", "c.d", "'\\''", "f'{a}'", "f\"{a['k']}{{\"",
                         "()", "[]", "{}", "''", "a.b_1", "'$x'", "\"${\"", "'#'", "1.5", "é"])
    k = R.randrange(11)
    e = lambda: expr(R, d - 1)
    sp = lambda: R.choice(["", "", " ", "\n", "  # })'\n"])
    return [lambda: e(), lambda: "(" + sp() + e() + sp() + ")", lambda: "[%s,%s%s]" % (e(), sp(), e()),
            lambda: "{%s: %s}" % (R.choice(["'k'", "1", "'}'"]), e()), lambda: "%s(%s)" % (R.choice("abc"), e()),
            lambda: "%s(%s, k=%s)" % (R.choice("abc"), e(), e()), lambda: "%s[%s%s]" % (R.choice("abc"), sp(), e()),
            lambda: "%s.%s(%s)" % (R.choice("abc"), R.choice(["d", "_", "e1"]), e()),
            lambda: "%s + %s" % (R.choice("abc"), e()), lambda: "f'%s{%s!r:>{%s}}}}'" % (R.choice(["", "{{", "x\\n"]), R.choice(["a", "b.c"]), "b"),
            lambda: "(lambda q: %s)(%s)" % (e(), e())][k]()


def trailer(R):
    s = R.choice("abc_")
    for _ in range(R.randint(0, 4)):
        s += R.choice([".d", "._e1", "(%s)" % expr(R, 1), "[%s]" % expr(R, 1), "(\n%s)" % expr(R, 0), "['%s']" % R.choice("}])$.")])
    return s


def random_text(R):
    s = ""
    for _ in range(R.randint(1, 7)):
        s += R.choice([lambda: R.choice(["text ", "$5.00", "$$", " $ ", "}", "{", ".", "..x", "[0]", "(y)", "'", "\"", "é", "😀\n", "$é",
                                         "#", "\\", "$$x", "$-", "&", "a<b", "${'}'}", "$", "{{a}}", "\t"]),
                       lambda: "${%s%s%s}" % (R.choice(["", " ", "\n "]), expr(R, R.randint(0, 3)), R.choice(["", " ", "\n"])),
                       lambda: "$" + trailer(R)])()
    if R.random() < .3:
        j = R.randrange(len(s))
        s = s[:j] + R.choice([s[j + 1:], R.choice("${}()[]'\".a \n\\#") + s[j:], s[j:j + 1] + s[j:], ""])
    return s


def crlf(t):
    r = lambda s: s.replace("\n", "\r\n")
    return dict(t, w=r(t["w"]), s=[dict(g, s=r(g["s"])) if "s" in g else g for g in t["s"]])


def c03(run):
    R = run.rng
    jobs = [(n, b, a, t if run.thorough else q) for n, (b, a, q, t) in FAMILIES.items()]
    rnd = list({random_text(R) for _ in range(run.pick(6000, 60000))})
    rnd = [w for w in rnd if w]
    for j in range(0, len(rnd), 3000):
        jobs.append(("random%d" % j, rnd[j:j + 3000], ["a"], 0, ""))
    states = trans = 0
    seen, fams = {}, {}
    with ThreadPoolExecutor(8) as ex:
        for (n, *_), (ts, r) in zip(jobs, ex.map(lambda j: enumerate_texts(run, *j), jobs)):
            states += r["distinct"]
            trans += r["generated"]
            new = [t for t in ts if t["w"] not in seen]
            seen.update((t["w"], 1) for t in new)
            fams["random" if n.startswith("random") else n] = fams.get(n, []) + new
    tasks, total = [], 0
    share = run.pick(6000, 10 ** 9)
    for n, ts in fams.items():
        # most of the enumerated ones are errors
        ok = [t for t in ts if not t["e"]]
        er = [t for t in ts if t["e"]]
        R.shuffle(ok)
        R.shuffle(er)
        if n == "random":
            use = ts
        else:
            use = ok[:share] + er[:share // 4]
        R.shuffle(use)
        total += len(use)
        for j in range(0, len(use), 300):
            part = use[j:j + 300]
            tasks.append(dict(pos="text", texts=part))
            rest = part if run.thorough else R.sample(part, len(part) // 2)
            tasks.append(dict(pos="attr", texts=rest))
            tasks.append(dict(pos="script", texts=[t for t in (part if run.thorough else part[::3]) if "</" not in t["w"]]))
            # line ends of another kind
            ends = [t for t in part if "\n" in t["w"]]
            for pos in ("text", "attr", "script"):
                tasks.append(dict(pos=pos, texts=[crlf(t) for t in ends if pos != "script" or "</" not in t["w"]]))
            if R.random() < .2:
                tasks.append(dict(pos="text", texts=part, syntax="chameleon"))
                tasks.append(dict(pos="attr", texts=part, syntax="chameleon"))
    R.shuffle(tasks)
    res = run.worker("tkscan", tasks, timeout=850)
    run.cov.update(texts=total, states=states, transitions=trans,
                   traces_validated_against_impl=sum(r["ok"] + r["syntax"] + r["raise"] for r in res),
                   rendered=sum(r["ok"] for r in res), rejected=sum(r["syntax"] for r in res),
                   failing=sum(r["raise"] for r in res), undefined=sum(r["undefined"] for r in res))
    run.cov["families"] = {n: len(t) for n, t in fams.items()}
    for t in tasks[:3]:
        run.sample(dict(pos=t["pos"], text=t["texts"][0]) if t["texts"] else t)
    for r in res:
        for b in r["bad"]:
            run.violation("text:%s" % b["pos"], "%r in %s: expected %s, observed %s" % (
                b["w"], b["pos"], b["expected"], b["observed"]), b)


CHECKS = dict(C03=c03)
