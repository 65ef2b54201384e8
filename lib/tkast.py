"""Abstract syntax of template programs for spec/TkMachine.tla, and printers
turning it into the concrete syntaxes (which note the line of every construct)."""

import builtins
import re

import htmlnames

# -- values ---------------------------------------------------------------


def vs(s):
    return {"t": "str", "s": s}


def vmk(s):
    return {"t": "mk", "s": s}


def vi(n):
    return {"t": "int", "n": n}


def vb(b):
    return {"t": "bool", "b": b}


VN = {"t": "none"}


def vhtml(s, r):
    return {"t": "html", "s": s, "r": r}


def vobj(s):
    return {"t": "obj", "s": s}


def vl(*a):
    return {"t": "list", "v": list(a)}


def vd(*kv):
    return {"t": "dict", "v": [{"k": k, "v": v} for k, v in kv]}


def as_(kind, v):
    """the same value to the specification, another Python type"""
    return dict(v, **{"as": kind})


def vbad(i):
    return {"t": "bad", "id": i}


def vhost(h):
    return {"t": "host", "h": h}


# -- expressions ------------------------------------------------------------

def C(v):
    return {"k": "c", "v": v}


def S(s):
    return C(vs(s))


def N(n):
    return C(vi(n))


def V(n):
    return {"k": "v", "n": n}


def call(f, *a, **kw):
    if isinstance(f, str):
        f = V(f)
    return {"k": "call", "f": f, "a": list(a), "kw": [{"n": n, "e": e} for n, e in kw.items()], "sa": 0, "sk": 0}


def spread(c, sa=0, sk=0):
    """a call with further arguments from a list or a dictionary"""
    return dict(c, sa=sa, sk=sk)


def attr(e, n):
    return {"k": "attr", "e": e, "n": n}


def lit(e):
    return {"k": "lit", "e": e}


def op(k, a, b):
    return {"k": k, "a": a, "b": b}


def cat(a, b):
    return op("cat", a, b)


def not_(e):
    return {"k": "not", "e": e}


def cond(c, a, b):
    return {"k": "cond", "c": c, "a": a, "b": b}


def lst(*es):
    return {"k": "list", "es": list(es)}


def dct(*ps):
    return {"k": "dict", "ps": [{"k": k, "e": e} for k, e in ps]}


def idx(e, i):
    return {"k": "idx", "e": e, "i": i}


def comp(x, it, b):
    return {"k": "comp", "x": x, "it": it, "b": b}


def lam(ps, b):
    return {"k": "lam", "ps": list(ps), "b": b}


def p(i, e=None):
    """a probe: logs its id, returns its argument"""
    return call("p", S(i), e if e is not None else S(""))


# -- nodes ------------------------------------------------------------------

def part(x):
    return {"k": "s", "s": x} if isinstance(x, str) else {"k": "e", "e": x}


def text(*parts, raw=False, notr=False):
    return {"k": "text", "parts": [part(x) for x in parts if x != ""], "raw": raw, "notr": notr or raw}


def raw(s):
    return {"k": "raw", "s": s}


def comment(s):
    return raw("<!--%s-->" % s)


TR_ATTRS = {"title", "alt", "placeholder", "value", "caption"}


def at(name, *parts, bare=False):
    return {"name": name, "bare": bare, "notr": name not in TR_ATTRS,
            "parts": [part(x) for x in parts if x != ""]}


VOID = set("area base br col command embed hr img input keygen link meta param source track wbr".split())


def el(tag, *ch, own=(), ctl=(), attrs=(), strip=0, content=0, replace=0, pyattrs=0):
    ch = [text(x) if isinstance(x, str) else x for x in ch]
    return {"k": "el", "tag": tag, "void": tag in VOID, "own": list(own), "ctl": list(ctl),
            "attrs": list(attrs), "strip": strip, "content": content, "replace": replace,
            "pyattrs": pyattrs, "ch": ch}


def ctl(c, *ch, **kw):
    """a control element"""
    return el("", *ch, own=[c], **kw)


def if_(e):
    return {"k": "if", "e": e}


def unless(e):
    return {"k": "unless", "e": e}


def for_(e, *ts, tup=None):
    return {"k": "for", "e": e, "ts": list(ts), "tup": len(ts) > 1 if tup is None else tup}


def with_(*nes):
    return {"k": "with", "as": [{"n": n, "e": e} for n, e in nes], "line": 0}


def def_(name, *ps):
    """ps: names, (name, default) or (name, default or 0, kind); the kind is
    "po" (only by position), "" (by position or name), "va" (the other
    positional ones), "ko" (only by name) or "vk" (the other named ones)"""
    ps = [(q,) if isinstance(q, str) else tuple(q) for q in ps]
    ps = [q + (0, "")[len(q) - 1:] for q in ps]
    return {"k": "def", "name": name, "line": 0, "ps": [{"n": n, "d": d, "k": k} for n, d, k in ps]}


def block(name):
    return {"k": "block", "name": name, "line": 0}


def imp(href, alias):
    """href: index of the file, from 1"""
    return {"k": "imp", "href": href, "alias": alias, "line": 0}


def code(*nes):
    return {"k": "code", "as": [{"n": n, "e": e} for n, e in nes]}


def unshare(x):
    """a copy in which no node occurs twice: the printer notes lines on them"""
    if isinstance(x, dict):
        return {k: unshare(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)([unshare(v) for v in x])
    return x


def file(name, *root, ext=0):
    return {"name": name, "ext": ext, "root": unshare(list(root))}


HOSTS = [("p", vhost("p")), ("boom", vhost("boom")), ("xo", vhost("op"))]


def prog(files, ctx=(), entry=1, func="__main__", tr="off", tbs=False, rep=True, target="py", hosts=True):
    """ctx: [(name, value)]"""
    if isinstance(files, dict):
        files = [file("main.tk", files)]
    ctx = [(n, v) for n, v in HOSTS if hosts] + list(ctx)
    if tr != "off":
        ctx.append(("gettext", vhost("gettext")))
    return {"files": files, "ctx": [{"n": n, "v": v} for n, v in ctx], "entry": entry,
            "func": func, "tr": tr, "tbs": tbs, "rep": rep, "target": target}


# -- renaming -------------------------------------------------------------------

NAMES = """_f __g _ __ __h__ été Ω1 x_1 f__ _0 output escape context self loader template Markup Buffer
runtime name value root args kw cls e i j k func data tag py tk html body main load render f1_
aVeryLongNameThatGoesOnAndOn_1234567890_abcdefghijklmnopqrstuvwxyz TK _TK_1 __tk position code""".split()
BUILTINS = """id filter dict format input max min sum iter next hash type str repr object Exception print vars dir map 
bool int float tuple sorted all abs round hex getattr setattr isinstance super property bytes KeyError NameError""".split()
JSNAMES = """_f __g _ __ été x_1 f__ _0 output escape context self loader template Markup Buffer runtime name
value root args kw e i j k func data tag tk html main load render attrs obj extend Tonnikala""".split()


def dress(prs, rng):
    """programs that differ in the names of elements and attributes only"""
    share = rng.choice([.3, 1])
    done = {}

    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        if not isinstance(x, dict):
            return x
        r = {f: walk(v) if f in ("root", "ch") else v for f, v in x.items()}
        if x.get("k") == "el":
            if x["tag"] and x["tag"] not in ("script", "style") and rng.random() < share:
                r["tag"] = rng.choice(htmlnames.VOID if x["void"] else htmlnames.ELEMENTS)
            names = [a["name"] for a in x["attrs"]]
            if len(names) < 10:
                r["attrs"] = []
                for a in x["attrs"]:
                    n = a["name"]
                    new = rng.choice(htmlnames.TRANSLATABLE if n in TR_ATTRS else htmlnames.ATTRIBUTES)
                    if new not in names and rng.random() < share:
                        names.append(new)
                        a = dict(a, name=new)
                    r["attrs"].append(a)
        return r
    out = []
    for pr in prs:
        if id(pr["files"]) not in done:
            done[id(pr["files"])] = [walk(f) for f in pr["files"]]
        out.append(dict(pr, files=done[id(pr["files"])]))
    return out


FILENAMES = ["a b.tk", "\u00e9t\u00e9.html", "sub/dir/x.tk", "sub/x.tk", "it's.tk", "q\"q.tk", "a&amp;b.tk", "50%.tk", "x{0}.tk", "UPPER.TK", "noext",
             ".hidden", "-dash", "m.tk.tk", "back\\n.tk", "\u65e5\u672c.tk", "x;y,z", "#h.tk", "%s", "%(a)s.tk", "tonnikala.tk", "<x>.tk", "con.py",
             "a\u00a0b", "p$x.tk", "${x}", "$$.tk", "0", "None", "x" * 200 + ".tk", "template.py", "__init__.py", "a:b", "http:x", "~", "*", "\U0001f600"]


def filenames(pr, rng):
    """names the files of a program have in the file system"""
    names = [f["name"] for f in pr["files"]]
    if rng.random() < .6:
        return {n: n for n in names}
    return dict(zip(names, rng.sample(FILENAMES, len(names)) if len(names) <= len(FILENAMES) else names))


def renaming(prs, rng):
    """programs that differ in the names of functions and variables only"""
    keep = {n for n, v in HOSTS} | {"gettext", "literal", "__main__", "len"} | set(dir(builtins))
    if any(pr.get("norename") for pr in prs):
        return prs
    used = {n for n, v in HOSTS}

    def collect(x):
        if isinstance(x, str):
            used.add(x)
        else:
            for y in x.values() if isinstance(x, dict) else x if isinstance(x, list) else ():
                collect(y)
    collect([[pr["files"], pr["ctx"]] for pr in prs])
    pool = JSNAMES if prs[0]["target"] == "js" else NAMES
    ofbuiltins = prs[0]["target"] != "js" and rng.random() < .3
    if ofbuiltins:
        # unbound, these have a value: programs that have to fail with a NameError are not compared
        pool = BUILTINS
    else:
        used |= keep
    pool = [n for n in pool if n not in used]
    rng.shuffle(pool)
    names = {}
    share = rng.choice([.3, 1])

    def ren(n):
        if n in keep or n.startswith("_"):
            return n
        if n not in names:
            names[n] = pool.pop() if pool and rng.random() < (.7 if ofbuiltins else share) else n
        return names[n]

    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        if not isinstance(x, dict):
            return x
        k = None if len(x) == 2 and "e" in x else x.get("k")     # the key in a dict is any string
        r = {f: walk(v) if f not in ("v", "d") or isinstance(v, dict) and "k" in v else v for f, v in x.items()}
        if k in ("v", "attr"):
            r["n"] = ren(x["n"])
        elif k == "call":
            for y in r["kw"]:
                y["n"] = ren(y["n"])
        elif k == "comp":
            r["x"] = ren(x["x"])
        elif k == "lam":
            r["ps"] = [ren(y) for y in x["ps"]]
        elif k == "for":
            r["ts"] = [ren(y) for y in x["ts"]]
        elif k in ("with", "code"):
            for y in r["as"]:
                y["n"] = ren(y["n"])
        elif k == "def":
            r["name"] = ren(x["name"])
            for y in r["ps"]:
                y["n"] = ren(y["n"])
        elif k == "block":
            r["name"] = ren(x["name"])
        elif k == "imp":
            r["alias"] = ren(x["alias"])
        return r
    files = {}
    r = []
    for pr in prs:
        fs = files.setdefault(id(pr["files"]), None)
        if fs is None:
            fs = files[id(pr["files"])] = [dict(f, root=walk(f["root"])) for f in pr["files"]]
        r.append(dict(pr, files=fs, func=ren(pr["func"]), ofbuiltins=ofbuiltins,
                      ctx=[{"n": ren(x["n"]), "v": x["v"]} for x in pr["ctx"]]))
    return r


# -- flattening ---------------------------------------------------------------

# white space that is not in ASCII, or that the specification cannot spell
SPACES = "\x0b\x1c\x85\xa0\u2003\u2028\u3000"


def flatten(pr, pid):
    """the JSON form that the specification reads"""
    nodes, exprs = [], []

    def ex(e):
        if not isinstance(e, dict):
            return 0
        r = {"k": e["k"], "line": e.get("line", 0), "end": e.get("end", 0)}
        k = e["k"]
        if k == "c":
            r["v"] = e["v"]
        elif k == "v":
            r["n"] = e["n"]
        elif k == "call":
            r.update(f=ex(e["f"]), a=[ex(x) for x in e["a"]], sa=ex(e["sa"]),
                     kw=[{"n": x["n"], "e": ex(x["e"])} for x in e["kw"]], sk=ex(e["sk"]))
        elif k == "attr":
            r.update(e=ex(e["e"]), n=e["n"])
        elif k in ("lit", "not"):
            r["e"] = ex(e["e"])
        elif k in ("cat", "eq", "lt", "and", "or"):
            r.update(a=ex(e["a"]), b=ex(e["b"]))
        elif k == "cond":
            r.update(c=ex(e["c"]), a=ex(e["a"]), b=ex(e["b"]))
        elif k == "list":
            r["es"] = [ex(x) for x in e["es"]]
        elif k == "dict":
            r["ps"] = [{"k": x["k"], "e": ex(x["e"])} for x in e["ps"]]
        elif k == "idx":
            r.update(e=ex(e["e"]), i=ex(e["i"]))
        elif k == "comp":
            r.update(x=e["x"], it=ex(e["it"]), b=ex(e["b"]))
        elif k == "lam":
            r.update(ps=e["ps"], b=ex(e["b"]))
        else:
            raise ValueError(k)
        exprs.append(r)
        return len(exprs)

    def parts(ps):
        return [{"k": "s", "s": x["s"]} if x["k"] == "s" else {"k": "e", "e": ex(x["e"])} for x in ps]

    def ct(c):
        r = dict(c)
        if "e" in c:
            r["e"] = ex(c["e"])
        if "as" in c:
            r["as"] = [{"n": x["n"], "e": ex(x["e"])} for x in c["as"]]
        if "ps" in c:
            r["ps"] = [{"n": x["n"], "d": ex(x["d"]), "k": x["k"]} for x in c["ps"]]
        return r

    def nd(n):
        k = n["k"]
        if k == "text":
            r = dict(k=k, parts=parts(n["parts"]), notr=n["notr"], raw=n["raw"])
        elif k == "code":
            r = {"k": k, "as": [{"n": x["n"], "e": ex(x["e"])} for x in n["as"]]}
        elif k == "el":
            r = dict(k=k, tag=n["tag"], void=n["void"], own=[ct(c) for c in n["own"]],
                     ctl=[ct(c) for c in n["ctl"]],
                     attrs=[dict(name=a["name"], bare=a["bare"], notr=a["notr"],
                                 parts=parts(a["parts"])) for a in n["attrs"]],
                     strip=ex(n["strip"]), content=ex(n["content"]), replace=ex(n["replace"]),
                     pyattrs=ex(n["pyattrs"]), ch=[nd(x) for x in n["ch"]])
        else:
            r = dict(n)
        nodes.append(r)
        return len(nodes)

    files = [{"name": f["name"], "ext": f["ext"], "root": [nd(x) for x in f["root"]]}
             for f in pr["files"]]
    return dict(id=pid, target=pr["target"], func=pr["func"], entry=pr["entry"], files=files,
                nodes=nodes, exprs=exprs,
                ctx={x["n"]: x["v"] for x in pr["ctx"]},
                ws=list(SPACES) if pr["tr"] != "off" else [], tr=pr["tr"], tbs=pr["tbs"], rep=pr["rep"])


# -- printing -----------------------------------------------------------------

ENT = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&#39;"}


class Source:
    """source text of one expression; lines are relative until placed"""

    def __init__(self, s=""):
        self.s = s
        self.marks = []

    def put(self, x):
        self.s += x

    def mark(self, e):
        self.marks.append((e, self.s.count("\n")))


DECOYS = [
    "class _D:\n  {n} = 1; {m} = 2",
    "class _D:\n def _q(self, {n}, *{m}):\n  self.{k} = {k} = {n}\n {k} = _q",
    "class _D:\n class {n}:\n  {m} = 0\n def {k}(self): pass",
    "class _D:\n import os as {n}\n for {m} in (): pass",
    "def _d({n}, *{m}, **{k}): return {n}, {m}, {k}",
    "def _d(_x, *, {n}=1):\n {m} = {n}\n for {k} in [{m}]: pass\n return {k}\n_d(1)",
    "def _d({n}):\n def {m}({k}): return {k}\n return {m}({n})\n_d(1)",
    "def _d():\n class {n}:\n  {m} = 1\n return {n}.{m}\n_d()",
    "def _d():\n try: raise ValueError\n except ValueError as {n}: pass\n import os as {m}\n with open(os_devnull) as {k}: pass",
    "async def _d({n}, {m}=0):\n {k} = {n}\n return {k}",
    "_d = lambda {n}, *{m}, {k}=1: [{n}, {m}, {k}]\n_d(1)",
    # (other comprehensions run into the defect of CPython, see DESIGN.md)
    "_d = list({n} for {n} in (1, 2) for {m} in ({n},) if {m}), set({k} for {k} in (1,))",
    "def _d():\n return {{{n}: {m} for {n}, {m} in [(1, 2)]}}, [{k} for {k} in (1, 2)]\n_d()"]


OPERATIONS = ["(xo %s (E))" % op for op in "+ - * / // % @ ** << >> & | ^ < <= > >= == !=".split()]
OPERATIONS += ["(-xo(E))", "(+xo(E))", "(~xo(E))", "xo[E:]", "xo[:E]", "xo[::E]", "xo[1, E]", "(xo < xo < (E))", "(1 and (E))", "(() or (E))",
               "((E) if 1 else xo)", "(xo if not 1 else (E))", "(E, 0)[0]", "[0, E][-1]", "[*[E]][0]", "{**{1: E}}[1]", "xo(E).it",
               "(lambda *_a: _a[0])(E)", "(lambda _e=(E): _e)()", "xo.at(_e=(E))", "[_e for _e in [E]][0]", "[_e for _e in [0] for _e in [E]][0]"]

# (the defect of CPython again: not together with comprehensions)
CLOSURES = ["(lambda: (E))()", "(lambda _f: _f())(lambda: E)"]
OPERATIONS += CLOSURES
NCLOSURES = len(CLOSURES)


def operated(e, j):
    """the expression, written as an operation that gives its value"""
    return dict(e, operation=j)


class Printer:
    prefix = "py"

    def __init__(self, pr, rng, wild=True, nl=False):
        """wild: random layout; nl: line breaks within expressions"""
        self.pr, self.R, self.wild, self.nl = pr, rng, wild, nl
        self.quote = None
        self.comps = "'comp'" in repr(pr["files"])
        self.real = filenames(pr, rng) if wild else {f["name"]: f["name"] for f in pr["files"]}

    def href(self, j):
        """the name of a file in a quoted attribute"""
        for c in self.real[self.pr["files"][j - 1]["name"]]:
            self.put(ENT[c] if c in "&<>\"'" else c)

    def some(self, q):
        return self.wild and self.R.random() < q

    def pick(self, *a):
        return self.R.choice(a) if self.wild else a[0]

    # expressions
    def const(self, v, nested=False):
        t = v["t"]
        if t == "str":
            s = v["s"]
            q = self.pick("'", '"')
            if self.some(.05) and "\\" not in repr(s) and "'" not in s and '"' not in s:
                q = q * 3
            return q + s.replace("\\", "\\\\").replace(q[0], "\\" + q[0]).replace("\n", "\\n") + q
        if t == "int":
            return str(v["n"])
        if t == "bool":
            return str(v["b"])
        if t == "none":
            return "None"
        raise ValueError(t)

    def brk(self, o):
        if self.nl and self.some(.25):
            o.put("\n" + " " * self.R.randint(0, 3))

    OPS = {"cat": "+", "eq": "==", "lt": "<", "and": "and", "or": "or"}
    NOT = "not "

    def ex(self, o, e, top=False):
        k = e["k"]
        j = e.get("operation") if self.ops else None
        if j is not None:
            e = dict(e, operation=None)
        elif (self.ops and not (k == "c" or k == "v" and e["n"] in self.plainly) and self.some(.012 * self.VARY)):
            j = self.R.randrange(len(OPERATIONS) - self.comps * NCLOSURES)
        if j is not None:
            # xo has all the operators; what they give is the other operand
            pre, post = OPERATIONS[j].split("E")
            o.put(pre)
            self.ex(o, e, True)
            o.put(post)
            return
        if not top and k in ("cat", "eq", "lt", "and", "or", "not", "cond", "lam"):
            o.put("(")
            self.ex(o, e, True)
            o.put(")")
            return
        o.mark(e)
        if k == "c":
            if e["v"]["t"] == "int" and e["v"]["n"] < 0 and not top:
                o.put("(%d)" % e["v"]["n"])
            else:
                o.put(self.const(e["v"]))
        elif k == "v":
            o.put(e["n"] if e["n"] in self.plainly else self.vary(.02, "[%s][0]", "(%s)", "{0: %s}[0]") % e["n"])
        elif k == "call":
            self.ex(o, e["f"])
            o.put("(")
            self.args(o, e)
            o.put(")")
        elif k == "attr":
            self.ex(o, e["e"])
            o.put("." + e["n"])
        elif k == "lit":
            o.put("literal(")
            self.ex(o, e["e"], True)
            o.put(")")
        elif k in self.OPS:
            self.ex(o, e["a"])
            o.put(" %s " % self.OPS[k])
            self.ex(o, e["b"])
        elif k == "not":
            o.put(self.NOT)
            self.ex(o, e["e"])
        elif k == "cond":
            self.cond(o, e)
        elif k == "list":
            o.put("[")
            self.seq(o, [("", x) for x in e["es"]])
            o.put("]")
        elif k == "dict":
            o.put("{")
            self.seq(o, [(self.const({"t": "str", "s": x["k"]}) + ": ", x["e"]) for x in e["ps"]])
            o.put("}")
        elif k == "idx":
            self.ex(o, e["e"])
            o.put("[")
            self.ex(o, e["i"], True)
            o.put("]")
        elif k == "comp":
            self.comp(o, e)
        elif k == "lam":
            self.lam(o, e)
        else:
            raise ValueError(k)

    # names that are always written as they are, and how many arguments of their calls are
    plainly = {}
    # the context has xo (tkdrive: Operand)
    ops = False
    # how often an expression is written in an unusual way
    VARY = 1

    def cased(self, name):
        """the case of names of elements and attributes is not significant"""
        return self.pick(name.upper(), name.title()) if self.some(.03) and name.isascii() else name

    def vary(self, q, *fs):
        """a format: the plain one, or one of these"""
        return self.R.choice(fs) if self.some(q * self.VARY) else "%s"

    def args(self, o, e):
        items = [("", x) for x in e["a"]]
        if e["sa"]:
            items.append(("*", e["sa"]))
        elif items and self.some(.03 * self.VARY):
            j = self.R.randint(min(self.plainly.get(e["f"].get("n"), 0), len(items)), len(items))
            items[j:] = [("*", lst(*e["a"][j:]))]
        kws = [(x["n"] + "=", x["e"]) for x in e["kw"]]
        if e["sk"]:
            kws.append(("**", e["sk"]))
        elif kws and self.some(.05 * self.VARY):
            kws = [("**", dct(*[(x["n"], x["e"]) for x in e["kw"]]))]
        self.seq(o, items + kws)

    def comp(self, o, e):
        l, r, pre, post = "[", "]", "", ""
        if self.some(.25 * self.VARY):
            f = self.R.choice(["gen", "if", "in", "two", "dict"])
            if f == "gen":
                l, r = "[*(", ")]"
            elif f == "if":
                post = " if 1"
            elif f == "in":
                post = " for _u in (0,)"
            elif f == "two":
                l, r = "[_b for _a in [[", "]] for _b in _a]"
            else:
                l, r = "[*{_k: _v for _k, _v in zip(range(99), [", "])}.values()]"
        o.put(l)
        self.ex(o, e["b"])
        o.put(pre + " for %s in " % e["x"])
        self.ex(o, e["it"])
        o.put(post + r)

    def cond(self, o, e):
        self.ex(o, e["a"])
        o.put(" if ")
        self.ex(o, e["c"])
        o.put(" else ")
        self.ex(o, e["b"])

    def lam(self, o, e):
        o.put("lambda %s: " % ", ".join(e["ps"] + ["*, _k=0"] * self.some(.05 * self.VARY)))
        self.ex(o, e["b"])

    def seq(self, o, items):
        for j, (pre, x) in enumerate(items):
            if j:
                o.put("," + self.pick(" ", "", " "))
            self.brk(o)
            o.put(pre)
            self.ex(o, x, True)

    def source(self, *es):
        o = Source()
        for e in es:
            self.ex(o, e, True)
        return o

    # output
    def put(self, s):
        self.out.append(s)
        self.line += s.count("\n")

    def place(self, o):
        for e, d in o.marks:
            e["line"] = self.line + d
            e["end"] = self.line + o.s.count("\n")

    def ent(self, c):
        if c in ("&", "<") or self.some(.5):
            return self.pick(ENT[c], "&#%d;" % ord(c), "&#x%x;" % ord(c))
        return c

    def enc(self, s, quote=None):
        """text or attribute value as markup"""
        r = []
        for c in s:
            if c in "&<" or c == quote:
                r.append(self.pick(ENT[c], "&#%d;" % ord(c), "&#x%X;" % ord(c)))
            elif c in ">\"'" and self.some(.3):
                r.append(ENT[c])
            elif c.isalnum() and self.some(.01):
                r.append("&#%d;" % ord(c))
            else:
                r.append(c)
        return "".join(r)

    def wsp(self):
        self.put(self.pick(" ", " ", " ", "  ", "\n", "\n  "))

    def emitcode(self, o, quote, raw=False):
        """expression source, as markup; lines are those of the source"""
        self.place(o)
        self.put(o.s if raw else self.enc(o.s, quote))

    def parts(self, ps, quote=None, raw=False):
        for j, x in enumerate(ps):
            if x["k"] == "s":
                s = x["s"].replace("$", "$$")
                self.put(s if raw else self.enc(s, quote))
                continue
            e = x["e"]
            nxt = ps[j + 1]["s"] if j + 1 < len(ps) and ps[j + 1]["k"] == "s" else ""
            # what follows would be taken for a part of the expression
            plain = (self.bare(e) and not (nxt and (nxt[0] in "([._" or nxt[0].isalnum()))
                     and not (j + 1 < len(ps) and ps[j + 1]["k"] == "e" and False))
            o = self.source(e)
            if plain and re.match("[a-zA-Z_]", o.s) and self.some(.6):
                self.put("$")
                self.emitcode(o, quote, raw)
            else:
                pad = self.pick("", "", "", " ")
                if self.nl and self.some(.15):
                    pad = "\n "
                self.put("${" + pad)
                self.emitcode(o, quote, raw)
                self.put(pad + "}")

    def bare(self, e):
        """can it be written without braces"""
        k = e["k"]
        return (k == "v" or (k == "call" and self.bare(e["f"])) or (k == "lit")
                or (k in ("idx", "attr") and self.bare(e["e"])))

    def attrval(self, fn):
        q = self.pick('"', '"', "'")
        self.put("=" + q)
        fn(q)
        self.put(q)

    def srcattr(self, name, o, holder=None):
        """a control attribute holding an expression or the like"""
        self.wsp()
        self.put(self.cased(name))

        def fn(q):
            if holder is not None:
                holder["line"] = self.line
            self.emitcode(o, q)
        self.attrval(fn)

    ATTRNAMES = {}

    # control structures
    ELNAMES = {"if": ("if", "test"), "unless": ("unless", "test"), "for": ("for", "each"),
               "with": ("with", "vars"), "def": ("def", "function"), "block": ("block", "name")}

    def ctlsrc(self, c):
        k = c["k"]
        o = Source()
        if k in ("if", "unless"):
            self.ex(o, c["e"], True)
        elif k == "for":
            self.fortarget(o, c)
            self.ex(o, c["e"], True)
        elif k == "with":
            self.assigns(o, c["as"])
        elif k == "def":
            self.deftarget(o, c)
        elif k == "block":
            o.put(c["name"])
        return o

    def fortarget(self, o, c):
        ts = ", ".join(c["ts"]) + ("," if c["tup"] and len(c["ts"]) == 1 else "")
        o.put((self.vary(.05, "(%s)", "[%s]") if c["tup"] else self.vary(.03, "(%s)")) % ts + " in ")

    def assigns(self, o, as_):
        for j, a in enumerate(as_):
            if j:
                o.put("; ")
            pre, post = a["n"] + " = ", ""
            if self.some(.08 * self.VARY):
                f = self.R.randrange(5)
                if f == 0:
                    pre, post = a["n"] + ", = [", "]"
                elif f == 1:
                    pre, post = "[%s] = (" % a["n"], ",)"
                elif f == 2:
                    pre, post = "_t = %s = [" % a["n"], "][0]"
                elif f == 3:
                    pre = a["n"] + ": 'any' = "
                else:
                    pre, post = "(%s := (" % a["n"], "))"
            o.put(pre)
            self.ex(o, a["e"], True)
            o.put(post)

    def statements(self, o, as_):
        """Python code that makes these assignments"""
        if not self.some(.25 * self.VARY) or self.pr["tbs"]:
            return self.assigns(o, as_)
        if self.some(.5):
            self.decoy(o)
        for j, a in enumerate(as_):
            f = self.R.choice(["if", "for", "try", "def", "with", "plain"])
            o.put("\n")
            if f == "if":
                o.put("if 1:\n  ")
                self.assigns(o, [a])
            elif f == "for":
                o.put("for _i in (0,):\n    ")
                self.assigns(o, [a])
            elif f == "try":
                o.put("try:\n ")
                self.assigns(o, [a])
                o.put("\nfinally:\n pass")
            elif f == "def":
                o.put("def _h%d(_z=0):\n  return (" % j)
                self.ex(o, a["e"], True)
                o.put(")\n%s = _h%d()" % (a["n"], j))
            elif f == "with":
                o.put("class _C%d:\n  def _m(_s): return (" % j)
                self.ex(o, a["e"], True)
                o.put(")\n%s = _C%d()._m()" % (a["n"], j))
            else:
                self.assigns(o, [a])
        o.put("\n")

    def decoy(self, o):
        """code with scopes of its own that have names of variables of the context"""
        names = [x["n"] for x in self.pr["ctx"]] + ["x", "f", "g"]
        n, m, k = (self.R.choice(names) for _ in range(3))
        if len({n, m, k}) < 3:
            return
        self.put_decoy(o, self.R.choice(DECOYS), n, m, k)

    def put_decoy(self, o, f, n, m, k):
        o.put("\n" + f.format(n=n, m=m, k=k))

    def deftarget(self, o, c):
        o.put(c["name"])
        if c["ps"] or not self.some(.5):
            o.put("(")
            kinds = [q["k"] for q in c["ps"]]
            for j, q in enumerate(c["ps"]):
                if j:
                    o.put(", ")
                if q["k"] == "ko" and "va" not in kinds and "ko" not in kinds[:j]:
                    o.put("*, ")
                o.put({"va": "*", "vk": "**"}.get(q["k"], "") + q["n"])
                if q["d"]:
                    o.put("=")
                    self.ex(o, q["d"], True)
                if q["k"] == "po" and "po" not in kinds[j + 1:]:
                    o.put(", /")
            o.put(")")

    def ctlattr(self, c):
        self.srcattr("%s:%s" % (self.prefix, self.ATTRNAMES.get(c["k"], c["k"])), self.ctlsrc(c), c)

    def node(self, n, raw=False):
        k = n["k"]
        if k == "text":
            self.parts(n["parts"], None, n["raw"])
        elif k == "raw":
            self.put(n["s"])
        elif k == "code":
            self.put("<?python ")
            o = Source()
            if "decoy" in n:
                self.put_decoy(o, DECOYS[n["decoy"][0]], *n["decoy"][1:])
                o.put("\n")
                self.assigns(o, n["as"])
            else:
                self.statements(o, n["as"])
            o.s = o.s.replace(">", "\\x3e")     # would end the instruction
            self.emitcode(o, None, True)
            self.put("?>")
        elif k == "imp":
            self.put(self.cased("<%s:import" % self.prefix))
            at = [("href", n["href"]), ("alias", n["alias"])]
            if self.some(.3):
                at.reverse()
            for a, v in at:
                self.wsp()
                self.put(self.cased(a))

                def fn(q, a=a, v=v):
                    if a == "href":
                        n["line"] = self.line
                        self.href(v)
                    else:
                        self.put(v)
                self.attrval(fn)
            self.put("/>" if not self.some(.3) else self.cased("></%s:import>" % self.prefix))
        elif k == "el":
            self.element(n)
        else:
            raise ValueError(k)

    def element(self, n, root=None):
        items = []      # callables, in order
        tag = n["tag"]
        ctls = list(n["ctl"])
        P = self.prefix
        if not tag:
            if n["own"]:
                c = n["own"][0]
                nm, an = self.ELNAMES[c["k"]]
                if c["k"] == "with" and P == "py" and self.some(.2):
                    nm, an = "vars", "names"
                tag = P + ":" + nm
                items.append(lambda c=c, an=an: self.srcattr(an, self.ctlsrc(c), c))
            else:
                tag = P + ":replace"
                items.append(lambda: self.srcattr("value", self.source(n["replace"])))
        if n["replace"] and tag != P + ":replace":
            items.append(lambda: self.srcattr(P + ":replace", self.source(n["replace"])))
        for c in ctls:
            items.append(lambda c=c: self.ctlattr(c))
        for nm in ("strip", "content"):
            if n[nm]:
                # no condition: always strip
                empty = nm == "strip" and n[nm]["k"] == "c" and n[nm]["v"] == vi(1) and self.some(.5)
                items.append(lambda nm=nm, empty=empty: self.srcattr(
                    P + ":" + self.ATTRNAMES.get(nm, nm),
                    Source(self.pick("", " ")) if empty else self.source(n[nm])))
        if n["pyattrs"]:
            items.append(lambda: self.srcattr(P + ":attrs", self.source(n["pyattrs"])))
        if self.wild:
            self.R.shuffle(items)
        if root:
            items.insert(0, root)
        stat = [lambda a=a: self.attribute(a) for a in n["attrs"]]
        # any merge of the two lists
        j = 0
        for x in stat:
            j = self.R.randint(j, len(items)) if self.wild else len(items)
            items.insert(j, x)
            j += 1
        self.put("<" + self.cased(tag))
        for f in items:
            f()
        self.put(self.pick("", "", "", " ", "\n"))
        if n["void"]:
            self.put(self.pick(">", "/>"))
            return
        if not n["ch"] and self.some(.5):
            self.put("/>")
            return
        self.put(">")
        self.children(n["ch"])
        self.put("</%s>" % self.cased(tag))

    def children(self, ch):
        for x in ch:
            if self.some(.03) and self.pr["tr"] == "off" and not any(
                    y["k"] == "text" and y["raw"] for y in ch):
                self.put("<!--!" + self.pick(" hidden $x ", "", "<b>") + "-->")
            self.node(x)

    def attribute(self, a):
        self.wsp()
        self.put(self.cased(a["name"]))
        if a["bare"]:
            return
        self.attrval(lambda q: self.parts(a["parts"], q))

    def file(self, f):
        self.out, self.line = [], 1
        P = self.prefix
        if self.some(.2):
            self.put("\n" * self.R.randint(1, 3))
        if f["ext"]:
            self.put(self.cased("<%s:extends" % P))
            self.wsp()
            self.put("href")
            self.attrval(lambda q: self.href(f["ext"]))
            self.put(">")
            for n in f["root"]:
                self.put(self.pick("\n", "", "\n\n", "<!-- c -->\n"))
                self.node(n)
            self.put(self.pick("\n", "", "\n") + self.cased("</%s:extends>" % P))
        else:
            for n in f["root"]:
                if n["k"] == "el":
                    ns = None
                    if P != "tal" and self.some(.2) and n["tag"]:
                        ns = lambda: (self.wsp(), self.put('xmlns:%s="http://tonnikala"' % P))
                    self.element(n, ns)
                else:
                    self.node(n)
                self.put(self.pick("", "", "\n"))
        return "".join(self.out)

    def files(self):
        return {self.real[f["name"]]: self.file(f) for f in self.pr["files"]}


def task(prs, sources, real):
    """the renders of programs that share their files"""
    pr = prs[0]
    return dict(files=sources, names={v: k for k, v in real.items()}, tr=pr["tr"], syntax=pr.get("syntax", "tonnikala"), renders=[
        dict(entry=real[q["files"][q["entry"] - 1]["name"]], func=q["func"],
             ctx=[x for x in q["ctx"] if x["n"] != "gettext" or q["tr"] == "off"]) for q in prs])


class TalPrinter(Printer):
    """the chameleon syntax"""
    prefix = "tal"
    ATTRNAMES = {"if": "condition", "for": "repeat", "strip": "omit-tag"}


class JsPrinter(Printer):
    """templates for the JavaScript target"""
    prefix = "js"
    VARY = 0
    OPS = {"cat": "+", "eq": "==", "lt": "<", "and": "&&", "or": "||"}
    NOT = "!"

    def const(self, v, nested=False):
        t = v["t"]
        if t == "str":
            q = self.pick("'", '"')
            return q + v["s"].replace("\\", "\\\\").replace(q, "\\" + q).replace("\n", "\\n") + q
        if t == "int":
            return str(v["n"])
        return {"none": "null"}.get(t) or str(v["b"]).lower()

    def cond(self, o, e):
        self.ex(o, e["c"])
        o.put(" ? ")
        self.ex(o, e["a"])
        o.put(" : ")
        self.ex(o, e["b"])

    def lam(self, o, e):
        o.put("function (%s) { return " % ", ".join(e["ps"]))
        self.ex(o, e["b"])
        o.put("; }")

    def comp(self, o, e):
        self.ex(o, e["it"])
        o.put(".map(function (%s) { return " % e["x"])
        self.ex(o, e["b"])
        o.put("; })")

    def brk(self, o):
        pass
