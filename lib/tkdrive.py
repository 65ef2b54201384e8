"""Renders programs with the implementation under test and records what is
observable: output, log of the calls made, exception, traceback.

usage: tkdrive.py in.json out.json   (a list of tasks; a list of observations)
A task: {files: {name: source}, renders: [{entry, func, ctx: [{n, v}]}], tr, syntax};
its result is the list of the observations of the renders.
"""
import collections
import decimal
import enum
import json
import os
import random
import re
import shutil
import sys
import tempfile
import traceback
import types

if os.environ.get("TK_PUREBUF"):
    # the accelerated buffer is not available
    sys.modules["tonnikala.runtime._buffer"] = None

from markupsafe import Markup
from tonnikala.loader import FileLoader


class Boom(Exception):
    pass


class Html:
    env = None

    def __init__(self, s, r, env=None):
        self.s, self.r, self.env = s, r, env

    def __html__(self):
        if self.env:
            self.env.inside()
        return self.r

    def __str__(self):
        return self.s


class Obj:
    def __init__(self, s, env=None):
        self.s, self.env = s, env

    def __str__(self):
        if self.env:
            self.env.inside()
        return self.s


class Str(str):
    pass


class Int(int):
    def __str__(self):
        return self.s


class IntHtml(int):
    def __html__(self):
        return self.r

    def __str__(self):
        return self.s


class StrHtml(str):
    def __html__(self):
        return self.r


class ListStr(list):
    def __str__(self):
        return self.s


class Level(enum.IntEnum):
    LOW = 3

    def __str__(self):
        return "<3>"


def own(t, v, *args):
    r = t(*args)
    r.s = v.s
    r.r = getattr(v, "r", "")
    return r


class Seq:
    """an iterable that is neither a list nor a tuple"""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, j):
        return self.v[j]


class SeqLen(Seq):
    def __len__(self):
        return len(self.v)


def realise(kind, v):
    """other Python values that behave the same"""
    if kind == "sub":
        return Str(v)
    if kind == "int":
        return own(Int, v, 7)
    if kind == "enum":
        return Level.LOW
    if kind == "inthtml":
        return own(IntHtml, v, 5)
    if kind == "strhtml":
        return own(StrHtml, v, v.s)
    if kind == "liststr":
        return own(ListStr, v, [1])
    if kind == "decimal":
        return decimal.Decimal(v.s)
    if kind == "exc":
        return ValueError(v.s)
    if kind == "float":
        return float(v.s)
    if kind == "tuple":
        return tuple(v)
    if kind == "seq":
        return Seq(v) if v else SeqLen(v)
    if kind == "proxy":
        return types.MappingProxyType(v)
    if kind == "odict":
        return collections.OrderedDict(v)
    if kind == "chain":
        return collections.ChainMap({}, v)
    raise ValueError(kind)


class Held:
    def __init__(self, it):
        self.it = it

    def __neg__(self):
        return self.it
    __pos__ = __invert__ = __neg__


class Operand:
    """the result of any operation is the other operand"""

    def __add__(self, x):
        return x
    __sub__ = __mul__ = __truediv__ = __floordiv__ = __mod__ = __matmul__ = __pow__ = __lshift__ = __rshift__ = __add__
    __and__ = __or__ = __xor__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __add__
    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, slice):
            return k.start if k.start is not None else k.stop if k.stop is not None else k.step
        return k[-1]

    def __call__(self, x):
        return Held(x)

    def at(self, _e):
        return _e


XO = Operand()


class Env:
    """one rendering context and its instruments"""

    def __init__(self, tr="off"):
        self.log = []
        self.raised = []
        self.tr = tr
        self.nested = None

    def boom(self, id):
        e = Boom(id)
        self.raised.append(e)
        raise e

    def value(self, v):
        r = self.plain(v)
        return realise(v["as"], r) if "as" in v else r

    def plain(self, v):
        t = v["t"]
        env = self
        if t == "str":
            return v["s"]
        if t == "mk":
            return Markup(v["s"])
        if t == "int":
            return v["n"]
        if t == "bool":
            return v["b"]
        if t == "none":
            return None
        if t == "html":
            return Html(v["s"], v["r"], self)
        if t == "obj":
            return Obj(v["s"], self)
        if t == "list":
            return [self.value(x) for x in v["v"]]
        if t == "dict":
            return {x["k"]: self.value(x["v"]) for x in v["v"]}
        if t == "bad":
            class Bad:
                def __str__(self):
                    env.boom(v["id"])

                def __bool__(self):
                    env.boom(v["id"])
            return Bad()
        if t == "host" and v["h"] == "op":
            return XO
        if t == "host":
            return getattr(self, "h_" + v["h"])
        raise ValueError(t)

    def inside(self):
        """what a value or a function of the host may do: render something"""
        f, self.nested = self.nested, None
        if f:
            f()

    def h_p(self, id, value=""):
        self.log.append("p:" + id)
        self.inside()
        return value

    def h_boom(self, id):
        self.boom(id)

    def h_gettext(self, msg):
        self.log.append("t:" + msg)
        self.inside()
        return Markup("[" + msg + "&]") if self.tr == "mk" else "[" + msg + "&]" if self.tr == "wrap" else msg


SCOPES = [(re.compile(r'top-level template code$'), "main"),
          (re.compile(r'def "(.*)"$'), "def"),
          (re.compile(r'block "(.*)"$'), "block")]


def norm(s):
    return s.replace("&quot;", "&#34;").replace("&apos;", "&#39;").replace("&#x27;", "&#39;")


def exc_name(e):
    if isinstance(e, Boom):
        return "Boom:" + e.args[0]
    if isinstance(e, NameError):
        return "NameError"
    return type(e).__name__


def template_frames(e, d):
    tb = []
    inn = {"file": "", "line": 0}
    for f in traceback.extract_tb(e.__traceback__):
        if not f.filename.startswith(d):
            continue
        name = f.filename[len(d):].lstrip("/")
        inn = {"file": name, "line": f.lineno or 0}
        for r, kind in SCOPES:
            m = r.match(f.name)
            if m:
                n = m.group(1) if m.groups() else ""
                if n not in ("<lambda>", "<genexpr>", "<dictcomp>", "<listcomp>"):
                    tb.append({"file": name, "kind": kind, "name": n, "line": f.lineno or 0})
    return tb, inn


def snapshot(v):
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    if isinstance(v, (Seq, SeqLen)):
        return snapshot(v.v)
    if isinstance(v, (dict, types.MappingProxyType, collections.ChainMap)):
        return [(k, snapshot(x)) for k, x in v.items()]
    return id(v) if callable(v) else v


class Ctx(dict):
    """only the items count"""

    def __missing__(self, k):
        raise Boom("missing")


CONTEXTS = {
    "dict": dict,
    "odict": lambda c: collections.OrderedDict(reversed(list(c.items()))),
    "sub": Ctx,
    "default": lambda c: collections.defaultdict(lambda: "D", c),
    "proxy": types.MappingProxyType,
    "chain": lambda c: collections.ChainMap({}, c, {k: "hidden" for k in c}),
}


def make(task, r):
    env = Env(r.get("tr", task.get("tr", "off")))
    ctx = {x["n"]: env.value(x["v"]) for x in r["ctx"]}
    if env.tr != "off":
        ctx["gettext"] = env.h_gettext
    return env, ctx


def render(loader, task, r, d, ctxas="dict", nest=None, api="render", load=None):
    env, ctx = make(task, r)
    before = snapshot(ctx)
    o = dict(ok=True, out="", log=[], exc="", same=True, tb=[], inn={"file": "", "line": 0}, msg="")
    if nest:
        # while this one renders, another one does, from the beginning to its end
        left = [3]

        def install(env, depth):
            def nested():
                if not left[0]:
                    return
                left[0] -= 1
                env2, ctx2 = make(task, nest)
                if depth:
                    install(env2, depth - 1)
                try:
                    loader.load(nest["entry"]).render(ctx2, nest["func"])
                except Exception:
                    pass
                install(env, depth)
            env.nested = nested

        install(env, 1)
    given = CONTEXTS[ctxas](ctx)
    keys = list(given) if isinstance(given, dict) else None
    try:
        tmpl = load(r["entry"]) if load else loader.load(r["entry"])
        if api == "render":
            o["out"] = tmpl.render(given, r["func"])
        elif api == "join":
            o["out"] = tmpl.render_to_buffer(given, r["func"]).join()
        elif api == "str":
            o["out"] = str(tmpl.render_to_buffer(given, r["func"]))
        elif api == "html":
            o["out"] = str(Markup(tmpl.render_to_buffer(given, r["func"])))
        o["out"] = norm(o["out"])
    except Exception as e:
        o["ok"] = False
        o["exc"] = exc_name(e)
        o["msg"] = str(e)[:200]
        o["same"] = not isinstance(e, Boom) or (len(env.raised) == 1 and env.raised[0] is e)
        o["tb"], o["inn"] = template_frames(e, d)
    o["log"] = env.log
    o["how"] = "context: %s, by: %s, within: %s, from: %s" % (
        ctxas, api, nest and nest["entry"], "string" if load else "file")
    o["ctxkept"] = snapshot(ctx) == before and (keys is None or list(given) == keys)
    return o


SAME = ("ok", "out", "log", "exc", "tb", "inn")


def same(o, o2):
    r = all(o[k] == o2[k] for k in SAME)
    if not r:
        o["how"] = "; ".join([o2["how"]] + ["%s: %r" % (k, o2[k]) for k in SAME + ("msg",) if o[k] != o2[k]])[:500]
    return r


def run(task, base):
    """renders in order, then all again in the opposite order, with one loader"""
    d = tempfile.mkdtemp(dir=base)
    try:
        for name, src in task["files"].items():
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), "w", encoding="utf-8", newline="") as f:
                f.write(src)

        def loader():
            return FileLoader([d], syntax=task.get("syntax", "tonnikala"),
                              translatable=task.get("tr", "off") != "off")
        one = loader()
        R = random.Random(task.get("seed", 0))
        rs = task["renders"]

        def how():
            return dict(ctxas=R.choice(list(CONTEXTS)), api=R.choice(["render", "render", "join", "str", "html"]),
                        nest=R.choice(rs) if R.random() < .4 else None)
        first = [render(one, task, r, d) for r in rs]
        second = [render(one, task, r, d, **how()) for r in reversed(rs)]
        for o, o2 in zip(first, reversed(second)):
            o["again"] = same(o, o2)
            o["ctxkept"] = o["ctxkept"] and o2["ctxkept"]
        if len(task["files"]) == 1 and R.random() < .3:
            # from a string, with the name of the file
            (name, src), = task["files"].items()
            for r, o in zip(rs, first):
                o2 = render(one, task, r, d, load=lambda n: loader().load_string(src, os.path.join(d, name)), **how())
                o["again"] = o["again"] and same(o, o2)
        for o in first:
            for x in o["tb"] + [o["inn"]]:
                x["file"] = task["names"].get(x["file"], x["file"])
        return first
    finally:
        shutil.rmtree(d, True)


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    base = tempfile.mkdtemp(dir=".")
    base = os.path.abspath(base)
    res = [run(t, base) for t in tasks]
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
