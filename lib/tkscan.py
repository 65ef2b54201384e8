"""Renders texts with interpolations with the implementation under test.

A task is {"pos": position, "texts": [{"w": text, "e": is an error, "s": segments}]};
the result is the list of what differs.  The specification says where the
expressions are; what such an expression is worth is Python's own affair."""
import html
import json
import keyword
import re
import signal
import sys
import warnings

warnings.simplefilter("ignore")
from tonnikala.loader import Loader
from tonnikala.runtime.exceptions import TemplateSyntaxError


class M:
    """a value that shows how it was come by"""
    __iter__ = None

    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__") and len(n) > 4:
            raise AttributeError(n)
        return M("%s.%s" % (self.s, n))

    def __call__(self, *a, **k):
        return M("%s(%s)" % (self.s, ";".join([repr(x) for x in a] + ["%s=%r" % x for x in sorted(k.items())])))

    def __getitem__(self, i):
        return M("%s[%r]" % (self.s, i))

    def __add__(self, o):
        return M("(%s+%r)" % (self.s, o))

    def __radd__(self, o):
        return M("(%r+%s)" % (o, self.s))

    def __lt__(self, o):
        return M("(%s<%r)" % (self.s, o))

    def __and__(self, o):
        return M("(%s&%r)" % (self.s, o))

    def __repr__(self):
        return "«%s»" % self.s

    __str__ = __repr__

    def __format__(self, spec):
        return "%s:%s" % (self.s, spec)

    def __hash__(self):
        return hash(self.s)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&#34;").replace("'", "&#39;")


def context(w):
    return {n: M(n) for n in re.findall(r"[^\W\d]\w*", w) if not keyword.iskeyword(n)}


POS = {
    # source, literal output
    "text": (lambda w: "<p>%s</p>" % w.replace("&", "&amp;").replace("<", "&lt;"), lambda s: esc(s), "<p>%s</p>"),
    "attr": (lambda w: '<p title="x%s"></p>' % html.escape(w), lambda s: esc(s), '<p title="x%s"></p>'),
    "script": (lambda w: "<script>%s</script>" % w, lambda s: s, "<script>%s</script>"),
}


def valid(src):
    """None where it is a matter of opinion"""
    r = []
    for e in ("", "\n"):
        try:
            compile(src.lstrip() + e, "x", "eval")
            r.append(True)
        except (SyntaxError, ValueError, MemoryError):
            r.append(False)
    return r[0] if r[0] == r[1] else None


def expect(t, lit, frame):
    """("ok", output) | ("syntax",) | ("raise", type) | None"""
    if t["e"]:
        return ("syntax",)
    out = []
    vs = [valid(g["s"]) for g in t["s"] if g["k"] == "e"]
    if None in vs:
        return None
    if False in vs:
        return ("syntax",)
    ctx = context(t["w"])
    for g in t["s"]:
        if g["k"] == "t":
            out.append(lit(g["s"]))
        else:
            try:
                v = eval(g["s"].lstrip(), dict(ctx))
                if v is None or isinstance(v, bool) or callable(v) and not isinstance(v, M):
                    return None
                out.append(esc(str(v)))
            except Exception as e:
                return ("raise", type(e).__name__)
    if " at 0x" in "".join(out):
        return None
    return ("ok", frame % "".join(out))


LOADERS = {}


def loader(syntax):
    if syntax not in LOADERS:
        LOADERS[syntax] = Loader(syntax=syntax)
    return LOADERS[syntax]


class Stuck(BaseException):
    pass


def stuck(*a):
    raise Stuck()


signal.signal(signal.SIGALRM, stuck)


def observe(src, ctx, syntax):
    signal.alarm(5)
    try:
        return observe_(src, ctx, syntax)
    except Stuck:
        return ("stuck",)
    finally:
        signal.alarm(0)


def observe_(src, ctx, syntax):
    try:
        t = loader(syntax).load_string(src)
    except TemplateSyntaxError as e:
        return ("syntax",)
    except Exception as e:
        return ("load", type(e).__name__, str(e))
    try:
        return ("ok", str(t.render(ctx)))
    except Exception as e:
        return ("raise", type(e).__name__)


def run(task):
    mk, lit, frame = POS[task["pos"]]
    syntax = task.get("syntax", "tonnikala")
    bad, und, batch, n = [], 0, [], dict(ok=0, syntax=0)
    n["raise"] = 0

    def one(t, want):
        got = observe(mk(t["w"]), context(t["w"]), syntax)
        if got != want:
            bad.append(dict(w=t["w"], pos=task["pos"], syntax=syntax, expected=want, observed=got, segments=t["s"]))

    def flush():
        if not batch:
            return
        ctx = {}
        for t, w in batch:
            ctx.update(context(t["w"]))
        got = observe("<div>%s</div>" % "".join(mk(t["w"]) for t, w in batch), ctx, syntax)
        if got != ("ok", "<div>%s</div>" % "".join(w[1] for t, w in batch)):
            for t, w in batch:
                one(t, w)
            if not bad:
                bad.append(dict(w=[t["w"] for t, w in batch], pos=task["pos"], syntax=syntax, observed=got,
                                expected="what they render one by one"))
        del batch[:]

    for t in task["texts"]:
        want = expect(t, lit, frame)
        if want is None:
            und += 1
            continue
        n[want[0]] += 1
        if want[0] == "ok":
            batch.append((t, want))
            if len(batch) >= 25:
                flush()
        else:
            one(t, want)
        if len(bad) > 20:
            break
    flush()
    return dict(bad=bad, undefined=und, **n)


import faulthandler
faulthandler.dump_traceback_later(800, exit=True)

def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    with open(sys.argv[2], "w") as f:
        json.dump([run(t) for t in tasks], f)


main()
