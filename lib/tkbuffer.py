"""Runs the operation sequences of spec/Buffer.tla on a buffer implementation."""
import gc
import json
import os
import random
import sys

if os.environ.get("TK_PURE"):
    # as on a system without the accelerated one
    sys.modules["tonnikala.runtime._buffer"] = None

from collections import UserDict
from markupsafe import Markup, escape
from tonnikala.runtime import python as rt

Buffer = rt.Buffer


class Boom(Exception):
    pass


class Sub(str):
    pass


class Sub2(str):
    """a str subclass that has another string form"""
    def __str__(self):
        return self.form


class Obj:
    def __init__(self, world, d):
        self.world, self.d = world, d

    def __str__(self):
        d = self.d
        k = d["k"]
        if k == "fail":
            raise self.world.error(d["s"])
        if k == "count":
            self.world.count += 1
            return d["s"] + str(self.world.count)
        if k in ("re", "refail"):
            self.world.buf[d["b"] - 1]("(" + d["s"])
            if k == "refail":
                raise self.world.error(d["s"])
            return d["s"]
        return d["s"]


class Html(Obj):
    def __html__(self):
        if self.d["k"] == "failhtml":
            raise self.world.error(self.d["s"])
        return self.d["e"]


class SubStr:
    """gives an instance of a str subclass as its string form"""
    def __init__(self, s):
        self.s = Sub(s)

    def __str__(self):
        return self.s


class World:
    def __init__(self, n, R):
        self.R = R
        self.buf = [Buffer() for _ in range(n)]
        self.count = 0
        self.raised = None
        self.given = []     # objects that must not be kept
        self.strings = []   # strings that must not outlive the buffers

    def error(self, s):
        self.raised = Boom(s)
        return self.raised

    def make(self, d):
        k, s = d["k"], d["s"]
        if k == "buf":
            return self.buf[d["b"] - 1]
        if k == "str":
            # a string of its own, so that references to it can be counted
            x = "".join([s[:1], s[1:]]) if len(s) > 1 else s
            if len(s) > 1:
                self.strings.append(x)
            return x
        if k in ("none", "true", "false"):
            return dict(none=None, true=True, false=False)[k]
        if k == "sub":
            x = Sub(s)
            if self.R.random() < .3 and not set(s) & set("\"'<>&"):
                x = Sub2("other")
                x.form = s
        elif k == "markup":
            x = Markup(s)
        elif k in ("html", "failhtml"):
            x = Html(self, d)
        elif k == "obj" and s.isdigit() and self.R.random() < .5:
            return int(s)
        elif k == "obj" and self.R.random() < .3:
            x = SubStr(s)
        else:
            x = Obj(self, d)
        self.given.append(x)
        return x

    def contents(self):
        return [b.join() for b in self.buf]


def perform(w, op):
    """the outcome (a string read, or None)"""
    o, b = op["o"], w.buf[op["b"] - 1]
    items = [w.make(x) for x in op["items"]]
    names = [w.make(x) for x in op["names"]]
    if o == "call":
        r = b(*items)
        assert r is None, "the call returned %r" % (r,)
    elif o == "attr":
        r = b.output_boolean_attr(names[0], items[0])
        assert r is None, "output_boolean_attr returned %r" % (r,)
    elif o == "attrs":
        pairs = list(zip(names, items))
        hashable = len(set(map(id, names))) == len(names) and len(set(map(str, [n for n in names if isinstance(n, str)]))) == len(names)
        x = w.R.random()
        if not pairs:
            arg = w.R.choice([None, {}, [], (), "", UserDict()])
        elif hashable and x < .4:
            arg = dict(pairs)
        elif hashable and x < .5:
            arg = UserDict(pairs)
        else:
            arg = w.R.choice([pairs, tuple(pairs), [list(p) for p in pairs], iter(pairs)])
        b(rt.output_attrs(arg))
    elif o == "join":
        return b.join()
    elif o == "str":
        return str(b)
    elif o == "format":
        return w.R.choice([lambda: "%s" % b, lambda: "{}".format(b), lambda: f"{b}", lambda: "".join(map(str, [b]))])()
    elif o == "escape":
        r = escape(b)
        assert type(r) is Markup, "escaping a buffer gives %r" % (r,)
        return str(r)
    elif o == "html":
        assert b.__html__() is b, "__html__ does not return the buffer"
    elif o == "new":
        w.buf[op["b"] - 1] = Buffer()
    elif o == "kwargs":
        b("x", y=1)
    elif o == "attr1":
        b.output_boolean_attr("x")
    elif o == "attr3":
        b.output_boolean_attr("x", "y", "z")
    elif o == "join1":
        b.join("x")
    return None


def outcome(w, op):
    try:
        r = perform(w, op)
    except Boom as e:
        if e is not w.raised:
            return "another exception: %r" % (e,), None
        return e.args[0], None
    except TypeError:
        return "TypeError", None
    except Exception as e:
        return repr(e), None
    return "", r


def references(xs):
    return [sys.getrefcount(x) for x in xs]


def sequence(d, R):
    w = World(len(d["obs"][0]["c"]) if d["obs"] else 2, R)
    for j, (op, o) in enumerate(zip(d["ops"], d["obs"])):
        e, r = outcome(w, op)
        what = "operation %d" % (j + 1)
        if e != o["e"]:
            return "%s: %s, expected %s" % (what, e or "no failure", o["e"] or "none")
        if op["o"] in ("join", "str", "format", "escape") and (r != o["r"] or type(r) is not str):
            return "%s gave %r, expected %r" % (what, r, o["r"])
        c = w.contents()
        if c != o["c"]:
            return "after %s the buffers contain %r, expected %r" % (what, c, o["c"])
        w.raised = None
        # only this list refers to the objects given
        if w.given and not all(n <= 3 for n in references(w.given)):
            gc.collect()
            left = [x for x in w.given if sys.getrefcount(x) > 3]
            if left:
                return "after %s an object it was given is kept alive: %r" % (what, [getattr(x, "d", str(x)) for x in left])
        w.given.clear()
    strings = w.strings
    if strings:
        w.buf = []
        c = r = None       # a buffer of one string gives that string
        if max(references(strings)) > 3:
            gc.collect()
            if max(references(strings)) > 3:
                return "strings outlive the buffers"
    return None


def buffers_kept(R):
    """a buffer that was output is not kept alive by the one it was output to"""
    a, b = Buffer(), Buffer()
    b("text")
    n = sys.getrefcount(b)
    a(b, b)
    a.output_boolean_attr("x", b)
    a.output_boolean_attr(b, True)
    escape(b)
    if sys.getrefcount(b) != n:
        return "a buffer is kept alive by the one it was output to"


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    gc.collect()
    res = []
    for t in tasks:
        R = random.Random(t["seed"])
        out = dict(n=0, bad=[], type="%s.%s" % (Buffer.__module__, Buffer.__name__))
        what = buffers_kept(R)
        if what:
            out["bad"].append(dict(ops=[], what=what))
        for d in t["seqs"]:
            try:
                what = sequence(d, R)
            except AssertionError as e:
                what = str(e)
            out["n"] += 1
            if what and len(out["bad"]) < 10:
                out["bad"].append(dict(ops=d["ops"], what=what))
        res.append(out)
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
