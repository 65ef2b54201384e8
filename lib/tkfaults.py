"""Loads templates written by spec/Faults.tla with the implementation under test."""
import json
import os
import random
import re
import signal
import sys
import tempfile
import traceback

from tonnikala.loader import FileLoader, Loader
from tonnikala.runtime.exceptions import TemplateSyntaxError


NAMES = re.compile(r"(?<=\s)(?:py:[a-z]+|title|class|id|href|alias|test|each|vars|names|function|name|value|alt|a)(?=\s*=\s*[\"'])"
                   r"|</?(?:py:[a-z]+|div|b|i|p|td|u|em|script|style)\b")


class Hang(BaseException):
    pass


def hang(*a):
    raise Hang()


def ranges(d):
    return "line%s %s" % ("s" if len(d["f"]) > 1 else "", " or ".join("%d-%d" % tuple(f) if f[0] != f[1] else "%d" % f[0] for f in d["f"]))


def judge(d, e, path):
    """what is wrong with the outcome"""
    if e is None:
        return "accepted, but there is a fault in " + ranges(d) if d["f"] else None
    if not d["f"]:
        return "well-formed, but rejected: %r" % (e,)
    if type(e) is not TemplateSyntaxError:
        return "TemplateSyntaxError expected, but %r raised" % (e,)
    inside = lambda n: isinstance(n, int) and any(a <= n <= b for a, b in d["f"])
    if e.filename != path:
        return "the error is in %r, not %r" % (path, e.filename)
    if not inside(e.lineno):
        return "the fault is in %s, but line %r is reported (%s)" % (ranges(d), e.lineno, e.message)
    last = traceback.extract_tb(e.__traceback__)[-1]
    if last.filename != path or not inside(last.lineno):
        return "the fault is in %s of %s, but the last entry of the traceback is %s:%s (%s)" % (ranges(d), path, last.filename, last.lineno, e.message)
    str(e)
    return None


def attempt(f):
    signal.alarm(10)
    try:
        f()
        return None
    except Hang:
        return RuntimeError("no answer within 10 s")
    except Exception as e:
        return e
    finally:
        signal.alarm(0)


def run(task, top):
    R = random.Random(task["seed"])
    out = dict(ok=0, error=0, via=0, bad=[])
    for j, d in enumerate(task["docs"]):
        s = d["s"]
        crlf = R.random() < .1
        if crlf and "\\\n" not in s:
            s = s.replace("\n", "\r\n")
        if R.random() < .15:
            # the case of names is not significant
            s = NAMES.sub(lambda m: R.choice([m.group().upper(), m.group().title(), m.group()]), s)
        dirn = os.path.join(top, "t%d" % j)
        os.mkdir(dirn)
        for n, t in (("base", "<html><py:block name='k'>k</py:block><py:block name='q'/></html>"), ("i", "<html><py:def function='f'>x</py:def></html>"), ("t.tk", s),
                     ("via-extends", "\n<py:extends href='t.tk'></py:extends>"), ("via-import", "<html>\n<py:import href='t.tk' alias='z'/></html>")):
            with open(os.path.join(dirn, n), "w", newline="") as f:
                f.write(t)
        path = os.path.join(dirn, "t.tk")
        fl = FileLoader([dirn], translatable=R.random() < .3)
        e = attempt(lambda: fl.load("t.tk"))
        w = judge(d, e, path)
        how = "loaded"
        if not w:
            out["ok" if e is None else "error"] += 1
            k = R.randrange(6)
            if k == 0:
                # a string, under a name of its own
                e = attempt(lambda: fl.load_string(s, filename="some name"))
                w = judge(d, e, "some name")
                how = "loaded as a string"
            elif k == 1:
                # again
                w = judge(d, attempt(lambda: fl.load("t.tk")), path)
                how = "loaded again"
            elif k == 2 and d["f"]:
                out["via"] += 1
                w = judge(d, attempt(lambda: fl.load("via-extends").render({})), path)
                how = "extended"
            elif k == 3 and d["f"]:
                out["via"] += 1
                w = judge(d, attempt(lambda: fl.load("via-import").render({})), path)
                how = "imported"
        if w and len(out["bad"]) < 20:
            out["bad"].append(dict(src=s, g=d["g"], how=how, what=how + ": " + w))
    return out


def main():
    signal.signal(signal.SIGALRM, hang)
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    res = []
    for t in tasks:
        with tempfile.TemporaryDirectory(dir=os.path.dirname(os.path.abspath(sys.argv[2]))) as top:
            res.append(run(t, top))
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
