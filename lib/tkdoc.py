"""Writes documents as markup in different ways and renders them with the
implementation under test."""
import json
import random
import sys

from tonnikala.loader import Loader
from tonnikala.runtime.exceptions import TemplateSyntaxError

NAMED = {"<": ["&lt;", "&#60;", "&#x3c;", "&#X3C;", "&LT;"], ">": ["&gt;", "&#62;"], "&": ["&amp;", "&#38;", "&#x26;", "&AMP;"],
         '"': ["&quot;", "&#34;", "&#x22;"], "'": ["&#39;", "&#x27;", "&apos;"], "é": ["&eacute;", "&#233;", "&#xE9;"], "©": ["&copy;", "&#169;"],
         "→": ["&rarr;", "&#x2192;"], "😀": ["&#128512;", "&#x1F600;"], "$": ["$$"],
         "€": ["&euro;", "&#8364;", "&#x20aC;", "&#128;", "&#x80;"], "“": ["&ldquo;", "&#147;", "&#8220;"], "™": ["&trade;", "&TRADE;", "&#x99;", "&#8482;"],
         "\ufffd": ["&#0;", "&#xD800;", "&#x000;", "&#65533;"], "\xa0": ["&nbsp;", "&#160;", "&#xa0;"], "≧̸": ["&ngE;"], "Ÿ": ["&Yuml;", "&#159;", "&#376;"]}


class Writer:
    def __init__(self, R):
        self.R = R
        self.plain = R.random() < .3        # as little as possible written as references

    def name(self, n):
        R = self.R
        return n.upper() if R.random() < .1 else n

    def text(self, s, after=""):
        """text in an element; what follows decides whether < and & can stand for themselves"""
        R, o = self.R, ""
        for j, c in enumerate(s):
            nxt = (s + after)[j + 1:j + 2]
            must = c == "<" and not (nxt and nxt in " 0123456789&\n>=") or c == "&" and not (nxt and nxt in " \n")
            if nxt == "&" and c == "<":
                must = True
            if c == "$":
                o += "$$"
            elif c in NAMED and (must or c in "<&>\"'" and R.random() < (.1 if self.plain else .5) or R.random() < .2):
                o += R.choice(NAMED[c])
            elif R.random() < .02 and ord(c) < 128 and c not in "\r\n":
                o += "&#%d;" % ord(c)
            else:
                o += c
        return o

    def attr(self, a):
        R = self.R
        n = self.name(a["n"])
        if a["b"]:
            return n
        v = a["v"]
        if v and all(c.isalnum() or c in "-_.:" for c in v) and R.random() < .3:
            return n + R.choice(["=", "=", " = "]) + v
        q = R.choice("\"'")
        o = ""
        for j, c in enumerate(v):
            nxt = v[j + 1:j + 2]
            must = c == q or c == "&" and not (nxt and nxt in " \n")
            if c == "$":
                o += "$$"
            elif c in NAMED and (must or R.random() < (.05 if self.plain else .3)):
                o += R.choice(NAMED[c])
            else:
                o += c
        return n + R.choice(["=", "=", "=", " =", "= ", "\n="]) + q + o + q

    def tag(self, e):
        R = self.R
        o = "<" + self.name(e["n"])
        for a in e["a"]:
            o += R.choice([" ", " ", "  ", "\n", "\t"]) + self.attr(a)
        return o

    def document(self, evs):
        R, o = self.R, ""
        for j, e in enumerate(evs):
            k = e["k"]
            if k == "start":
                o += self.tag(e)
                if R.random() < .1:
                    o += R.choice([" ", "\n"])
                o += ">"
            elif k == "self":
                o += self.tag(e)
                # an unquoted value would take the slash
                o += R.choice([" />", "/>", "\n/>"]) if o[-1] in "\"'" or not e["a"] else " />"
            elif k == "end":
                o += "</" + self.name(e["n"]) + R.choice(["", "", "", " ", "\n"]) + ">"
            elif k == "text":
                o += self.text(e["s"])
            elif k == "raw":
                o += self.tag(e) + ">" + e["s"] + "</" + self.name(e["n"]) + R.choice(["", "", " "]) + ">"
            elif k in ("comment", "hidden"):
                o += "<!--" + e["s"] + "-->"
            elif k == "doctype":
                o += "<!" + R.choice(["DOCTYPE", "doctype", "Doctype"]) + R.choice([" ", " ", "\n"]) + e["s"] + ">"
        return o


LOADER = Loader()


def observe(src):
    try:
        t = LOADER.load_string(src)
    except TemplateSyntaxError:
        return ("syntax",)
    except Exception as e:
        return ("load", type(e).__name__, str(e))
    try:
        return ("ok", str(t.render({})))
    except Exception as e:
        return ("raise", type(e).__name__, str(e))


def run(task):
    R = random.Random(task["seed"])
    bad, n = [], dict(ok=0, error=0)
    for d in task["docs"]:
        want = ("syntax",) if d["e"] else ("ok", d["o"])
        for v in range(task["variants"]):
            src = Writer(R).document(d["d"])
            got = observe(src)
            n["error" if d["e"] else "ok"] += 1
            if got != want:
                bad.append(dict(src=src, events=d["d"], expected=want, observed=got))
                break
        if len(bad) > 10:
            break
        if not d["e"] and "$" not in d["o"] and not any(x["k"] == "doctype" for x in d["d"]):
            # what was rendered is a document that renders to itself
            again = observe(d["o"])
            if again != want:
                bad.append(dict(src=d["o"], events=d["d"], expected="itself", observed=again))
    return dict(bad=bad, **n)


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    with open(sys.argv[2], "w") as f:
        json.dump([run(t) for t in tasks], f)


main()
