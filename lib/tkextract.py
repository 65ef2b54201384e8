"""Extracts the messages of templates, and renders them (tkdrive)."""
import io
import json
import os
import re
import shutil
import sys
import tempfile

import tkdrive
from tonnikala.i18n import extract_tonnikala, TonnikalaExtractor, Options

# characters that the specification does not have
STAND = {"QE": "\u00e4", "QU": "\u2192\U0001d11e", "QR": "\r"}


def put(s):
    # the printer writes any character as a reference now and then
    for k, v in STAND.items():
        s = re.sub("".join("(?:%s|&#0*%d;|&#[xX]0*(?i:%x);)" % (c, ord(c), ord(c)) for c in k), v, s)
    return s


def back(s):
    for k, v in STAND.items():
        s = s.replace(v, k)
    return s


def encode(kind, *parts):
    """one message: its context, singular and plural form (spec/Extract.tla: Message)"""
    if kind == "gettext" and len(parts) == 1:
        return parts[0]
    if kind in ("ngettext", "pgettext") and len(parts) == 2:
        return "Z%s:%s:%s" % (kind[0], parts[0], parts[1])
    return "Z?:%s%r" % (kind, parts)


def of_lingua(m):
    if m.msgctxt and m.msgid_plural:
        return encode("npgettext", m.msgctxt, m.msgid, m.msgid_plural)
    if m.msgctxt:
        return encode("pgettext", m.msgctxt, m.msgid)
    if m.msgid_plural:
        return encode("ngettext", m.msgid, m.msgid_plural)
    return m.msgid


def extract(src, d):
    """what the interfaces for Babel and lingua give; they have to agree"""
    path = os.path.join(d, "extracted.tk")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(src)
    try:
        with open(path, "rb") as f:
            a = [encode(m[1], *m[2]) for m in extract_tonnikala(f, [], [], {})]
        b = [encode(m[1], *m[2]) for m in extract_tonnikala(io.StringIO(src, newline=""), ["gettext"], ["NOTE:"], {"x": "y"})]
        c = [of_lingua(m) for m in TonnikalaExtractor()(path, Options())]
    except (Exception, SystemExit) as e:
        return [], "extraction failed: %r" % (e,)
    if not set(a) == set(b) == set(c):
        return a, "extraction from bytes, text and file differ: %r, %r, %r" % (a, b, c)
    return [back(x) for x in a], None


def run(task, base):
    task["files"] = {n: put(s) for n, s in task["files"].items()}
    obs = tkdrive.run(task, base)
    d = tempfile.mkdtemp(dir=base)
    try:
        got = [extract(task["files"][n], d) for n in task["order"]]
    finally:
        shutil.rmtree(d, True)
    for o in obs:
        o["out"] = back(o["out"])
        o["log"] = [back(x) for x in o["log"]]
        o["extracted"] = [g[0] for g in got]
        o["failure"] = "; ".join(g[1] for g in got if g[1])
    return obs


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    base = os.path.abspath(tempfile.mkdtemp(dir="."))
    res = [run(t, base) for t in tasks]
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
