"""Compiles templates to JavaScript with the implementation under test and runs
them under node.  usage: tkjs.py in.json out.json, as tkdrive.py"""
import json
import os
import subprocess
import sys

from tonnikala.loader import JSLoader
from tkdrive import norm

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(sys.argv[1]) as f:
        tasks = json.load(f)
    loader = JSLoader()
    for t in tasks:
        t["js"], t["failed"] = {}, ""
        for name, src in t["files"].items():
            try:
                t["js"][name] = loader.load_string(src, filename=name)
            except Exception as e:
                t["failed"] = "%s: %s: %s" % (name, type(e).__name__, e)
    with open("js.json", "w") as f:
        json.dump(tasks, f)
    with open(os.path.join(os.environ["TK_PKG"], "tonnikala", "runtime", "javascript.js")) as f:
        with open("runtime.js", "w") as g:
            g.write(f.read())
    subprocess.run(["node", "--stack-size=4000", os.path.join(HERE, "tkjs.js"), "js.json", "runtime.js", "jsout.json"], check=True)
    with open("jsout.json") as f:
        res = json.load(f)
    for os_ in res:
        for o in os_:
            o["out"] = norm(o["out"])
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)


main()
