#!/usr/bin/env python3
"""check.py Cxx: decides one property on the current working tree of /repo."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
from common import Run, Machinery  # noqa

MODULES = dict(C01="props_tk", C04="props_tk", C05="props_tk", C06="props_tk", C07="props_tk", C08="props_tk",
               C09="props_tk", C15="props_tk", C16="props_tk", C18="props_tk", C19="props_tk")
MODULES.update(C02="props_doc", C03="props_scan", C14="props_faults", C13="props_buffer", C11="props_loader", C12="props_loader", C10="props_iso", C17="props_extract", C20="props_pyramid")
LEVELS = {}


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = __import__(MODULES[prop])
    run = Run(prop, getattr(mod, "LEVEL", "model_checking"))
    try:
        run.assumptions += getattr(mod, "ASSUME", [])
        run.build()
        mod.CHECKS[prop](run)
        return run.finish()
    except Machinery as e:
        print("MACHINERY property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
