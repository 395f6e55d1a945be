"""python -m vlib.worker PROP FACET OUT [--journal F] [--replay CASEFILE]"""
import ast
import faulthandler
import importlib
import json
import logging
import math
import os
import sys
import traceback
import warnings


def lit(s):
    return eval(s, {"__builtins__": {}}, {"nan": math.nan, "inf": math.inf})


def main():
    prop, name, out = sys.argv[1:4]
    opts = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    faulthandler.enable()
    os.chdir(os.environ["VERIF_SCRATCH"])
    from vlib import native
    native.install()
    import random
    import numpy as np
    from vlib import engine
    importlib.import_module("vlib.props." + prop.lower())
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    f = engine.FACETS[prop][name]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = engine.Run(f, tier, seed, opts.get("--journal"), int(opts.get("--shard", 0)))
    if "--replay" in opts:
        case = lit(open(opts["--replay"]).read())
        res = {"facet": name, "fail": None}
        try:
            run.one(case)
        except BaseException as e:
            res["fail"] = {"case": repr(case), "text": "".join(traceback.format_exception(e))[-6000:]}
    else:
        res = run.execute()
    with open(out + ".tmp", "w") as fd:
        json.dump(res, fd)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


main()
