#!/usr/bin/env python3
import importlib
import logging
import json
import os
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)


def main():
    prop = sys.argv[1]
    from pyvc import check
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    for c in man["checks"]:
        check.LEVEL[c["property"]] = c["level"]
    ctx = check.CheckCtx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = rp["violations"][0]["replay"]
        if r and "scenario" in r:
            ctx.replay_only = (r["scenario"], r["case_seed"])
    m = importlib.import_module("contracts." + prop.lower())
    what = os.environ.get("VERIF_PART", "both")
    if ctx.replay_only is None and what in ("both", "prove") and hasattr(m, "prove"):
        m.prove(ctx)
        ctx.escalate = any(o["status"] in ("undecided", "failed") and not o.get("open") for o in ctx.obls)
        if ctx.escalate:
            ctx.budget *= 2 if ctx.tier == "quick" else 1
    if what in ("both", "concrete") and hasattr(m, "concrete"):
        ctx.budget += time.time() - ctx.t0     # the time of the deductive part is its own
        ctx.budget = min(ctx.budget, 840.0)
        m.concrete(ctx)
    sys.exit(ctx.finish())


if __name__ == "__main__":
    import numpy
    numpy.seterr(all="ignore")
    main()
