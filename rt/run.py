"""python rt/run.py P01 --out X [--seed N] [--tier quick] [--budget S]"""
import argparse
import importlib
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--progress")
    a = ap.parse_args()
    import logging
    logging.disable(logging.CRITICAL)
    from rt import core
    R = core.Recorder(a.prop, a.seed, a.tier, a.budget, a.progress)
    err = None
    try:
        mod = importlib.import_module("rt." + a.prop.lower())
        R.t0 = __import__("time").time()
        mod.run(R)
    except core.StopRun:
        pass
    except BaseException as e:   # harness failure (import error, renamed API): inconclusive, never a violation
        import traceback
        err = traceback.format_exc()
    rep = R.report()
    rep["harness_crash"] = err
    rep["rule"] = getattr(sys.modules.get("rt." + a.prop.lower()), "RULE", "")
    out = json.dumps(rep, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(out)
    else:
        print(out)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
