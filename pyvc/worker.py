"""python3-vt -m pyvc.worker kind module name out.json [timeout_ms] [budget_s]: verify one contract (or lemma set)"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    kind, mod, name, out = sys.argv[1:5]
    tmo = int(sys.argv[5]) if len(sys.argv) > 5 else 8000
    budget = float(sys.argv[6]) if len(sys.argv) > 6 else 300
    from pyvc.engine import Verifier
    t0 = time.time()
    rec = {"contract": name, "module": mod, "kind": kind, "status": "error", "reason": "", "obligations": [], "paths": 0}
    try:
        m = importlib.import_module("contracts." + mod)
        v = Verifier(tmo)
        v.deadline = t0 + budget
        if kind == "lemma":
            getattr(m, name)(v)
            rec["status"] = "proved" if v.obligations and all(o.status == "proved" for o in v.obligations) else "undecided"
            rec["target"] = "lemmas"
        else:
            con = getattr(m, name)()
            r = v.verify(con)
            rec.update(status=r["status"], reason=r["reason"], target=r["target"], paths=r["paths"], cases=r["cases"])
            rec["trusted"] = list(con.trusted)
            rec["about"] = (con.__doc__ or "").strip().split("\n")[0]
        rec["obligations"] = [{"contract": o.contract, "name": o.name, "kind": o.kind, "status": o.status,
                               "backend": o.backend, "time": round(o.time, 3), "reason": str(o.reason or "")[:300],
                               **({"model": o.model, "goal": o.goal} if o.status != "proved" else {})}
                              for o in v.obligations]
        rec["inlined"] = sorted(v.inlined)
        rec["used_contracts"] = sorted(v.used_contracts)
        rec["externals"] = sorted(v.externals_used)
        rec["queries"] = v.solver.n_queries
        rec["solver_time"] = round(v.solver.time, 2)
    except BaseException as e:   # an engine crash is 'not decided', never a violation
        rec["status"] = "unsupported"
        rec["reason"] = f"engine: {type(e).__name__}: {e}"
        rec["traceback"] = traceback.format_exc()[-3000:]
    rec["wall"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(rec, f, default=str)


main()
