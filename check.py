#!/usr/bin/env python3
"""python3-vt check.py P01 [quick|thorough]: decide one property on /repo's current tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(VT):
    VT = "python3-vt"
RT_ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": "", "OMP_NUM_THREADS": "1",
          "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "SDL_VIDEODRIVER": "dummy", "MPLBACKEND": "Agg",
          "NUMBA_CACHE_DIR": ""}
LEVELS = {"refuted": 0}


def sh_env():
    e = dict(os.environ)
    e.update({k: v for k, v in RT_ENV.items() if v or k == "CUDA_VISIBLE_DEVICES"})
    e["PYTHONPATH"] = REPO
    return e


class Job:
    def __init__(self, args, out, limit, env=None, cwd=HERE, progress=None):
        self.args, self.out, self.limit, self.env, self.cwd, self.progress = args, out, limit, env, cwd, progress
        self.p = None
        self.killed = None

    def start(self):
        self.t0 = time.time()
        self.log = open(self.out + ".log", "wb")
        self.p = subprocess.Popen(self.args, stdout=self.log, stderr=subprocess.STDOUT, env=self.env, cwd=self.cwd,
                                  start_new_session=True)

    def poll(self):
        if self.p.poll() is not None:
            self.log.close()
            return True
        if time.time() - self.t0 > self.limit:
            self.kill("time limit")
            return True
        return False

    def kill(self, why):
        import signal
        self.killed = why
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.log.close()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except Exception:
            return None


def run_jobs(jobs, width, stop=None):
    """run all jobs, at most `width` at a time; once stop() answers true the remaining ones are given up"""
    todo, act = list(jobs), []
    while todo or act:
        if stop and stop():
            for j in act:
                j.kill("a failing input was found")
            for j in todo:
                j.killed = "a failing input was found"
            return
        while todo and len(act) < width:
            j = todo.pop(0)
            j.start()
            act.append(j)
        act = [j for j in act if not j.poll()]
        time.sleep(0.05)


def rt_job(prop, seed, tier, budget, tmp, tag):
    out = os.path.join(tmp, f"rt_{tag}.json")
    prog = os.path.join(tmp, f"rt_{tag}.progress")
    # generous hard limit: the harness stops itself at its budget; only a hang runs into this
    return Job([VENV, os.path.join(HERE, "rt", "run.py"), prop, "--out", out, "--seed", str(seed), "--tier", tier,
                "--budget", str(budget), "--progress", prog], out, budget * 2 + 150, env=sh_env(), progress=prog)


def rt_result(job, prop):
    """-> report; a run that hung inside one case counts as a violation (the code under test does not terminate)"""
    r = job.result()
    if r is not None:
        return r
    rep = {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "families": {}, "samples": [], "violations": [],
           "harness_errors": [], "known": [], "notes": [], "checks": 0, "rule": "", "wall": 0}
    try:
        with open(job.progress) as f:
            p = json.load(f)
    except Exception:
        p = None
    if job.killed and p and time.time() - p["t"] > 60:
        rep["violations"].append({"family": p["family"], "case": p["case"], "inputs": p["inputs"], "traceback": "",
                                  "message": f"does not terminate: still in this case after {time.time() - p['t']:.0f} s"})
        rep["evaluations"] = 1
    elif not job.killed and p and job.p.returncode not in (0, 1, 2):
        rep["violations"].append({"family": p["family"], "case": p["case"], "inputs": p["inputs"], "traceback": "",
                                  "message": f"the interpreter died with status {job.p.returncode} inside this case"})
        rep["evaluations"] = 1
    else:
        rep["harness_crash"] = "no report; " + open(job.out + ".log", errors="replace").read()[-1500:]
    return rep


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        code = decide(prop, tier, seed, thorough, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return code


def decide(prop, tier, seed, thorough, tmp, t0):
    import contracts
    props = {}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            d = json.loads(line)
            props[d["id"]] = d
    items = contracts.for_property(prop)
    pbudget = 700 if thorough else 240
    tmo = 20000 if thorough else 8000
    jobs = []
    for i, (kind, mod, name) in enumerate(items):
        out = os.path.join(tmp, f"proof_{i}.json")
        jobs.append(Job([VT, "-m", "pyvc.worker", kind, mod, name, out, str(tmo), str(pbudget)], out, pbudget + 40,
                        env=dict(os.environ, VERIF_REPO=REPO)))
    has_rt = os.path.exists(os.path.join(HERE, "rt", prop.lower() + ".py"))
    rbudget = 300 if thorough else 30
    rts = [rt_job(prop, seed, tier, rbudget, tmp, "0")] if has_rt else []
    if thorough and has_rt:
        rts += [rt_job(prop, seed + 1000 * k, tier, rbudget, tmp, str(k)) for k in range(1, 4)]
    found = {}

    def stop():
        # a failing input decides the property: no need to wait for the remaining proofs (checked once per finished run)
        for j in rts:
            if j not in found and j.p is not None and j.p.poll() is not None:
                found[j] = bool((j.result() or {}).get("violations"))
        if len([j for j in found if j != "since"]) == len(rts) and any(found.values()):
            found.setdefault("since", time.time())
            return time.time() - found["since"] > 20     # let the failing obligation be named too if that is quick
        return False

    run_jobs(rts + jobs, 8, stop)
    proofs = []
    for j, (kind, mod, name) in zip(jobs, items):
        r = j.result()
        if r is None:
            r = {"contract": name, "module": mod, "kind": kind, "status": "unsupported", "obligations": [], "paths": 0,
                 "reason": "verifier " + (j.killed or "gave no result"), "wall": pbudget}
        proofs.append(r)
    reps = [rt_result(j, prop) for j in rts]
    violations = [v for r in reps for v in r["violations"]]
    refuted = refuted_obligations(proofs)
    if refuted and not violations and has_rt:
        # search for the concrete input behind the refuted obligation: other seeds, larger budget
        more = [rt_job(prop, seed + 7919 * k, "thorough" if k > 2 else tier, 60, tmp, f"x{k}") for k in range(1, 5)]
        run_jobs(more, 4)
        xs = [rt_result(j, prop) for j in more]
        reps += xs
        violations = [v for r in xs for v in r["violations"]]
    ev = evidence(prop, props.get(prop, {}), tier, seed, items, proofs, reps, violations, refuted, t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in known_findings(prop, reps):
        print(line)
    for r in proofs:
        if r["status"] != "proved":
            print(f"NOT-PROVED {r['module']}.{r['contract']}: {r['status']} {r.get('reason', '')[:200]}")
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print(f"    obligation {o['contract']} / {o['name']} ({o['kind']}): {o['status']} {o['reason'][:120]}")
    for r in reps:
        if r.get("harness_crash"):
            print("HARNESS-INCONCLUSIVE", str(r["harness_crash"])[-600:])
        for h in r.get("harness_errors", [])[:3]:
            print("HARNESS-INCONCLUSIVE", h[:600])
    nob = sum(len(r["obligations"]) for r in proofs)
    ndis = sum(o["status"] == "proved" for r in proofs for o in r["obligations"])
    print(f"{prop}: {ndis}/{nob} obligations discharged over {sum(r['kind'] == 'contract' for r in proofs)} contracts; "
          f"{sum(r['evaluations'] for r in reps)} bounded evaluations on the real code; {time.time() - t0:.0f} s")
    if violations or refuted:
        path = write_replay(prop, seed, tier, violations, refuted)
        tail = "" if violations else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}")
        return 1
    return 0


def refuted_obligations(proofs):
    """obligations with a counter-model, in contracts whose loop invariants all hold (so the model is a real one)"""
    out = []
    for r in proofs:
        obs = r["obligations"]
        if any(o["kind"] == "inv" and o["status"] != "proved" for o in obs):
            continue
        if r["status"] == "unsupported":
            continue
        out += [dict(o, target=r.get("target")) for o in obs if o["status"] == "refuted"]
    return out


def write_replay(prop, seed, tier, violations, refuted):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.txt")
    with open(path, "w") as f:
        f.write(f"property {prop}\nreproduce: cd {HERE} && VERIF_SEED={seed} {VENV} rt/run.py {prop} --seed {seed} --tier {tier}\n\n")
        for v in violations:
            f.write(f"FAILING INPUT (real code)\n family: {v['family']}  case: {v['case']}\n inputs:\n")
            for k, x in v["inputs"].items():
                f.write(f"   {k} = {x}\n")
            f.write(f" what failed: {v['message']}\n{v['traceback']}\n\n")
        for o in refuted:
            f.write(f"FAILED OBLIGATION {o['contract']} / {o['name']} ({o['kind']}) of {o.get('target')}\n"
                    f" back end: {o['backend']}  status: {o['status']}  {o['reason']}\n goal: {o.get('goal')}\n"
                    f" counter-model: {json.dumps(o.get('model'), default=str)[:4000]}\n\n")
    return path


def known_findings(prop, reps):
    p = os.path.join(HERE, "known-findings.json")
    seen = {k for r in reps for k in r.get("known", [])}
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f).get("findings", []):
                if e["property"] == prop and e["id"] in seen:
                    out.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    return out


def evidence(prop, meta, tier, seed, items, proofs, reps, violations, refuted, t0):
    obs = [o for r in proofs for o in r["obligations"]]
    ndis = sum(o["status"] == "proved" for o in obs)
    backends = {}
    for o in obs:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    contract_recs = [r for r in proofs if r["kind"] == "contract"]
    proved = [r for r in contract_recs if r["status"] == "proved"]
    level = "proof" if obs else "exploration"
    trusted = ["pyvc (this verifier: /verif/pyvc), its models of numpy/torch/builtins (/verif/pyvc/npmodel.py)",
               "z3 5.3.2 (python bindings), cvc5 1.1.2", "CPython/numba/torch execute the source as written",
               "floating point is treated as real arithmetic, machine integers as mathematical integers"]
    for r in contract_recs:
        for t in r.get("trusted", []):
            s = f"{r['contract']}: {t}"
            if s not in trusted:
                trusted.append(s)
    ext = sorted({e for r in contract_recs for e in r.get("externals", [])})
    n_eval = sum(r["evaluations"] for r in reps)
    cov = {
        "obligations": len(obs), "discharged": ndis,
        "checker_cmd": f"cd {HERE} && VERIF_SEED={seed} python3-vt check.py {prop} {tier}",
        "trusted_base": trusted,
        "backends": backends, "solver_time_s": round(sum(r.get("solver_time", 0) for r in proofs), 1),
        "solver_queries": sum(r.get("queries", 0) for r in proofs),
        "functions_under_contract": [{"function": r.get("target"), "contract": f"{r['module']}.{r['contract']}",
                                      "status": r["status"], "reason": r.get("reason", ""), "paths": r.get("paths"),
                                      "obligations": len(r["obligations"]), "says": r.get("about", ""),
                                      "discharged": sum(o["status"] == "proved" for o in r["obligations"]),
                                      "wall_s": r.get("wall")} for r in contract_recs],
        "functions_proved": len(proved),
        "functions_inlined_from_source": sorted({i for r in contract_recs for i in r.get("inlined", [])}),
        "lemmas": [f"{o['contract']}: {o['name']}" for r in proofs if r["kind"] == "lemma" for o in r["obligations"]],
        "assumed_external_contracts": ext,
        "undischarged": [{"obligation": f"{o['contract']} / {o['name']}", "kind": o["kind"], "status": o["status"],
                          "reason": o["reason"]} for o in obs if o["status"] != "proved"],
        "evaluations": n_eval,
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in reps[:1]),
        "rule": (reps[0].get("rule", "") if reps else "") or "no executable side",
        "samples": reps[0]["samples"][:4] if reps else [],
        "bounded_stand_in": {"label": "BOUNDED: contracts evaluated on the real code, not counted as proved",
                             "checks": sum(r.get("checks", 0) for r in reps),
                             "families": reps[0]["families"] if reps else {},
                             "inconclusive": sum(len(r.get("harness_errors", [])) + bool(r.get("harness_crash")) for r in reps),
                             "notes": reps[0].get("notes", []) if reps else []},
    }
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": trusted[2:], "wall_s": round(time.time() - t0, 1),
            "violations": len(violations) + (len(refuted) if not violations else 0)}


if __name__ == "__main__":
    sys.exit(main())
