"""Executable side of the contracts: the same pre/postconditions evaluated on the REAL code of /repo.

Run under the repository's interpreter (/opt/venv).  Bounded-exhaustive plus seeded cases; every case is independent of
the code under test (the oracle is written out in the harness).  A failing case is a concrete counterexample.
"""
import contextlib
import hashlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class StopRun(Exception):
    pass


class CaseTimeout(Exception):
    pass


def show(x, depth=0):
    import numpy as np
    try:
        if isinstance(x, np.ndarray):
            return f"np.array({np.array2string(x, separator=',', threshold=60)}, {x.dtype})"
        if isinstance(x, dict):
            return "{" + ", ".join(f"{k!r}: {show(v, depth + 1)}" for k, v in x.items()) + "}"
        if isinstance(x, (list, tuple)):
            o, c = ("[", "]") if isinstance(x, list) else ("(", ")")
            return o + ", ".join(show(v, depth + 1) for v in x[:60]) + ("..." if len(x) > 60 else "") + c
        return repr(x)[:2000]
    except Exception as e:
        return f"<unprintable {type(x).__name__}: {e}>"


class Recorder:
    def __init__(self, prop, seed, tier, budget, progress=None):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.checks = 0
        self.distinct = set()
        self.nontrivial = 0
        self.families = {}
        self.samples = []
        self.violations = []
        self.harness_errors = []
        self.known = []
        self.progress = progress
        self.notes = []
        self._known_ids = set()
        self.cur = None
        self.thorough = tier == "thorough"
        self.fam_t0 = self.t0
        self.fam_budget = 1e9

    # ---------------------------------------------------------------- randomness
    def rng(self, *key):
        """np RandomState + random.Random determined by the seed and the key only"""
        import numpy as np
        h = hashlib.sha1(repr((self.seed, self.prop) + key).encode()).digest()
        s = int.from_bytes(h[:4], "big")
        return np.random.RandomState(s)

    def seed_all(self, *key):
        import numpy as np
        h = hashlib.sha1(repr((self.seed, self.prop, "global") + key).encode()).digest()
        s = int.from_bytes(h[:4], "big")
        np.random.seed(s)
        random.seed(s)
        if "torch" in sys.modules:
            sys.modules["torch"].manual_seed(s)

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---------------------------------------------------------------- families and cases
    @contextlib.contextmanager
    def family(self, name, share=None):
        """a group of cases with a share of the time budget"""
        t = time.time()
        self.fam = name
        self.fam_t0 = t
        self.fam_budget = max(1.0, self.budget * share) if share else 1e9
        n0 = self.evaluations
        try:
            yield
        except StopRun:
            pass
        finally:
            f = self.families.setdefault(name, {"cases": 0, "seconds": 0.0})
            f["cases"] += self.evaluations - n0
            f["seconds"] = round(f["seconds"] + time.time() - t, 2)

    def cases(self, n, share_n=None):
        """case numbers; stops when the time budget of the family (or of the run) is used up"""
        k = 0
        while n is None or k < n:
            if self.left() < 0 or time.time() - self.fam_t0 > self.fam_budget:
                return
            yield k
            k += 1

    @contextlib.contextmanager
    def case(self, _name="", _trivial=False, **inputs):
        """one evaluated case; the inputs are what a replay needs"""
        if self.left() < -30:
            raise StopRun()
        self.evaluations += 1
        self.cur = (self.fam, _name, inputs)
        if self.progress:
            with open(self.progress, "w") as f:
                f.write(json.dumps({"family": self.fam, "case": _name, "inputs": {k: show(v) for k, v in inputs.items()},
                                    "t": time.time()}))
        key = hashlib.md5((self.fam + "|" + _name + "|" + "|".join(f"{k}={show(v)}" for k, v in inputs.items())).encode()).digest()
        if key not in self.distinct:
            self.distinct.add(key)
            if not _trivial:
                self.nontrivial += 1
        try:
            yield self
        except Violation as e:
            self._violation(str(e), traceback.format_exc())
        except (StopRun, KeyboardInterrupt):
            raise
        except BaseException as e:   # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            inner_repo = None
            for fr in reversed(tb):
                fn = os.path.realpath(fr.filename)
                if fn.startswith(os.path.realpath(REPO) + "/tianshou"):
                    inner_repo = fr
                    break
                if "/rt/" in fn:
                    break
            if isinstance(e, (MemoryError, CaseTimeout)):
                inner_repo = None
            if inner_repo is not None:
                self._violation(f"unexpected {type(e).__name__}: {e} at {inner_repo.filename}:{inner_repo.lineno} "
                                f"({inner_repo.name})", traceback.format_exc())
            else:
                if len(self.harness_errors) < 20:
                    self.harness_errors.append(f"{self.fam}/{_name}: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
        else:
            if len(self.samples) < 4 and (self.evaluations < 3 or self.evaluations % 37 == 0):
                self.samples.append({"family": self.fam, "case": _name, "inputs": {k: show(v)[:600] for k, v in inputs.items()}})

    def expect(self, cond, msg, **detail):
        self.checks += 1
        if not cond:
            raise Violation(msg + "".join(f"\n    {k} = {show(v)}" for k, v in detail.items()))

    def equal(self, got, want, msg, tol=0.0, **detail):
        import numpy as np
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if tol and g.dtype.kind in "fiub" and w.dtype.kind in "fiub":
                ok = bool(np.allclose(g.astype(float), w.astype(float), rtol=tol, atol=tol, equal_nan=True))
            else:
                ok = bool(np.array_equal(g, w))
        if not ok:
            raise Violation(f"{msg}\n    got  = {show(got)}\n    want = {show(want)}" +
                            "".join(f"\n    {k} = {show(v)}" for k, v in detail.items()))

    def raises(self, exc, fn, msg, **detail):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}: {e} instead of {exc}" +
                            "".join(f"\n    {k} = {show(v)}" for k, v in detail.items())) from e
        raise Violation(f"{msg}: accepted, returned {show(r)}" + "".join(f"\n    {k} = {show(v)}" for k, v in detail.items()))

    def _violation(self, msg, tb):
        fam, name, inputs = self.cur
        for kid, pat in KNOWN.get(self.prop, {}).items():
            if pat(fam, name, inputs, msg):
                if kid not in self._known_ids:
                    self._known_ids.add(kid)
                    self.known.append(kid)
                return
        self.violations.append({"family": fam, "case": name, "inputs": {k: show(v) for k, v in inputs.items()},
                                "message": msg, "traceback": tb[-3000:]})
        if len(self.violations) >= 3:
            raise StopRun()

    def report(self):
        return {"property": self.prop, "seed": self.seed, "tier": self.tier, "evaluations": self.evaluations,
                "checks": self.checks, "distinct": len(self.distinct), "distinct_nontrivial": self.nontrivial,
                "families": self.families, "samples": self.samples, "violations": self.violations,
                "harness_errors": self.harness_errors, "known": self.known, "notes": self.notes,
                "wall": round(time.time() - self.t0, 2)}


# property -> {finding id: predicate(family, case, inputs, message)};  mirrors known-findings.json
KNOWN = {}
