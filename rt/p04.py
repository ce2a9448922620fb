"""P04: episode return / length / start reported by add, over random and exhaustive histories of every buffer class."""
import itertools
import numpy as np
from rt import bufmodel as bm

RULE = ("histories of add / reset (with and without keeping statistics) / bulk transfer; the reported return, length and start index "
        "of every add are compared with a per-sub-buffer running episode; non-trivial when at least one episode ends")


def op(R):
    def f(pair, what, got, want):
        if what != "add":
            return
        bm.check_add(R, pair, got, want)
    return f


def run(R):
    with R.family("exhaustive: one buffer", 0.35):
        for cap in (1, 2, 3, 5):
            for seq in itertools.product("aterku", repeat=5 if not R.thorough else 6):
                if R.left() < 0.65 * R.budget:
                    break
                if seq[0] not in "at":
                    continue
                with R.case("ops", cap=cap, ops="".join(seq)):
                    rng = R.rng("ex", cap, seq)
                    pair = bm.Pair("single", [cap], bm.RowMaker(rng, "scalar", extra=False))
                    f = op(R)
                    for c in seq:
                        if c in "ate":
                            row = pair.rows(False)
                            row["terminated"], row["truncated"] = c == "t", c == "e"
                            f(pair, "add", *pair.add(rows=[row], stacked=bool(rng.rand() < 0.5)))
                        elif c == "u":
                            src = bm.Pair("single", [3], pair.rows)
                            for _ in range(int(rng.randint(1, 5))):
                                src.add()
                            pair.transfer(src)
                        else:
                            pair.reset(c == "k")
    kinds = ["vector", "single", "cached", "manager", "priovec", "prio", "hervec", "her", "vector-ceil"]
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 2500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            with R.case("history", k=k, kind=kind):
                # a bulk transfer in the middle of a running episode leaves no episode to speak of: the model only moves the
                # start when no episode is running
                rows = bm.RowMaker(rng, "goal" if kind.startswith("her") else "vec", p_done=float(rng.choice([0.08, 0.3, 0.6])), extra=False)
                bm.random_history(R, rng, kind, int(rng.randint(5, 60)), op(R), rows=rows, transfers=bool(rng.rand() < 0.4))
