"""P03: contents, order and length of replay buffers over random and exhaustive histories."""
import itertools
import numpy as np
from rt import bufmodel as bm

RULE = ("histories of add (plain, stacked, for a selection of sub-buffers) / reset / bulk transfer over every buffer class and "
        "small capacities; non-trivial when at least two transitions are stored at some point")


def state(R, pair):
    m = pair.model
    R.equal(len(pair.real), m.length(), "length", history=pair.log)
    if not pair.log:
        return
    if not pair.kind.startswith("her"):   # sampling a hindsight buffer relabels the data until its next add (P10)
        got = pair.real.sample_indices(0)
        R.equal(np.asarray(got, int), np.array(m.all(), int), "all stored indices, oldest first", history=pair.log)
    if m.length():
        bm.check_rows(R, pair)
    if pair.kind.startswith("her"):
        got = pair.real.sample_indices(0)
        R.equal(np.asarray(got, int), np.array(m.all(), int), "all stored indices, oldest first", history=pair.log)


def op(R):
    def f(pair, what, got, want):
        if what == "add":
            R.equal(np.asarray(got[0]).ravel(), np.array([w[0] for w in want]), "reported index", history=pair.log)
        elif what == "update":
            R.equal(np.asarray(got, int).ravel(), np.array(want, int), "indices reported by a bulk transfer", history=pair.log)
        state(R, pair)
    return f


def run(R):
    with R.family("exhaustive: adds and transfers on a single buffer", 0.3):
        for cap in (1, 2, 3, 4):
            for seq in itertools.product("arkt", repeat=5 if not R.thorough else 6):
                if R.left() < 0.7 * R.budget:
                    break
                if seq[0] != "a":
                    continue
                with R.case("ops", cap=cap, ops="".join(seq)):
                    rng = R.rng("ex", cap, seq)
                    pair = bm.Pair("single", [cap], bm.RowMaker(rng))
                    f = op(R)
                    for c in seq:
                        if c == "a":
                            f(pair, "add", *pair.add(stacked=bool(rng.rand() < 0.5)))
                        elif c == "r":
                            pair.reset()
                            f(pair, "reset", None, None)
                        elif c == "k":
                            pair.reset(True)
                            f(pair, "reset", None, None)
                        else:
                            src = bm.Pair("single", [int(rng.randint(1, 5))], pair.rows)
                            for _ in range(int(rng.randint(1, 7))):
                                src.add()
                            f(pair, "update", *pair.transfer(src))
    kinds = ["single", "vector", "prio", "manager", "vector-ceil", "priovec", "her", "hervec", "cached"]
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            opts = {}
            if kind not in ("her", "hervec"):
                if rng.rand() < 0.25:
                    opts["ignore_obs_next"] = True
                if rng.rand() < 0.25:
                    opts["stack_num"] = int(rng.randint(2, 4))
            rows = None
            if rng.rand() < 0.15 and kind in ("single", "vector"):
                opts["save_only_last_obs"] = True
                rows = bm.RowMaker(rng, "vec", stacked=3)
            with R.case("history", k=k, kind=kind, opts=opts):
                bm.random_history(R, rng, kind, int(rng.randint(3, 40)), op(R), opts=opts, rows=rows)
