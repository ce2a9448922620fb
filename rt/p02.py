"""P02 on the real SegmentTree: prefix-sum lookup against a linear scan."""
import itertools
import numpy as np
from tianshou.data import SegmentTree

RULE = ("leaf weight vectors (zeros included) for every size, queries at, just below and just above every prefix sum; "
        "non-trivial when the total weight is positive; expected leaf computed by a linear scan")


def scan(leaf, v):
    s = 0.0
    for i, x in enumerate(leaf):
        s += x
        if v <= s:
            return i
    return None


def queries(leaf):
    tot = sum(leaf)
    q = {0.0}
    s = 0.0
    for x in leaf:
        s += x
        for d in (-0.125, 0.0, 0.125):
            q.add(s + d)
    return sorted(x for x in q if 0 <= x < tot)


def check(R, leaf):
    size = len(leaf)
    t = SegmentTree(size)
    t[np.arange(size)] = np.array(leaf, float)
    tot = sum(leaf)
    qs = queries(leaf)
    want = [scan(leaf, v) for v in qs]
    for v, w in zip(qs, want):
        g = t.get_prefix_sum_idx(v)
        R.equal(g, w, "scalar lookup", leaves=leaf, query=v)
        R.expect(v == 0 or leaf[int(g)] > 0, "a positive query selects a zero-weight leaf", leaves=leaf, query=v, got=g)
    if qs:
        g = t.get_prefix_sum_idx(np.array(qs, float))
        R.equal(g, np.array(want), "batched lookup", leaves=leaf, queries=qs)
        rev = qs[::-1] + qs[: len(qs) // 2]
        R.equal(t.get_prefix_sum_idx(np.array(rev)), np.array(want[::-1] + want[: len(qs) // 2]), "batched lookup, other order", leaves=leaf, queries=rev)
        R.equal(t[np.arange(size)], np.array(leaf, float), "a lookup leaves the tree alone", leaves=leaf)
        R.equal(t.reduce(), tot, "a lookup leaves the total alone", 1e-12, leaves=leaf)
    for bad in (tot, tot + 1.0, -0.125, -1.0):
        R.raises((AssertionError, ValueError, IndexError), lambda: t.get_prefix_sum_idx(bad), "query outside [0,total)", query=bad, leaves=leaf)
        arr = np.array(([qs[0]] if qs else []) + [bad] + ([qs[-1]] if qs else []), float)
        R.raises((AssertionError, ValueError, IndexError), lambda: t.get_prefix_sum_idx(arr.copy()), "batched query outside [0,total)", query=arr, leaves=leaf)


def run(R):
    with R.family("exhaustive small weights", 0.4):
        for size in (1, 2, 3, 4, 5):
            for leaf in itertools.product([0.0, 0.5, 1.0], repeat=size):
                if size == 5 and not R.thorough and sum(leaf) not in (1.0, 2.0, 3.5):
                    continue
                with R.case("grid", _trivial=sum(leaf) == 0, leaf=leaf):
                    check(R, list(leaf))
    with R.family("every size", 0.4):
        for size in range(1, 130 if R.thorough else 66):
            rng = R.rng("size", size)
            leaf = [float(x) for x in rng.choice([0, 0, 0.5, 1, 2, 8], size)]
            leaf[int(rng.randint(size))] = 1.0
            with R.case("size", leaf=leaf):
                check(R, leaf)
    with R.family("wide range", 0.3):
        # integer weights far beyond float32 precision: every sum is exact in float64, so the boundaries are exact
        for k in R.cases(None if R.thorough else 150):
            rng = R.rng("wide", k)
            leaf = [float(x) for x in rng.choice([0, 1, 3, 2 ** 24 + 1, 2 ** 31 + 7, 2 ** 40 + 1], int(rng.randint(1, 12)))]
            with R.case("wide", _trivial=sum(leaf) == 0, leaf=leaf):
                check(R, leaf)
    with R.family("random"):
        for k in R.cases(None if R.thorough else 800):
            rng = R.rng("rand", k)
            size = int(rng.randint(1, 40))
            leaf = [float(x) / 4 for x in rng.randint(0, 12, size) * (rng.rand(size) < rng.choice([0.2, 0.6, 1.0]))]
            with R.case("rand", _trivial=sum(leaf) == 0, leaf=leaf):
                check(R, leaf)
