"""P01 on the real SegmentTree: histories of writes against a plain list of leaves."""
import itertools
import numpy as np
from tianshou.data import SegmentTree

RULE = ("histories of scalar/array writes (duplicates, empty, out-of-range) on trees of every size 1..N; each case is one "
        "history, non-trivial when it writes at least one leaf; every interval is compared with the plain sum of leaves")


def intervals(R, t, leaf, size, full, rng):
    pairs = [(s, e) for s in range(size + 1) for e in range(s, size + 1)]
    if not full and len(pairs) > 40:
        pairs = [pairs[i] for i in rng.choice(len(pairs), 40, replace=False)]
    for s, e in pairs:
        want = float(sum(leaf[s:e]))
        R.equal(t.reduce(s, e), want, "interval sum", 1e-9, start=s, end=e, leaves=list(leaf))
        if 0 < e < size:
            R.equal(t.reduce(s, e - size), want, "interval sum, negative end", 1e-9, start=s, end=e - size, leaves=list(leaf))
        if e == size:
            R.equal(t.reduce(s), want, "interval sum, omitted end", 1e-9, start=s, leaves=list(leaf))
            R.equal(t.reduce(start=s, end=None), want, "interval sum, end=None", 1e-9, start=s)
    R.equal(t.reduce(), float(sum(leaf)), "total", 1e-9, leaves=list(leaf))


def reads(R, t, leaf, size):
    R.equal(len(t), size, "len")
    got = t[np.arange(size)]
    R.equal(got, np.array(leaf, float), "leaf reads (array)")
    for i in {0, size - 1, size // 2}:
        R.equal(float(t[i]), leaf[i], "leaf read (scalar)", index=i)


def history(R, size, ops, rng, full):
    t = SegmentTree(size)
    leaf = [0.0] * size
    reads(R, t, leaf, size)
    for kind, idx, val in ops:
        if kind == "s":
            t[int(idx)] = val
            leaf[idx] = float(val)
        elif kind == "a":
            i, v = np.array(idx, dtype=np.int64), np.array(val, float)
            i0, v0 = i.copy(), v.copy()
            t[i] = v
            R.equal(i, i0, "the caller's index array is left alone")
            R.equal(v, v0, "the caller's value array is left alone")
            for k, x in zip(idx, val):
                leaf[k] = float(x)
        elif kind == "b":
            t[np.array(idx, dtype=np.int64)] = val
            for k in idx:
                leaf[k] = float(val)
        elif kind == "bad":
            before = t[np.arange(size)].copy()
            tot = float(t.reduce())
            if np.isscalar(idx):
                R.raises((AssertionError, IndexError, ValueError), lambda: t.__setitem__(int(idx), val), "out-of-range write", index=idx, size=size)
            else:
                R.raises((AssertionError, IndexError, ValueError), lambda: t.__setitem__(np.array(idx), np.array(val, float)), "out-of-range write", index=idx, size=size)
            R.equal(t[np.arange(size)], before, "rejected write changes nothing", index=idx)
            R.equal(float(t.reduce()), tot, "rejected write changes nothing (total)")
            intervals(R, t, leaf, size, False, rng)
        reads(R, t, leaf, size)
    intervals(R, t, leaf, size, full, rng)


def rand_ops(rng, size, n):
    ops = []
    for _ in range(n):
        k = rng.randint(10)
        val = lambda: float(rng.choice([0, 0.5, 1, 2.25, 7, rng.rand() * 10]))
        if k < 3:
            ops.append(("s", int(rng.randint(size)), val()))
        elif k < 7:
            m = int(rng.randint(1, 2 * size + 2))
            ops.append(("a", [int(x) for x in rng.randint(size, size=m)], [val() for _ in range(m)]))
        elif k < 8:
            m = int(rng.randint(1, size + 2))
            ops.append(("b", [int(x) for x in rng.randint(size, size=m)], val()))
        elif k < 9:
            ops.append(("a", [], []))
        else:
            bad = int(rng.choice([-1, size, size + 1, -size, 2 * size, -size - 1]))
            if rng.randint(2):
                ops.append(("bad", bad, val()))
            else:
                m = [int(x) for x in rng.randint(size, size=rng.randint(0, 3))] + [bad]
                rng.shuffle(m)
                ops.append(("bad", m, [val() for _ in m]))
    return ops


def run(R):
    with R.family("every size, dense writes", 0.4):
        for size in range(1, 70 if R.thorough else 35):
            rng = R.rng("dense", size)
            vals = [float(x) for x in rng.randint(0, 9, size)]
            with R.case("all", size=size, values=vals):
                history(R, size, [("a", list(range(size)), vals)], rng, True)
            with R.case("one by one", size=size, values=vals):
                history(R, size, [("s", i, v) for i, v in enumerate(vals)], rng, size <= 20)
    with R.family("exhaustive small", 0.3):
        for size in (1, 2, 3, 4, 5):
            for idx in itertools.product(range(size), repeat=2 if size > 3 else 3):
                with R.case("dups", size=size, idx=idx):
                    history(R, size, [("a", list(idx), [1.0 + k for k in range(len(idx))]), ("s", idx[0], 0.0)], R.rng(), True)
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("hist", k)
            size = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 23, 31, 33, 50, 64, 100]))
            ops = rand_ops(rng, size, int(rng.randint(1, 7)))
            with R.case("hist", k=k, size=size, ops=ops):
                history(R, size, ops, rng, size <= 9)
