"""P18: structural operations of Batch against a reference of nested dicts of arrays."""
import warnings
import numpy as np
import torch
from tianshou.data import Batch

RULE = ("random nested structures (depth <= 3, numeric, boolean, object and tensor leaves) and index kinds against a nested-dict reference; "
        "non-trivial when the batch has at least one row and one field")
warnings.simplefilter("ignore")
KEYS = "abcdef"


class Obj:
    """a user object stored in an object array"""

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Obj) and o.i == self.i

    def __hash__(self):
        return self.i

    def __repr__(self):
        return f"Obj({self.i})"


def schema(rng, depth=0):
    ks = list(rng.permutation(list(KEYS))[: rng.randint(1, 4)])
    out = {}
    for k in ks:
        if depth < 2 and rng.rand() < 0.3:
            out[k] = schema(rng, depth + 1)
        else:
            out[k] = (("f8", "f4", "i8", "i4", "?", "O")[rng.randint(6)], tuple(rng.randint(1, 4, size=rng.randint(0, 3))))
    return out


def fill(rng, sch, n, lead=None):
    lead = (n,) if lead is None else lead
    out = {}
    for k, v in sch.items():
        if isinstance(v, dict):
            out[k] = fill(rng, v, n, lead)
            continue
        dt, shp = v
        full = lead + shp
        if dt == "O":
            a = np.empty(full, object)
            for i in np.ndindex(*full):
                a[i] = Obj(int(rng.randint(1, 1000)))
        elif dt == "?":
            a = rng.rand(*full) < 0.5
        elif dt[0] == "i":
            a = rng.randint(1, 1000, size=full)
        else:
            a = rng.randn(*full) + 3
        out[k] = np.asarray(a).astype({"O": object}.get(dt, dt))
    return out


def walk(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from walk(v, pre + (k,))
        else:
            yield pre + (k,), v


def tmap(f, t):
    return {k: tmap(f, v) if isinstance(v, dict) else f(v) for k, v in t.items()}


def copy_tree(t):
    return tmap(lambda a: a.copy() if hasattr(a, "copy") else a, t)


def build(t, tensors=()):
    """Batch with the data of t; the leaves whose path is in tensors as torch tensors"""
    def go(t, pre):
        return Batch({k: go(v, pre + (k,)) if isinstance(v, dict) else
                      torch.tensor(v) if pre + (k,) in tensors else v.copy() for k, v in t.items()})
    return go(t, ())


def num(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) else x


def same(R, b, t, msg, dtype=True, **kw):
    R.expect(isinstance(b, Batch), msg + ": not a Batch", got=b, **kw)
    R.equal(sorted(b.keys()), sorted(t), msg + ": field names", **kw)
    for k, v in t.items():
        g = b[k]
        if isinstance(v, dict):
            same(R, g, v, f"{msg}.{k}", dtype, **kw)
        else:
            g = np.asarray(num(g))
            v = np.asarray(v)
            R.equal(g, v, f"{msg}: field {k}", **kw)
            if dtype and v.dtype != object:
                R.equal(str(g.dtype), str(v.dtype), f"{msg}: dtype of {k}", **kw)


def rand_index(rng, n):
    r = rng.randint(6)
    if r == 0:
        return int(rng.randint(-n, n))
    if r == 1:
        a, b = sorted(rng.randint(0, n + 1, size=2))
        return slice(int(a), int(b), int(rng.randint(1, 3)))
    if r == 2:
        return rng.randint(-n, n, size=rng.randint(0, 5))
    if r == 3:
        return [int(i) for i in rng.randint(0, n, size=rng.randint(1, 5))]
    if r == 4:
        return rng.rand(n) < 0.5
    return slice(None)


def drop(rng, t, p):
    """t with some fields removed (at any level)"""
    out, hit = {}, False
    for k, v in t.items():
        if rng.rand() < p:
            hit = True
            continue
        if isinstance(v, dict):
            w, h = drop(rng, v, p)
            hit |= h
            if not w:
                continue
            v = w
        out[k] = v
    return out, hit


def zero_like(v, rows):
    shp = (rows,) + v.shape[1:]
    return np.full(shp, None, object) if v.dtype == object else np.zeros(shp, v.dtype)


def assign(full, part, idx):
    """reference of full[idx] = part"""
    for k, v in full.items():
        if isinstance(v, dict):
            assign(v, part.get(k, {}) if part is not None else {}, idx)
        elif part is not None and k in part:
            v[idx] = part[k][()] if v.dtype == object and part[k].ndim == 0 else part[k]
        else:
            v[idx] = None if v.dtype == object else 0


def run(R):
    with R.family("indexing and iteration", 0.15):
        for k in R.cases(None if R.thorough else 500):
            rng = R.rng("idx", k)
            n = int(rng.randint(1, 6))
            t = fill(rng, schema(rng), n)
            tens = tuple(p for p, v in walk(t) if v.dtype != object and rng.rand() < 0.3)
            idx = rand_index(rng, n)
            with R.case("index", data=t, idx=idx, tensors=tens):
                b = build(t, tens)
                R.equal(len(b), n, "length")
                same(R, b[idx], tmap(lambda a: a[idx], t), "indexed batch")
                same(R, b, t, "source left alone")
                rows = list(b)
                R.equal(len(rows), n, "iteration count")
                for i, r in enumerate(rows):
                    same(R, r, tmap(lambda a: a[i], t), f"row {i}")
                for key in t:
                    g = b[key]
                    if not isinstance(t[key], dict):
                        R.equal(np.asarray(num(g)), t[key], "field by name")
    with R.family("assignment", 0.2):
        for k in R.cases(None if R.thorough else 700):
            rng = R.rng("set", k)
            n = int(rng.randint(1, 6))
            sch = schema(rng)
            t = fill(rng, sch, n)
            idx = rand_index(rng, n)
            if isinstance(idx, np.ndarray) and idx.dtype != bool:
                idx = rng.permutation(n)[: rng.randint(0, n + 1)]
            elif isinstance(idx, list):
                idx = [int(i) for i in rng.permutation(n)[: rng.randint(1, n + 1)]]
            m = len(np.arange(n)[idx]) if not isinstance(idx, int) else None
            src = fill(rng, sch, 0, () if m is None else (m,))
            part, _ = drop(rng, src, 0.25 if k % 2 else 0)
            if m == 0 and any(v.dtype == object for _, v in walk(t)):
                continue    # an empty object array loses its trailing shape when wrapped: not a row assignment
            tens = tuple(p for p, v in walk(t) if v.dtype != object and rng.rand() < 0.2)
            with R.case("assign", data=t, idx=idx, source=part, tensors=tens):
                b = build(t, tens)
                want = copy_tree(t)
                assign(want, part, idx)
                if tens:
                    part = {**part}
                srcb = Batch(tmap(lambda a: a, part)) if k % 3 else part
                if tens:    # rows for tensor fields have to be tensors
                    srcb = build({k2: v for k2, v in part.items()}, tens) if m is not None else None
                    if srcb is None:
                        continue
                b[idx] = srcb
                same(R, b, want, "after assignment", idx=idx)
                bad = build(t)
                R.raises(ValueError, lambda: bad.__setitem__(idx, Batch(zz=np.zeros(max(m or 1, 1)))), "assignment of an unknown field")
                same(R, bad, t, "rejected assignment changes nothing")
    with R.family("concatenation", 0.2):
        for k in R.cases(None if R.thorough else 600):
            rng = R.rng("cat", k)
            sch = schema(rng)
            parts = [fill(rng, sch, int(rng.randint(1, 4))) for _ in range(rng.randint(1, 4))]
            # a top-level field that is an empty Batch in some of the inputs
            hole = None
            leaf = [q for q, v in sch.items() if not isinstance(v, dict) and v[0] != "O"]
            if len(sch) > 1 and leaf and k % 3 == 0:
                hole = leaf[rng.randint(len(leaf))]
            miss = [bool(hole) and rng.rand() < 0.5 for _ in parts]
            alltens = k % 4 == 1 and all(v.dtype != object for _, v in walk(parts[0]))
            with R.case("cat", parts=parts, hole=hole, miss=miss, tensors=alltens):
                bs = [build(p, tuple(q for q, _ in walk(p)) if alltens and not hole else ()) for p in parts]
                want = [copy_tree(p) for p in parts]
                for b, w, mi in zip(bs, want, miss):
                    if mi:
                        b[hole] = Batch()
                        w[hole] = zero_like(w[hole], len(w[hole]))
                keep = [b.__class__(b, copy=True) for b in bs]
                if all(miss) and hole:
                    ref = {q: None for q in sch}
                def join(ts):
                    return {q: join([x[q] for x in ts]) if isinstance(ts[0][q], dict) else np.concatenate([x[q] for x in ts]) for q in ts[0]}
                want = join(want)
                got = Batch.cat(bs)
                if hole and all(miss):
                    R.expect(isinstance(got[hole], Batch) and len(got[hole].get_keys()) == 0, "a field empty everywhere stays empty")
                    got = Batch({q: got[q] for q in got.keys() if q != hole})
                    want.pop(hole)
                same(R, got, want, "concatenation", dtype=not hole)
                R.equal(len(got), sum(len(next(walk(p))[1]) for p in parts), "length of the concatenation")
                for b, c in zip(bs, keep):
                    same(R, Batch({q: v for q, v in b.items() if q != hole}), tree_of(Batch({q: v for q, v in c.items() if q != hole})), "inputs left alone")
                if not any(miss):
                    g2 = Batch(bs[0], copy=True)
                    g2.cat_(bs[1:])
                    same(R, g2, want, "cat_ in place", dtype=False)
                # another structure is rejected and nothing changes
                other = fill(rng, {**sch, "zz": ("f8", ())}, 2)
                first = build(parts[0])
                R.raises(ValueError, lambda: first.cat_([build(other)]), "concatenation with an additional field")
                same(R, first, parts[0], "rejected concatenation changes nothing")
                R.raises(ValueError, lambda: Batch.cat([build(parts[0]), build(other)]), "concatenation of different structures")
                if len(sch) > 1:
                    less = {q: v for q, v in parts[0].items() if q != sorted(sch)[0]}
                    R.raises(ValueError, lambda: Batch.cat([build(parts[0]), build(less)]), "concatenation with a lacking field")
    with R.family("stacking", 0.2):
        for k in R.cases(None if R.thorough else 600):
            rng = R.rng("stack", k)
            sch = schema(rng)
            lead = () if k % 2 else (int(rng.randint(1, 4)),)
            m = int(rng.randint(1, 5))
            full = [fill(rng, sch, 0, lead) for _ in range(m)]
            parts = [drop(rng, f, 0.3)[0] or f for f in full] if k % 3 == 0 else full
            with R.case("stack", parts=parts):
                bs = [Batch(copy_tree(p)) for p in parts]
                def join(ts, keys_from):
                    out = {}
                    for q, v in keys_from.items():
                        have = [x is not None and q in x for x in ts]
                        if not any(have):
                            continue
                        if isinstance(v, dict):
                            out[q] = join([x[q] if h else None for x, h in zip(ts, have)], v)
                        else:
                            v = np.asarray(v)
                            out[q] = np.stack([np.asarray(x[q]) if h else (np.full(v.shape, None, object) if v.dtype == object else np.zeros(v.shape, v.dtype)) for x, h in zip(ts, have)])
                    return out
                if not compatible(parts):
                    # a nested batch that only some inputs have, with a sub-field its first holder lacks: refused
                    try:
                        Batch.stack(bs)
                    except ValueError:
                        pass
                    continue
                got = Batch.stack(bs)
                want = join(parts, full[0])
                if any(v.dtype == object for _, v in walk(want)):
                    R.equal(sorted(str(p) for p, _ in walk(want)), sorted(str(p) for p, _ in walk(tree_of(got))), "fields of the stack")
                    strip = lambda t: {q: strip(v) if isinstance(v, dict) else v for q, v in t.items() if isinstance(v, dict) or v.dtype != object}
                    for (p, w), (p2, g) in zip(sorted(walk(strip(want)), key=lambda z: z[0]), sorted(((p, g) for p, g in walk(tree_of(got)) if np.asarray(g).dtype != object), key=lambda z: z[0])):
                        R.equal(p, p2, "numeric fields")
                        R.equal(np.asarray(g), w, f"stacked field {p}")
                else:
                    same(R, got, want, "stack", dtype=k % 3 != 0)
                if parts is full and lead and m > 1 and not any(v.dtype == object for _, v in walk(want)):
                    ax = tmap(lambda a: np.swapaxes(a, 0, 1), want)
                    same(R, Batch.stack(bs, axis=1), ax, "stack along axis 1")
                    g2 = Batch(bs[0], copy=True)
                    g2.stack_(bs[1:])
                    same(R, g2, want, "stack_ in place")
                for b, p in zip(bs, parts):
                    same(R, b, p, "inputs left alone")
    with R.family("arithmetic, conversion, length, empty", 0.2):
        for k in R.cases(None if R.thorough else 700):
            rng = R.rng("ar", k)
            sch = schema(rng)
            def numeric(s):
                return {q: numeric(v) if isinstance(v, dict) else (v[0] if v[0] in ("f8", "f4") else "f8", v[1]) for q, v in s.items()}
            sch = numeric(sch)
            n = int(rng.randint(1, 5))
            t, u = fill(rng, sch, n), fill(rng, sch, n)
            c = float(rng.choice([2, -3, 0.5]))
            shuffled = lambda t: {q: shuffled(t[q]) if isinstance(t[q], dict) else t[q] for q in rng.permutation(list(t))}
            with R.case("arith", a=t, b=u, c=c):
                a, b = build(t), build(shuffled(u))
                def both(f, t, u):
                    return {q: both(f, t[q], u[q]) if isinstance(t[q], dict) else f(t[q], u[q]) for q in t}
                same(R, a + b, both(lambda x, y: x + y, t, u), "sum of two batches")
                same(R, a + c, tmap(lambda x: x + c, t), "batch + number")
                same(R, a * c, tmap(lambda x: x * c, t), "batch * number")
                same(R, a / c, tmap(lambda x: x / c, t), "batch / number")
                same(R, a, t, "out-of-place arithmetic leaves the batch alone")
                same(R, b, u, "the other operand left alone")
                R.raises(ValueError, lambda: a.__iadd__(Batch(zz=np.zeros(n))), "sum with different fields")
                same(R, a, t, "rejected sum changes nothing")
                a += b
                a *= c
                a /= 4
                a += 1
                same(R, a, both(lambda x, y: (x + y) * c / 4 + 1, t, u), "in-place arithmetic", dtype=False) if all(v.dtype == np.float64 for _, v in walk(t)) else None
            t = fill(rng, schema(rng), n)
            numt = strip_obj(t)
            with R.case("convert", data=numt, _trivial=not numt):
                b = build(numt)
                tt = b.to_torch()
                same(R, b, numt, "to_torch leaves the source alone")
                for p, _ in walk(numt):
                    R.expect(isinstance(get(tt, p), torch.Tensor) and isinstance(get(b, p), np.ndarray), f"{p} becomes a tensor")
                same(R, tt, numt, "tensors hold the same values")
                back = tt.to_numpy()
                for p, _ in walk(numt):
                    R.expect(isinstance(get(tt, p), torch.Tensor) and isinstance(get(back, p), np.ndarray), f"{p} becomes an array")
                same(R, back, numt, "round trip")
                b.to_torch_()
                same(R, b, numt, "to_torch_")
                b.to_numpy_()
                same(R, b, numt, "to_numpy_")
            with R.case("empty", data=t):
                idx = [None, rand_index(rng, n)][k % 2]
                b = build(t)
                e = Batch.empty(b, idx) if idx is not None else Batch.empty(b)
                same(R, b, t, "empty leaves the source alone")
                want = copy_tree(t)
                for _, v in walk(want):
                    v[slice(None) if idx is None else idx] = None if v.dtype == object else 0
                same(R, e, want, "emptied batch", idx=idx)
            lens = [int(x) for x in rng.randint(1, 6, size=rng.randint(1, 4))]
            with R.case("length", lens=lens):
                b = Batch({KEYS[i]: np.zeros(x) for i, x in enumerate(lens)})
                R.equal(len(b), min(lens), "length of ragged fields")
                b["z"] = Batch(q=np.zeros(int(lens[0]) + 1), r=Batch())
                R.equal(len(b), min(lens), "nested length")
                R.raises(TypeError, lambda: len(Batch(x=1.0)), "length of a scalar batch")
                R.equal(len(Batch()), 0, "length of an empty batch")


def compatible(parts):
    for q in {q for p in parts for q in p}:
        have = [p[q] for p in parts if q in p]
        if not isinstance(have[0], dict):
            continue
        if len(have) == len(parts):
            if not compatible(have):
                return False
        elif any(not paths(h) <= paths(have[0]) for h in have):
            return False
    return True


def paths(t):
    out = set()
    for q, v in t.items():
        out.add((q,))
        if isinstance(v, dict):
            out |= {(q,) + r for r in paths(v)}
    return out


def tree_of(b):
    return {k: tree_of(v) if isinstance(v, Batch) else np.asarray(num(v)) for k, v in b.items()}


def strip_obj(t):
    out = {}
    for q, v in t.items():
        if isinstance(v, dict):
            v = strip_obj(v)
            if v:
                out[q] = v
        elif v.dtype != object:
            out[q] = v
    return out


def get(b, p):
    for q in p:
        b = b[q]
    return b
