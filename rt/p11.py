"""P11: save/load round trips, and tensor conversion round trips."""
import os
import pickle
import tempfile
import h5py
import numpy as np
import torch
from rt import bufmodel as bm
from tianshou.data import Batch, to_numpy, to_torch
from tianshou.data.utils.converter import from_hdf5, to_hdf5

RULE = ("random histories on every buffer class, saved (HDF5 / pickle) at a random point, then the same operations applied to the "
        "original and the loaded buffer with all observations compared; random nested structures through to_torch/to_numpy and HDF5")


def same(R, a, b, msg, path=""):
    if isinstance(a, Batch) or isinstance(b, Batch):
        R.expect(isinstance(a, Batch) and isinstance(b, Batch), f"{msg}: structure at {path}", a=type(a), b=type(b))
        R.equal(sorted(a.get_keys()), sorted(b.get_keys()), f"{msg}: keys at {path}")
        for k in a.get_keys():
            same(R, a[k], b[k], msg, path + "." + k)
    elif isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        R.expect(isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor), f"{msg}: tensor at {path}", a=type(a), b=type(b))
        R.expect(a.dtype == b.dtype, f"{msg}: dtype at {path}", a=a.dtype, b=b.dtype)
        R.expect(a.shape == b.shape and bool(torch.equal(a, b)), f"{msg}: values at {path}", a=a, b=b)
    else:
        x, y = np.asarray(a), np.asarray(b)
        if isinstance(a, np.ndarray):
            R.expect(x.dtype == y.dtype, f"{msg}: dtype at {path}", a=x.dtype, b=y.dtype)
        R.equal(y, x, f"{msg}: values at {path}")


def behaviour(R, x, y, msg, fresh=False):
    R.equal(len(y), len(x), f"{msg}: length")
    R.equal(y.maxsize, x.maxsize, f"{msg}: capacity")
    if len(x._meta.get_keys()) == 0:
        return
    R.equal(np.asarray(y.sample_indices(0)), np.asarray(x.sample_indices(0)), f"{msg}: all stored indices")
    R.equal(np.asarray(y.unfinished_index()), np.asarray(x.unfinished_index()), f"{msg}: unfinished listing")
    i = np.asarray(x.sample_indices(0))
    if len(i):
        R.equal(np.asarray(y.prev(i)), np.asarray(x.prev(i)), f"{msg}: prev")
        R.equal(np.asarray(y.next(i)), np.asarray(x.next(i)), f"{msg}: next")
        same(R, x[i], y[i], f"{msg}: data")
        if hasattr(x, "get_weight"):
            R.equal(np.asarray(y.get_weight(i)), np.asarray(x.get_weight(i)), f"{msg}: weights")
    for name in ("stack_num", "_save_obs_next", "_save_only_last_obs", "_sample_avail"):
        R.equal(getattr(y, name), getattr(x, name), f"{msg}: {name}")
    if len(i):
        st = np.random.get_state()
        a = np.asarray(x.sample_indices(5))
        np.random.set_state(st)
        b = np.asarray(y.sample_indices(5))
        R.equal(b, a, f"{msg}: sampling with the same random state")


def dup(buf, how, d):
    if how == "pickle":
        return pickle.loads(pickle.dumps(buf))
    f = os.path.join(d, "x.hdf5")
    buf.save_hdf5(f, compression="gzip" if how == "hdf5z" else None)
    return type(buf).load_hdf5(f)


def structure(rng, depth=0):
    def leaf():
        k = rng.randint(9)
        shp = (3,) + tuple(rng.randint(1, 3, size=rng.randint(0, 3)))
        if k < 6:
            dt = [np.float32, np.float64, np.int64, np.int32, np.uint8, np.bool_][k]
            return (rng.rand(*shp) * 9).astype(dt)
        if k == 6:
            return torch.from_numpy((rng.rand(*shp) * 9).astype(np.float32))
        if k == 7:
            return torch.from_numpy((rng.rand(*shp) * 9).astype(np.int64))
        return (rng.rand(*shp) * 9).astype(np.float16)
    n = rng.randint(1, 4)
    return {f"k{i}": structure(rng, depth + 1) if depth < 2 and rng.rand() < 0.3 else leaf() for i in range(n)}


def run(R):
    kinds = ["single", "vector", "cached", "manager", "prio", "priovec", "her", "hervec"]
    hows = ["pickle", "hdf5", "hdf5z"]
    with R.family("buffers", 0.75):
        for k in R.cases(None if R.thorough else 500):
            rng = R.rng("buf", k)
            R.seed_all("buf", k)
            kind, how = kinds[k % len(kinds)], hows[(k // len(kinds)) % 3]
            opts = {}
            if rng.rand() < 0.3 and not kind.startswith("her"):
                opts["ignore_obs_next"] = True
            if rng.rand() < 0.3 and not kind.startswith("her"):
                opts["stack_num"] = 2
                if not kind.startswith("prio") and rng.rand() < 0.5:
                    opts["sample_avail"] = True
            with R.case("save/load", k=k, kind=kind, how=how, opts=opts):
                rows = bm.RowMaker(rng, "goal" if kind.startswith("her") else ("vec", "dict", "img")[rng.randint(3)], p_done=0.3, extra=not kind.startswith("her") and bool(rng.rand() < 0.6))
                pair = bm.random_history(R, rng, kind, int(rng.randint(0, 20)), lambda *a: None, opts=opts, rows=rows)
                if rng.rand() < 0.3 and len(pair.real) and kind.startswith("prio"):
                    pair.real.update_weight(np.asarray(pair.model.all()), rng.rand(pair.model.length()) * 3)
                if kind.startswith("her") and how == "pickle" and len(pair.real):
                    pair.real.sample(4)
                with tempfile.TemporaryDirectory() as d:
                    y = dup(pair.real, how, d)
                if not (kind.startswith("her") and how == "pickle"):
                    behaviour(R, pair.real, y, "after loading") if not kind.startswith("her") else R.equal(len(y), len(pair.real), "length")
                other = bm.Pair(kind, pair.caps, rows, **opts)
                other.real = y
                n = len(pair.caps) - (kind == "cached")
                for step in range(6):
                    u = rng.rand()
                    if u < 0.75:
                        ids = bm.rand_ids(rng, n) if pair.vector else None
                        stacked = bool(rng.rand() < 0.5)
                        pair.log = pair.log[:0] + [("x",)] * (len(pair.log) % 2)
                        got, want = pair.add(ids, stacked=stacked)
                        batch = bm.stack_rows(pair.last_rows) if pair.vector or stacked else bm.to_batch(pair.last_rows[0])
                        got2 = y.add(batch, buffer_ids=ids if pair.vector else [0] if stacked else None)
                        for a, b in zip(got, got2):
                            R.equal(np.asarray(b), np.asarray(a), "add reports the same on the loaded buffer", 1e-9)
                    else:
                        keep = bool(rng.rand() < 0.5)
                        pair.reset(keep)
                        y.reset(keep)
                    if kind.startswith("her"):
                        other.model = pair.model
                        if pair.model.length():
                            bm.check_rows(R, pair)
                            bm.check_rows(R, other, what="loaded buffer")
                    else:
                        behaviour(R, pair.real, y, f"step {step} after loading")
    with R.family("structures"):
        for k in R.cases(None if R.thorough else 400):
            rng = R.rng("st", k)
            s = structure(rng)
            with R.case("round trip", k=k, structure=s):
                b = Batch(s)
                t = to_torch(b)
                back = to_numpy(t)
                same(R, to_numpy(b), back, "to_torch then to_numpy")
                same(R, b, Batch(s), "conversion leaves the source alone")
                def leaves(x):
                    for key in x.get_keys():
                        yield from (leaves(x[key]) if isinstance(x[key], Batch) else [x[key]])
                R.expect(all(isinstance(v, torch.Tensor) for v in leaves(t)), "to_torch converts every leaf")
                R.expect(all(isinstance(v, np.ndarray) for v in leaves(back)), "to_numpy converts every leaf")
                c = Batch(s, copy=True)
                c.to_torch_()
                same(R, t, c, "in-place conversion agrees")
                c.to_numpy_()
                same(R, back, c, "in-place conversion back agrees")
                with tempfile.TemporaryDirectory() as d:
                    with h5py.File(os.path.join(d, "s.hdf5"), "w") as f:
                        to_hdf5({"b": b, "n": 3, "f": 2.5, "s": "text", "o": None, "obj": np.array([None, 1], dtype=object), "d": {"q": np.arange(3)}}, f)
                    with h5py.File(os.path.join(d, "s.hdf5"), "r") as f:
                        y = from_hdf5(f)
                same(R, b, y["b"], "HDF5 round trip")
                R.expect(y["n"] == 3 and y["f"] == 2.5 and y["s"] == "text" and y["o"] is None, "HDF5 round trip of scalars and objects", got={k: y[k] for k in "nfso"})
                R.expect(y["obj"].dtype == object and list(y["obj"]) == [None, 1], "HDF5 round trip of object arrays")
                R.equal(np.asarray(y["d"]["q"]), np.arange(3), "HDF5 round trip of nested dicts")
                p = pickle.loads(pickle.dumps(b))
                same(R, b, p, "pickle round trip")
