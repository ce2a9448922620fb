"""P05: prev / next / unfinished_index against the chronological reference."""
import os
import tempfile
import numpy as np
import h5py
from tianshou.data import ReplayBuffer, VectorReplayBuffer
from rt import bufmodel as bm

RULE = ("after every operation of random histories over every buffer class, prev/next of every stored index (scalar, array, 2-d array, "
        "repeated, permuted) and the unfinished listing are compared with the chronological reference; buffers built with from_data included")


def state(R, pair, rng):
    m, b = pair.model, pair.real
    R.equal(np.asarray(b.unfinished_index(), int), np.array(m.unfinished(), int), "unfinished listing", history=pair.log)
    al = m.all()
    if not al:
        return
    for name, ref in (("prev", m.prev), ("next", m.next)):
        f = getattr(b, name)
        R.equal(np.asarray(f(np.array(al))), np.array([ref(i) for i in al]), f"{name} of all stored", history=pair.log, indices=al)
        ii = [al[int(j)] for j in rng.randint(len(al), size=6)]
        R.equal(np.asarray(f(np.array(ii))), np.array([ref(i) for i in ii]), f"{name} of {ii}", history=pair.log)
        R.equal(np.asarray(f(np.array(ii).reshape(2, 3))) if not pair.vector else np.asarray(f(np.array(ii))).reshape(2, 3),
                np.array([ref(i) for i in ii]).reshape(2, 3), f"{name} of 2-d {ii}", history=pair.log)
        R.equal(int(f(ii[0])), ref(ii[0]), f"{name}({ii[0]}) scalar", history=pair.log)
        R.equal(int(f(np.int64(ii[1]))) if not pair.vector else int(f(int(ii[1]))), ref(ii[1]), f"{name} of numpy scalar {ii[1]}", history=pair.log)
    if pair.vector and pair.kind != "cached":    # exactly as the sub-buffers would, shifted
        for s, sub in zip(m.subs, b.buffers):
            if s.order:
                loc = np.array(s.slots())
                R.equal(np.asarray(b.prev(loc + s.offset)), np.asarray(sub.prev(loc)) + s.offset, "prev agrees with the sub-buffer", history=pair.log)
                R.equal(np.asarray(b.next(loc + s.offset)), np.asarray(sub.next(loc)) + s.offset, "next agrees with the sub-buffer", history=pair.log)


def run(R):
    kinds = ["single", "vector", "cached", "manager", "prio", "priovec", "vector-ceil", "her", "hervec"]
    with R.family("random histories", 0.85):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            with R.case("history", k=k, kind=kind):
                rows = bm.RowMaker(rng, "goal" if kind.startswith("her") else "scalar", p_done=float(rng.choice([0.1, 0.3, 0.6])), extra=False)
                bm.random_history(R, rng, kind, int(rng.randint(3, 40)), lambda p, w, g, x: state(R, p, rng), rows=rows, fresh=True)
    with R.family("buffers built from stored arrays (from_data)"):
        for k in R.cases(60):
            rng = R.rng("fd", k)
            n = int(rng.randint(1, 9))
            rows = [bm.RowMaker(rng, "vec", p_done=0.4, extra=False)() for _ in range(n)]
            with R.case("from_data", n=n, rows=[(r["terminated"], r["truncated"]) for r in rows]):
                pair = bm.Pair("single", [n], None)
                pair.log.append(("from_data", [(r["terminated"], r["truncated"]) for r in rows]))
                with tempfile.TemporaryDirectory() as d:
                    with h5py.File(os.path.join(d, "x.hdf5"), "w") as f:
                        b = bm.stack_rows(rows)
                        dd = [f.create_dataset(x, data=np.asarray(getattr(b, x))) for x in ("obs", "act", "rew", "terminated", "truncated")]
                        dd.append(f.create_dataset("done", data=np.asarray(b.terminated | b.truncated)))
                        dd.append(f.create_dataset("obs_next", data=np.asarray(b.obs_next)))
                        pair.real = ReplayBuffer.from_data(*dd)
                        for r in rows:
                            pair.model.subs[0]._put(r)
                        pair.real.set_batch(bm.Batch({k: np.asarray(pair.real._meta[k]) for k in pair.real._meta.get_keys()}))
                        R.equal(len(pair.real), n, "length")
                        state(R, pair, rng)
