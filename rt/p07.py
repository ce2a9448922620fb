"""P07: sub-buffer isolation, disjoint ranges, sums of lengths."""
import numpy as np
from rt import bufmodel as bm

RULE = ("random histories of adds addressed to random selections and orders of sub-buffers, resets included; after every add the "
        "complete stored content, length and running statistics of every sub-buffer are compared with independent sub-buffers")


def snapshot(b, k):
    s = b.buffers[k]
    return (len(s), s._insertion_idx, float(s._ep_return), int(s._ep_len), int(s._ep_start_idx), s.last_index.tolist())


def state(R, pair):
    b, m = pair.real, pair.model
    R.equal(len(b), sum(len(s.order) for s in m.subs), "length is the sum of the lengths", history=pair.log)
    R.equal([len(x) for x in b.buffers], [len(s.order) for s in m.subs], "sub-buffer lengths", history=pair.log)
    R.equal(b.maxsize, m.total, "capacity is the sum of the capacities")
    R.equal(np.asarray(b.subbuffer_edges), np.array([s.offset for s in m.subs] + [m.total]), "edges")
    if not pair.kind.startswith("her"):
        R.equal(np.asarray(b.sample_indices(0), int), np.array(m.all(), int), "enumeration sub-buffer by sub-buffer, oldest first", history=pair.log)
    if m.length():
        bm.check_rows(R, pair)
        for sub, s in zip(b.buffers, m.subs):      # the sub-buffer itself sees its own rows
            if s.order:
                for slot, r in s.order:
                    for path, v in bm.fields(r, pair.save_next, pair.last_only).items():
                        col = sub
                        for kk in path:
                            R.expect(hasattr(col, kk) if col is sub else kk in col.get_keys(), f"the sub-buffer holds the field {'.'.join(path)} of its rows", history=pair.log)
                            col = getattr(col, kk)
                        R.equal(np.asarray(col)[slot], v, f"field {'.'.join(path)} seen through the sub-buffer", history=pair.log)

def op(R):
    def f(pair, what, got, want):
        if what == "add":
            bm.check_add(R, pair, got, want)
        for sub, s in zip(pair.real.buffers, pair.model.subs):
            R.equal(float(sub._ep_return), float(s.ep_ret), "running return of a sub-buffer", 1e-9, history=pair.log)
            R.equal(int(sub._ep_len), s.ep_len, "running length of a sub-buffer", history=pair.log)
        state(R, pair)
    return f


def run(R):
    kinds = ["vector", "manager", "priovec", "vector-ceil", "hervec", "cached"]
    with R.family("capacities"):
        for total in range(1, 14):
            for n in range(1, 6):
                with R.case("VectorReplayBuffer capacity", total=total, n=n):
                    b = bm.VectorReplayBuffer(total, n)
                    per = -(-total // n)
                    R.equal(b.maxsize, per * n, "capacity")
                    R.equal(np.asarray(b.subbuffer_edges), np.arange(n + 1) * per, "edges")
                    R.equal(len(b), 0, "empty at first")
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            opts = {}
            if rng.rand() < 0.2 and kind != "hervec":
                opts["ignore_obs_next"] = True
            with R.case("history", k=k, kind=kind, opts=opts):
                bm.random_history(R, rng, kind, int(rng.randint(3, 40)), op(R), opts=opts)
