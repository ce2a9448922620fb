"""P27: index ranges of episodes."""
import numpy as np
from rt import bufmodel as bm
from tianshou.data import ReplayBuffer, ReplayBufferManager, VectorReplayBuffer

RULE = ("exhaustive (start, stop) pairs over many sub-buffer layouts, plus random histories whose finished episodes are retrieved "
        "through the reported start and last index; non-trivial when the range has at least one index")


def expected(edges, start, stop):
    """None: must be rejected"""
    def sub(i):
        for a, b in zip(edges[:-1], edges[1:]):
            if a <= i < b:
                return (a, b)
        return None
    s, t = sub(start), sub(stop - 1)
    if s is None or s != t:
        return None
    a, b = s
    if stop > start:
        return list(range(start, stop))
    return list(range(start, b)) + list(range(a, stop))


def run(R):
    layouts = [[1], [2], [3], [5], [7], [1, 1], [3, 3], [4, 4, 4], [2, 5], [5, 2], [3, 1, 4], [1, 2, 3, 4], [6, 6]]
    with R.family("exhaustive ranges", 0.4):
        for caps in layouts:
            b = ReplayBuffer(caps[0]) if len(caps) == 1 else ReplayBufferManager([ReplayBuffer(c) for c in caps])
            edges = [0] + np.cumsum(caps).tolist()
            for start in range(edges[-1]):
                for stop in range(1, edges[-1] + 1):
                    want = expected(edges, start, stop)
                    with R.case("range", layout=caps, start=start, stop=stop, _trivial=want is None):
                        if want is None:
                            R.raises(ValueError, lambda: b.get_buffer_indices(start, stop), "range must be rejected", layout=caps, start=start, stop=stop)
                        else:
                            got = b.get_buffer_indices(start, stop)
                            R.equal(np.asarray(got), np.array(want), "index range", layout=caps, start=start, stop=stop)
    kinds = ["single", "vector", "manager", "priovec"]
    with R.family("episodes of random histories"):
        for k in R.cases(None if R.thorough else 1200):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            with R.case("history", k=k, kind=kind):
                rows = bm.RowMaker(rng, "vec", p_done=float(rng.choice([0.2, 0.5])), extra=False)

                def f(pair, what, got, want):
                    if what != "add":
                        return
                    idx, _, ln, st = got
                    for j, w in enumerate(want):
                        s = pair.model.sub_of(w[0])
                        if w[2] and w[2] <= s.cap:
                            rng_ = pair.real.get_buffer_indices(int(np.ravel(st)[j]), int(np.ravel(idx)[j]) + 1)
                            own = [s.offset + x for x in s.slots()[-w[2]:]]
                            R.equal(np.asarray(rng_), np.array(own), "episode retrieved through its start and end", history=pair.log)
                            R.equal(np.asarray(pair.real[rng_].rew), np.array([r["rew"] for _, r in s.order[-w[2]:]]), "episode rewards", history=pair.log)
                bm.random_history(R, rng, kind, int(rng.randint(5, 50)), f, rows=rows, transfers=False, resets=True)
