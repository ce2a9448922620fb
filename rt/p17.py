"""P17: Batch.split."""
import numpy as np
import torch
from tianshou.data import Batch

RULE = "every length 1..N, every size 1..N+2 and -1, shuffle and merge on/off, nested fields and tensors; non-trivial when at least two minibatches result"


def mk(n):
    return Batch(a=np.arange(n), b=Batch(c=torch.arange(n) * 10, d=np.stack([np.arange(n), -np.arange(n)], 1)), o=np.array([f"r{i}" for i in range(n)], dtype=object))


def run(R):
    N = 26 if R.thorough else 17
    with R.family("exhaustive"):
        for n in range(1, N):
            for size in [-1, *range(1, n + 3), 5 * n]:
                for shuffle in (False, True):
                    for merge in (False, True):
                        if R.left() < 0:
                            return
                        R.seed_all(n, size, shuffle, merge)
                        s = n if size == -1 else size
                        with R.case("split", n=n, size=size, shuffle=shuffle, merge_last=merge, _trivial=s >= n):
                            b = mk(n)
                            parts = list(b.split(size, shuffle=shuffle, merge_last=merge))
                            sizes = [len(p) for p in parts]
                            rem = n % s
                            full = n // s
                            if n < s:
                                want = [n]
                            elif rem == 0:
                                want = [s] * full
                            elif merge:
                                want = [s] * (full - 1) + [s + rem]
                            else:
                                want = [s] * full + [rem]
                            R.equal(sizes, want, "minibatch sizes")
                            rows = np.concatenate([p.a for p in parts])
                            R.equal(np.sort(rows), np.arange(n), "every row exactly once")
                            if not shuffle:
                                R.equal(rows, np.arange(n), "original order")
                            for p in parts:
                                R.equal(np.asarray(p.b.c), p.a * 10, "fields stay aligned (nested tensor)")
                                R.equal(p.b.d, np.stack([p.a, -p.a], 1), "fields stay aligned (nested array)")
                                R.equal([str(x) for x in p.o], [f"r{i}" for i in p.a], "fields stay aligned (objects)")
                            R.equal(b.a, np.arange(n), "the source is left alone")
        with R.case("defaults shuffle, do not merge"):
            R.seed_all("d")
            seen = set()
            for _ in range(30):
                p = list(mk(6).split(4))
                R.equal([len(x) for x in p], [4, 2], "default sizes")
                seen.add(tuple(np.concatenate([x.a for x in p])))
            R.expect(len(seen) > 5, "default shuffles", seen=len(seen))
        for size in (0, -2):
            with R.case("rejected size", size=size):
                R.raises((AssertionError, ValueError), lambda: list(mk(3).split(size)), "invalid size")
