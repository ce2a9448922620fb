"""P13: n-step returns against a walk over the chronological reference."""
import numpy as np
import torch
from rt import bufmodel as bm
from tianshou.policy import BasePolicy

RULE = ("random buffers of every class, every stored transition as a start, n from 1 to beyond the capacity, scalar and vector target "
        "values; the reference walks the chronological list of its own sub-buffer")


def reference(m, i, n, gamma, target):
    """(value, last summed index)"""
    s = m.sub_of(i)
    k = s.slots().index(i - s.offset)
    total, steps = 0.0, 0
    while True:
        total += gamma ** steps * s.order[k][1]["rew"]
        steps += 1
        if steps == n or s.done(k) or k == len(s.order) - 1:
            break
        k += 1
    last = s.offset + s.order[k][0]
    boot = 0.0 if s.order[k][1]["terminated"] else target[last]
    return total + gamma ** steps * boot, last


def run(R):
    kinds = ["single", "vector", "manager", "cached", "prio", "priovec"]
    with R.family("random buffers"):
        for k in R.cases(None if R.thorough else 2000):
            rng = R.rng("buf", k)
            R.seed_all("buf", k)
            kind = kinds[k % len(kinds)]
            with R.case("buffer", k=k, kind=kind):
                pair = bm.random_history(R, rng, kind, int(rng.randint(3, 40)), lambda *a: None, transfers=False,
                                         rows=bm.RowMaker(rng, "scalar", p_done=float(rng.choice([0.1, 0.3, 0.6])), extra=False))
                b, m = pair.real, pair.model
                al = m.all()
                if not al:
                    continue
                for n in {1, 2, int(rng.randint(2, 6)), m.total + 2}:
                    A = int(rng.randint(1, 4))
                    tq = rng.randn(m.total, A)
                    gamma = float(rng.choice([0.0, 0.5, 0.9, 1.0]))
                    idx = np.array(al) if rng.rand() < 0.5 else np.array([al[int(j)] for j in rng.randint(len(al), size=7)])
                    asked = []

                    def target(buf, ii):
                        asked.append(np.asarray(ii).copy())
                        R.expect(not torch.is_grad_enabled(), "targets are evaluated without gradient tracking")
                        t = torch.tensor(tq[np.asarray(ii)])
                        return t.flatten() if A == 1 and n == 2 else t
                    done0, rew0 = np.asarray(b.done).copy(), np.asarray(b.rew).copy()
                    batch = BasePolicy.compute_nstep_return(b[idx], b, idx, target, gamma, n)
                    want = [[reference(m, int(i), n, gamma, tq[:, a])[0] for a in range(A)] for i in idx]
                    last = [reference(m, int(i), n, gamma, tq[:, 0])[1] for i in idx]
                    R.equal(asked[-1], np.array(last), "target values are asked for the last summed transitions", history=pair.log, n=n, indices=idx)
                    R.equal(np.asarray(batch.returns).reshape(len(idx), A), np.array(want), "n-step return", 1e-5, history=pair.log, n=n, gamma=gamma, indices=idx)
                    R.equal(np.asarray(b.done), done0, "the buffer's flags are left alone")
                    R.equal(np.asarray(b.rew), rew0, "the buffer's rewards are left alone")
