"""P09: prioritised replay - priorities, sampling shares, importance weights."""
import numpy as np
import torch
from rt import bufmodel as bm
from tianshou.data import PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer

RULE = ("random histories of add / priority update (numpy, torch, duplicate and zero weights) / beta change / reset / bulk transfer on "
        "single and vectorised buffers; priorities are compared after every step with a dictionary; empirical draw frequencies (6 sigma)")
EPS = float(np.finfo(np.float32).eps)


def run(R):
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            vec = bool(k % 2)
            n = int(rng.randint(1, 4)) if vec else 1
            cap = int(rng.randint(1, 7))
            alpha, beta = float(rng.choice([0.3, 0.6, 1.0, 2.0])), float(rng.choice([0.0, 0.4, 1.0]))
            norm = bool(rng.rand() < 0.5)
            steps = int(rng.randint(3, 30))
            with R.case("history", k=k, vec=vec, n=n, cap=cap, alpha=alpha, beta=beta, norm=norm):
                rows = bm.RowMaker(rng, "vec", extra=False)
                pair = bm.Pair("single" if not vec else "vector", [cap] * n, rows)
                if vec:
                    b = PrioritizedVectorReplayBuffer(cap * n, n, alpha=alpha, beta=beta, weight_norm=norm)
                else:
                    b = PrioritizedReplayBuffer(cap, alpha, beta, weight_norm=norm)
                pair.real = b
                prio, hi, lo = {}, 1.0, 1.0

                def verify():
                    al = pair.model.all()
                    if not al:
                        return
                    ii = np.array(al)
                    R.equal(np.asarray(b.weight[ii]), np.array([prio[i] ** alpha for i in al]), "stored priorities", 1e-6, history=pair.log)
                    R.expect(bool(np.all(np.asarray(b.weight[ii]) > 0)), "every stored transition has a positive priority", got=b.weight[ii])
                    iw = np.array([(prio[i] ** alpha / lo ** alpha) ** (-beta) for i in al])
                    R.equal(np.asarray(b.get_weight(ii)), iw, "importance weight", 1e-5, history=pair.log, alpha=alpha, beta=beta, smallest=lo)
                    sel = ii[rng.randint(len(ii), size=3)]
                    w = np.array([(prio[int(i)] ** alpha / lo ** alpha) ** (-beta) for i in sel])
                    got = b[sel]
                    R.equal(np.asarray(got.weight), w / w.max() if norm else w, "attached importance weight", 1e-5, history=pair.log, beta=beta, norm=norm)
                    s = np.asarray(b.sample_indices(8))
                    R.expect(set(s.tolist()) <= set(al), "only stored transitions are drawn", got=s, stored=al, history=pair.log)
                for _ in range(steps):
                    u = rng.rand()
                    al = pair.model.all()
                    if u < 0.5 or not al:
                        got, want = pair.add(bm.rand_ids(rng, n) if vec else None, stacked=bool(rng.rand() < 0.5))
                        for w in want:
                            prio[w[0]] = hi
                    elif u < 0.8:
                        m = int(rng.randint(1, 5))
                        sel = np.array([al[int(j)] for j in rng.randint(len(al), size=m)])
                        if rng.rand() < 0.6:
                            sel = np.unique(sel)
                        nw = np.array([float(rng.choice([0.0, 0.01, 0.5, -0.7, 2.0, 5.0])) + float(rng.rand()) * 0.1 * (rng.rand() < 0.5) for _ in sel])
                        pair.log.append(("update_weight", sel.tolist(), nw.tolist()))
                        sel0 = sel.copy()
                        b.update_weight(sel, torch.tensor(nw) if rng.rand() < 0.5 else nw)
                        for i, w in zip(sel0.tolist(), nw.tolist()):
                            prio[int(i)] = abs(w) + EPS
                        p = np.abs(nw) + EPS
                        hi, lo = max(hi, p.max()), min(lo, p.min())
                    elif u < 0.88:
                        beta = float(rng.choice([0.0, 0.2, 0.7, 1.0]))
                        pair.log.append(("set_beta", beta))
                        b.set_beta(beta)
                    elif u < 0.94:
                        pair.reset(bool(rng.rand() < 0.5))
                    elif not vec:
                        src = bm.Pair("single", [int(rng.randint(1, 6))], rows)
                        for _ in range(int(rng.randint(1, 8))):
                            src.add()
                        _, want = pair.transfer(src)
                        for w in want:
                            prio[w] = hi
                    verify()
    with R.family("draw frequencies"):
        for k in R.cases(12 if not R.thorough else 60):
            rng = R.rng("freq", k)
            R.seed_all("freq", k)
            vec, alpha = bool(k % 2), float(rng.choice([0.5, 1.0]))
            cap = int(rng.randint(2, 6))
            n = 2 if vec else 1
            with R.case("frequencies", k=k, vec=vec, cap=cap, alpha=alpha):
                b = PrioritizedVectorReplayBuffer(cap * n, n, alpha=alpha, beta=0.4) if vec else PrioritizedReplayBuffer(cap, alpha, 0.4)
                pair = bm.Pair("vector" if vec else "single", [cap] * n, bm.RowMaker(rng, "vec", extra=False))
                pair.real = b
                for _ in range(int(rng.randint(2, 9))):
                    pair.add()
                al = pair.model.all()
                w = rng.choice([0.05, 0.5, 1.0, 3.0], size=len(al)) * (1 + rng.rand(len(al)))
                b.update_weight(np.array(al), w)
                p = (w + EPS) ** alpha
                p = p / p.sum()
                N = 20000
                s = np.asarray(b.sample_indices(N))
                cnt = np.bincount(s, minlength=cap * n)
                for i, q in zip(al, p):
                    R.expect(abs(cnt[i] - N * q) < 6 * np.sqrt(N * q * (1 - q)) + 6, "draw frequency matches the priority share",
                             index=i, drawn=int(cnt[i]), expected=N * q, of=N)
                R.equal(int(cnt.sum()), int(cnt[al].sum()), "only stored transitions are drawn")
