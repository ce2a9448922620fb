"""P12: GAE, TD(lambda) returns and Monte-Carlo returns against the plain recursion."""
import itertools
import numpy as np
import torch
from rt import bufmodel as bm
from tianshou.data import Batch, ReplayBuffer
from tianshou.policy import BasePolicy
from tianshou.policy.base import _gae_return, episode_mc_return_to_go

RULE = ("random buffers of every class (wrapped, unfinished, truncated, terminated episodes) with random values, plus every flag pattern "
        "on short batches; the recursion is evaluated independently in plain Python")


def reference(rew, v, v_next, term, cut, gamma, lam):
    adv, a = [0.0] * len(rew), 0.0
    for t in reversed(range(len(rew))):
        d = rew[t] + gamma * (0.0 if term[t] else v_next[t]) - v[t]
        a = d + (0.0 if cut[t] else gamma * lam * a)
        adv[t] = a
    return np.array(adv)


def run(R):
    with R.family("every flag pattern", 0.35):
        for n in (1, 2, 3, 4):
            for flags in itertools.product(range(4), repeat=n):
                rng = R.rng("pat", flags)
                term = np.array([bool(f & 1) for f in flags])
                trunc = np.array([bool(f & 2) for f in flags])
                gamma, lam = float(rng.choice([0.0, 0.5, 0.9, 1.0])), float(rng.choice([0.0, 0.5, 1.0]))
                rew, v, vn = rng.randn(n), rng.randn(n), rng.randn(n)
                with R.case("pattern", term=term, trunc=trunc, rew=rew, v=v, v_next=vn, gamma=gamma, lam=lam):
                    b = ReplayBuffer(n + int(rng.randint(0, 3)))
                    for i in range(n):
                        b.add(Batch(obs=i, act=0, rew=rew[i], terminated=term[i], truncated=trunc[i], obs_next=i))
                    idx = np.arange(n)
                    cut = term | trunc
                    cut[-1] = True
                    want = reference(rew, v, vn, term, cut, gamma, lam)
                    tt = (lambda x: torch.tensor(x)) if rng.rand() < 0.5 else (lambda x: x)
                    batch = b[idx]
                    ret, adv = BasePolicy.compute_episodic_return(batch, b, idx, tt(vn.copy()), tt(v.copy()), gamma, lam)
                    R.equal(adv, want, "advantage", 1e-8)
                    R.equal(ret, want + v, "return = advantage + value", 1e-8)
                    R.equal(np.asarray(batch.terminated), term, "flags of the batch are left alone")
                    R.equal(np.asarray(b.done), np.concatenate([term | trunc, np.zeros(b.maxsize - n, bool)]), "buffer left alone")
                    raw = _gae_return(v, vn, rew, cut, gamma, lam)
                    R.equal(raw, reference(rew, v, vn, np.zeros(n, bool), cut, gamma, lam), "GAE kernel", 1e-8)
                    R.equal(BasePolicy.value_mask(b, idx), ~term, "value mask")
    with R.family("return to go", 0.15):
        for k in R.cases(200):
            rng = R.rng("mc", k)
            n = int(rng.randint(1, 9))
            rew, gamma = rng.randn(n), float(rng.choice([0, 0.3, 0.99, 1.0]))
            with R.case("return to go", rew=rew, gamma=gamma):
                want = [sum(gamma ** j * rew[t + j] for j in range(n - t)) for t in range(n)]
                R.equal(episode_mc_return_to_go(rew, gamma), np.array(want), "discounted return to go", 1e-8)
    kinds = ["single", "vector", "manager", "cached"]
    with R.family("random buffers"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("buf", k)
            R.seed_all("buf", k)
            kind = kinds[k % len(kinds)]
            with R.case("buffer", k=k, kind=kind):
                pair = bm.random_history(R, rng, kind, int(rng.randint(3, 40)), lambda *a: None, transfers=False,
                                         rows=bm.RowMaker(rng, "scalar", p_done=float(rng.choice([0.1, 0.3, 0.6])), extra=False))
                b, m = pair.real, pair.model
                al = m.all()
                if not al:
                    continue
                idx = np.array(al)
                gamma, lam = float(rng.choice([0.0, 0.5, 0.99, 1.0])), float(rng.choice([0.0, 0.5, 0.95, 1.0]))
                v, vn = rng.randn(len(al)), rng.randn(len(al))
                rows = [m.row(i) for i in al]
                last = {s.offset + s.order[-1][0] for s in m.subs if s.order}
                term = [bool(r["terminated"]) for r in rows]
                cut = [bool(r["terminated"] or r["truncated"]) or i in last for i, r in zip(al, rows)]
                rew = [r["rew"] for r in rows]
                batch = b[idx]
                ret, adv = BasePolicy.compute_episodic_return(batch, b, idx, vn.copy(), v.copy(), gamma, lam)
                want = reference(rew, v, vn, term, cut, gamma, lam)
                R.equal(adv, want, "advantage", 1e-7, history=pair.log, gamma=gamma, lam=lam)
                R.equal(ret, want + v, "return", 1e-7, history=pair.log)
                ret, adv = BasePolicy.compute_episodic_return(b[idx], b, idx, None, None, gamma, 1.0)
                mc = reference(rew, [0.0] * len(al), [0.0] * len(al), term, cut, gamma, 1.0)
                R.equal(ret, mc, "discounted return-to-go without values", 1e-7, history=pair.log)
