"""P24: the categorical projection of C51."""
import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy import C51Policy, RainbowPolicy

RULE = ("random supports (2..12 atoms), next-state distributions (one-hot, zero atoms, uniform, random) and shifted atoms (exact hits, "
        "outside the support, arbitrary); reference projection in double precision; non-trivial when the mass is spread over at least two atoms")


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
        self.table = None

    def forward(self, obs, state=None, info=None):
        i = np.asarray(obs).astype(int).reshape(-1)
        return self.table[i], state


def project(ret, dist, lo, hi, n):
    z = np.linspace(lo, hi, n)
    dz = (hi - lo) / (n - 1)
    out = np.zeros((len(ret), n))
    for b in range(len(ret)):
        for j in range(n):
            x = min(max(float(ret[b, j]), lo), hi)
            pos = (x - lo) / dz
            i = int(min(max(np.floor(pos), 0), n - 2))
            fr = pos - i
            out[b, i] += dist[b, j] * (1 - fr)
            out[b, i + 1] += dist[b, j] * fr
    return out, z


def run(R):
    with R.family("projection", 0.75):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("p", k)
            n = int(rng.randint(2, 13))
            lo = float(np.round(rng.randn() * 5, 2))
            hi = lo + float(np.round(rng.rand() * 20 + 0.5, 2))
            A, S, B = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(1, 5))
            target = k % 2 == 0
            cls = (C51Policy, RainbowPolicy)[(k // 2) % 2]

            def dists():
                d = rng.rand(S, A, n)
                kind = rng.randint(3)
                if kind == 0:
                    d = np.eye(n)[rng.randint(0, n, size=(S, A))]
                elif kind == 1:
                    d = d * (rng.rand(S, A, n) < 0.5) + 1e-9
                return (d / d.sum(-1, keepdims=True)).astype(np.float32)
            new, old = dists(), dists()
            obs = rng.randint(0, S, size=B)
            dz = (hi - lo) / (n - 1)
            kind = rng.randint(4)
            if kind == 0:      # exact hits
                ret = lo + dz * rng.randint(-2, n + 2, size=(B, n))
            elif kind == 1:    # far outside
                ret = rng.choice([lo - 50, hi + 50, lo, hi], size=(B, n))
            elif kind == 2:    # the usual shape r + gamma z
                ret = rng.randn(B, 1) * 3 + 0.9 * np.linspace(lo, hi, n)
            else:
                ret = lo + (hi - lo) * (rng.rand(B, n) * 1.6 - 0.3)
            ret = ret.astype(np.float32)
            with R.case("target", policy=cls.__name__, lo=lo, hi=hi, atoms=n, new=new, old=old, obs=obs, returns=ret, target_net=target):
                m = Net()
                p = cls(model=m, optim=torch.optim.SGD(m.parameters(), 0.1), action_space=gym.spaces.Discrete(A), num_atoms=n, v_min=lo, v_max=hi,
                        target_update_freq=3 if target else 0)
                p.model.table = torch.tensor(new)
                if target:
                    p.model_old.table = torch.tensor(old)
                batch = Batch(obs_next=obs, obs=obs, returns=torch.tensor(ret), act=np.zeros(B, int))
                with torch.no_grad():
                    got = p._target_dist(batch).numpy()
                z = np.linspace(lo, hi, n)
                qv = (new[obs] * z).sum(-1)
                best = qv.max(1)
                cand = [[a for a in range(A) if qv[b, a] >= best[b] - 1e-4] for b in range(B)]
                if any(len(c) > 1 and not all(np.array_equal(new[obs[b], c[0]], new[obs[b], x]) and np.array_equal(old[obs[b], c[0]], old[obs[b], x]) for x in c) for b, c in enumerate(cand)):
                    continue      # tie of the greedy action within rounding
                src = (old if target else new)[obs]
                d = np.stack([src[b, cand[b][0]] for b in range(B)]).astype(float)
                want, _ = project(ret.astype(float), d, lo, hi, n)
                R.equal(got, want, "projected distribution", 2e-3)
                R.expect(bool((got >= 0).all()), "negative probability", got=got)
                R.equal(got.sum(1), np.ones(B), "total mass", 1e-3)
                mean = (np.clip(ret, lo, hi) * d).sum(1)
                R.equal((got * z).sum(1), mean, "mean of the projection", 5e-3 * max(1, abs(lo), abs(hi)))
                R.equal(batch.returns.numpy(), ret, "returns left alone")
                R.equal(p.support.detach().numpy(), z, "support", 1e-4)
    with R.family("bootstrap atoms", 0.2):
        for k in R.cases(200):
            rng = R.rng("b", k)
            n, B = int(rng.randint(2, 9)), int(rng.randint(1, 5))
            lo, hi = -float(rng.randint(1, 5)), float(rng.randint(1, 5))
            with R.case("support as bootstrap value", atoms=n, lo=lo, hi=hi, rows=B):
                m = Net()
                p = C51Policy(model=m, optim=torch.optim.SGD(m.parameters(), 0.1), action_space=gym.spaces.Discrete(2), num_atoms=n, v_min=lo, v_max=hi)
                R.equal(p._target_q(None, np.arange(B)).detach().numpy(), np.tile(np.linspace(lo, hi, n), (B, 1)), "bootstrap value of each atom", 1e-5)
                R.equal(p.delta_z, (hi - lo) / (n - 1), "spacing", 1e-9)
            with R.case("bad configuration", atoms=n, _trivial=True):
                R.raises(AssertionError, lambda: C51Policy(model=m, optim=None, action_space=gym.spaces.Discrete(2), num_atoms=1), "one atom")
                R.raises(AssertionError, lambda: C51Policy(model=m, optim=None, action_space=gym.spaces.Discrete(2), v_min=hi, v_max=lo), "empty support")
