"""P23: masked actions are never chosen."""
import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy import C51Policy, DQNPolicy, FQFPolicy, IQNPolicy, MARLRandomPolicy, QRDQNPolicy, RainbowPolicy

RULE = ("value vectors from tiny to huge gaps and ties, every mask with an allowed action (bool and integer masks), every epsilon, random draws; "
        "non-trivial when there are at least two actions")


class Q(torch.nn.Module):
    """action values are the observation itself"""

    def __init__(self, kind, atoms):
        super().__init__()
        self.kind, self.atoms = kind, atoms
        self.w = torch.nn.Parameter(torch.zeros(1))

    def forward(self, obs, state=None, info=None, sample_size=None, propose_model=None, fractions=None):
        o = torch.as_tensor(np.asarray(obs), dtype=torch.float32)
        if self.kind in ("DQN",):
            return o, state
        if self.kind in ("C51", "Rainbow", "QRDQN"):
            return o[..., None].repeat(1, 1, self.atoms), state
        if self.kind == "IQN":
            return (o[..., None].repeat(1, 1, sample_size), torch.rand(len(o), sample_size)), state
        if fractions is None:
            fractions = Batch(taus=torch.linspace(0, 1, self.atoms + 1).repeat(len(o), 1), tau_hats=torch.rand(len(o), self.atoms),
                              entropies=torch.rand(len(o), 1))
        return (o[..., None].repeat(1, 1, self.atoms), fractions, None), state


def make(kind, n):
    kw = dict(action_space=gym.spaces.Discrete(n))
    m = Q(kind, 3)
    o = torch.optim.SGD(m.parameters(), 0.1)
    if kind == "DQN":
        return DQNPolicy(model=m, optim=o, **kw)
    if kind in ("C51", "Rainbow"):
        # support 1/6, 2/6, 3/6: the expectation of equal masses v is v
        return (C51Policy if kind == "C51" else RainbowPolicy)(model=m, optim=o, num_atoms=3, v_min=1 / 6, v_max=1 / 2, **kw)
    if kind == "QRDQN":
        return QRDQNPolicy(model=m, optim=o, num_quantiles=3, **kw)
    if kind == "IQN":
        return IQNPolicy(model=m, optim=o, sample_size=3, online_sample_size=3, target_sample_size=3, **kw)
    return FQFPolicy(model=m, optim=o, fraction_model=torch.nn.Linear(1, 1), fraction_optim=o, num_fractions=3, **kw)


def values(rng, b, n):
    scale = float(rng.choice([1.0, 1e-6, 1e4, 1e8, 1e20, 0.0]))
    v = rng.randn(b, n) * scale
    if rng.rand() < 0.3:
        v = rng.randint(-2, 3, size=(b, n)) * max(scale, 1e-3)
    if rng.rand() < 0.3:
        v[rng.randint(b)] *= 1e6
    return np.clip(v, -1e30, 1e30).astype(np.float32)


def masks(rng, b, n):
    m = rng.rand(b, n) < float(rng.choice([0.1, 0.5, 0.9]))
    m[np.arange(b), rng.randint(0, n, size=b)] = True
    return m


def run(R):
    KINDS = ("DQN", "C51", "Rainbow", "QRDQN", "IQN", "FQF")
    pol = {(k, n): make(k, n) for k in KINDS for n in range(1, 7)}
    with R.family("greedy", 0.4):
        for k in R.cases(None if R.thorough else 2400):
            rng = R.rng("g", k)
            kind, n, b = KINDS[k % 6], int(rng.randint(1, 7)), int(rng.randint(1, 5))
            v, m = values(rng, b, n), masks(rng, b, n)
            if rng.rand() < 0.3:
                # the masked ones are far better
                v = np.where(m, v, np.abs(v).max() + v + 1).astype(np.float32)
            form = rng.randint(3)
            mm = (m, m.astype(np.int64), m.astype(np.float32))[form]
            p = pol[kind, n]
            p.train(bool(rng.rand() < 0.5))
            with R.case("masked", policy=kind, values=v, mask=mm, training=p.training, _trivial=n == 1):
                keep = mm.copy()
                obs = v.copy()
                with torch.no_grad():
                    res = p(Batch(obs=Batch(obs=obs, mask=mm), info=[None] * b))
                act = np.asarray(res.act)
                R.equal(act.shape, (b,), "one action per row")
                R.expect(bool(m[np.arange(b), act].all()), "a masked action was chosen", act=act)
                # within rounding of the expectation: the chosen value is the best allowed one
                best = np.where(m, v, -np.inf).max(1)
                got = v[np.arange(b), act]
                R.expect(bool((got >= best - np.abs(best) * 1e-5).all()), "greedy choice is not the best allowed action", act=act, best=best)
                R.equal(mm, keep, "the mask is left alone")
                R.equal(obs, v, "the observation is left alone")
                with torch.no_grad():
                    act = np.asarray(p(Batch(obs=v, info=[None] * b)).act)
                got, best = v[np.arange(b), act], v.max(1)
                R.expect(bool((got >= best - np.abs(best) * 1e-5).all()), "greedy choice without mask", act=act, best=best)
    with R.family("compute_q_value", 0.1):
        for k in R.cases(None if R.thorough else 600):
            rng = R.rng("c", k)
            n, b = int(rng.randint(1, 7)), int(rng.randint(1, 5))
            v, m = values(rng, b, n), masks(rng, b, n)
            with R.case("q", values=v, mask=m):
                p = pol["DQN", n]
                t = torch.tensor(v)
                q = p.compute_q_value(t, m).numpy()
                R.equal(t.numpy(), v, "input left alone")
                R.equal(q[m], v[m], "allowed values unchanged")
                R.expect(q[~m].size == 0 or all(q[i][~m[i]].max(initial=-np.inf) < v[i][m[i]].min() for i in range(b)), "masked below allowed", q=q)
                R.equal(p.compute_q_value(t, None).numpy(), v, "no mask: unchanged")
    with R.family("exploration", 0.35):
        for k in R.cases(None if R.thorough else 2500):
            rng = R.rng("e", k)
            kind, n, b = KINDS[k % 6], int(rng.randint(1, 7)), int(rng.randint(1, 40))
            m = masks(rng, b, n)
            with_mask = k % 3 != 0
            eps = float(rng.choice([0.0, 0.1, 0.5, 1.0]))
            greedy = np.array([rng.choice(np.flatnonzero(r)) for r in m])
            form = rng.randint(2)
            mm = (m, m.astype(np.int64))[form]
            with R.case("explore", policy=kind, mask=mm if with_mask else None, eps=eps, greedy=greedy, _trivial=n == 1):
                p = make(kind, n)
                with torch.no_grad():
                    p(Batch(obs=np.zeros((1, n), np.float32), info=[None]))
                p.set_eps(eps)
                R.seed_all("e", k)
                obs = Batch(obs=np.zeros((b, n)), mask=mm.copy()) if with_mask else np.zeros((b, n))
                batch = Batch(obs=obs, info=[None] * b)
                act = p.exploration_noise(greedy.copy(), batch)
                R.equal(act.shape, greedy.shape, "one action per row")
                R.expect(bool(((act >= 0) & (act < n)).all()), "action outside the action space", act=act)
                if with_mask:
                    R.expect(bool(m[np.arange(b), act].all()), "exploration chose a masked action", act=act)
                    R.equal(batch.obs.mask, mm, "the mask is left alone")
                if eps == 0:
                    R.equal(act, greedy, "rate 0 changes nothing")
    with R.family("exploration reaches every allowed action", 0.1):
        for k in R.cases(12):
            rng = R.rng("x", k)
            n = int(rng.randint(2, 5))
            m = masks(rng, 1, n)
            with R.case("coverage", mask=m, n=n):
                R.seed_all("x", k)
                p = make("DQN", n)
                p(Batch(obs=np.zeros((1, n), np.float32), info=[None]))
                for eps in (1.0, 0.5):
                    p.set_eps(eps)
                    b = 4000
                    g = int(np.flatnonzero(m[0])[0])
                    act = p.exploration_noise(np.full(b, g), Batch(obs=Batch(obs=np.zeros((b, n)), mask=m.repeat(b, 0))))
                    freq = np.bincount(act, minlength=n) / b
                    want = np.where(m[0], eps / m[0].sum(), 0)
                    want[g] += 1 - eps
                    R.expect(bool((np.abs(freq - want) < 0.06).all()), "frequencies of explored actions", got=freq, want=want)
    with R.family("random policy"):
        for k in R.cases(None if R.thorough else 500):
            rng = R.rng("r", k)
            n, b = int(rng.randint(1, 7)), int(rng.randint(1, 8))
            m = masks(rng, b, n)
            with R.case("random", mask=m, _trivial=n == 1):
                R.seed_all("r", k)
                p = MARLRandomPolicy(action_space=gym.spaces.Discrete(n))
                mm = m.copy()
                act = np.asarray(p(Batch(obs=Batch(obs=np.zeros((b, n)), mask=mm))).act)
                R.equal(act.shape, (b,), "one action per row")
                R.expect(bool(m[np.arange(b), act].all()), "random policy chose a masked action", act=act)
                R.equal(mm, m, "the mask is left alone")
