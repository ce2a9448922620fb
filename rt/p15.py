"""P15: target networks follow their synchronisation rule, bootstrap values use target networks."""
import copy
import itertools
import math
import warnings
import gymnasium as gym
import numpy as np
import torch
from torch import nn
from tianshou.data import Batch, ReplayBuffer
from tianshou.policy import (BCQPolicy, C51Policy, CQLPolicy, DDPGPolicy, DiscreteBCQPolicy, DiscreteCQLPolicy, DiscreteCRRPolicy,
                             DiscreteSACPolicy, DQNPolicy, IQNPolicy, QRDQNPolicy, RainbowPolicy, REDQPolicy, SACPolicy, TD3BCPolicy, TD3Policy)
from tianshou.utils.net.common import EnsembleLinear, Net
from tianshou.utils.net.continuous import VAE, Actor, ActorProb, Critic, Perturbation
from tianshou.utils.torch_utils import policy_within_training_step

warnings.simplefilter("ignore")
RULE = ("every off-policy and offline family with small random networks, random tau / frequency / delay, several learning calls on random batches; target "
        "parameters compared with the documented recurrence, bootstrap values with the target critics' recorded outputs; non-trivial when "
        "online and target networks differ")
S, A = 3, 2


def snap(m):
    return [p.detach().clone().numpy() for p in m.parameters()]


def jiggle(m, rng):
    with torch.no_grad():
        for p in m.parameters():
            p.add_(torch.tensor(rng.randn(*p.shape) * 0.3, dtype=p.dtype))


class QNet(nn.Module):
    """value network with n outputs per action"""

    def __init__(self, n_act, atoms=0, positive=False):
        super().__init__()
        self.n_act, self.atoms, self.positive = n_act, atoms, positive
        self.body = nn.Sequential(nn.Linear(S, 8), nn.Tanh(), nn.Linear(8, n_act * max(1, atoms)))

    def forward(self, obs, state=None, info=None, sample_size=None, **k):
        o = torch.as_tensor(np.asarray(obs) if not isinstance(obs, torch.Tensor) else obs, dtype=torch.float32)
        y = self.body(o)
        if self.atoms:
            y = y.view(len(o), self.n_act, self.atoms)
            if self.positive:
                y = y.softmax(-1)
        if sample_size is not None:
            taus = torch.linspace(0.1, 0.9, sample_size).repeat(len(o), 1)
            return (y.mean(-1, keepdim=True) + taus[:, None, :], taus), state
        return y, state


class Plain(nn.Module):
    def __init__(self, out):
        super().__init__()
        self.body = nn.Sequential(nn.Linear(S, 8), nn.Tanh(), nn.Linear(8, out))

    def forward(self, obs, state=None, info=None):
        o = torch.as_tensor(np.asarray(obs) if not isinstance(obs, torch.Tensor) else obs, dtype=torch.float32)
        return self.body(o)


class Spy(nn.Module):
    """a target network that records what it is asked"""

    def __init__(self, m):
        super().__init__()
        self.m, self.calls = m, []

    def forward(self, *a, **k):
        r = self.m(*a, **k)
        self.calls.append((a, r.detach().clone() if isinstance(r, torch.Tensor) else r))
        return r


BOX = gym.spaces.Box(-1, 1, (A,))


def cont(kind, rng, **kw):
    lr = 0.05
    opt = lambda m: torch.optim.SGD(m.parameters(), lr)
    critic = lambda: Critic(Net(S, A, hidden_sizes=[8], concat=True))
    if kind == "BCQ":
        pert = Perturbation(Net(S, A, hidden_sizes=[8], concat=True, activation=nn.Tanh, softmax=False) if False else MLPPert(), 1.0, phi=0.05)
        vae = VAE(MLPIn(S + A, 8), MLPIn(S + 2, A), 8, 2, 1.0)
        c, c2 = critic(), critic()
        return BCQPolicy(actor_perturbation=pert, actor_perturbation_optim=opt(pert), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), action_space=BOX,
                         vae=vae, vae_optim=opt(vae), **kw)
    if kind in ("DDPG", "TD3", "TD3BC"):
        a, c = Actor(Net(S, hidden_sizes=[8]), A), critic()
        cls = {"DDPG": DDPGPolicy, "TD3": TD3Policy, "TD3BC": TD3BCPolicy}[kind]
        if kind != "DDPG":
            c2 = critic()
            kw.update(critic2=c2, critic2_optim=opt(c2))
        return cls(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), action_space=BOX, **kw)
    a = ActorProb(Net(S, hidden_sizes=[8]), A, unbounded=True, conditioned_sigma=True)
    if kind == "REDQ":
        lin = lambda x, y: EnsembleLinear(4, x, y)
        c = Critic(Net(S, A, hidden_sizes=[8], concat=True, linear_layer=lin), linear_layer=lin, flatten_input=False)
        return REDQPolicy(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), action_space=BOX, ensemble_size=4, **kw)
    c, c2 = critic(), critic()
    cls = {"SAC": SACPolicy, "CQL": CQLPolicy}[kind]
    return cls(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), action_space=BOX, **kw)


class MLPPert(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(S + A, A)

    def forward(self, x, *a):
        return self.l(x), None


class MLPIn(nn.Module):
    def __init__(self, i, o):
        super().__init__()
        self.l = nn.Linear(i, o)

    def forward(self, x):
        return self.l(x)


def hard(kind, rng, freq):
    opt = lambda m: torch.optim.SGD(m.parameters(), 0.05)
    sp = gym.spaces.Discrete(A)
    kw = dict(action_space=sp, target_update_freq=freq)
    if kind == "CRR":
        a, c = QNet(A), Plain(A)
        return DiscreteCRRPolicy(actor=a, critic=c, optim=torch.optim.SGD([*a.parameters(), *c.parameters()], 0.05), **kw)
    if kind == "DBCQ":
        m, im = QNet(A), QNet(A)
        return DiscreteBCQPolicy(model=m, imitator=im, optim=torch.optim.SGD([*m.parameters(), *im.parameters()], 0.05), **kw)
    if kind == "DQN":
        m = QNet(A)
        return DQNPolicy(model=m, optim=opt(m), is_double=bool(rng.rand() < 0.5), **kw)
    if kind in ("C51", "Rainbow"):
        m = QNet(A, 3, True)
        return (C51Policy if kind == "C51" else RainbowPolicy)(model=m, optim=opt(m), num_atoms=3, **kw)
    if kind in ("QRDQN", "DCQL"):
        m = QNet(A, 3)
        return (QRDQNPolicy if kind == "QRDQN" else DiscreteCQLPolicy)(model=m, optim=opt(m), num_quantiles=3, **kw)
    m = QNet(A, 3)
    return IQNPolicy(model=m, optim=opt(m), sample_size=3, online_sample_size=3, target_sample_size=3, **kw)


def cbatch(rng, n=4):
    return Batch(obs=rng.randn(n, S).astype(np.float32), act=rng.uniform(-1, 1, (n, A)).astype(np.float32), rew=rng.randn(n).astype(np.float32),
                 obs_next=rng.randn(n, S).astype(np.float32), done=rng.rand(n) < 0.3, terminated=rng.rand(n) < 0.3, truncated=np.zeros(n, bool), info=Batch(),
                 returns=torch.tensor(rng.randn(n), dtype=torch.float32), calibration_returns=rng.randn(n).astype(np.float32))


def pairs(p, kind):
    """(target, online) modules"""
    names = {"DDPG": ["actor", "critic"], "TD3": ["actor", "critic", "critic2"], "TD3BC": ["actor", "critic", "critic2"], "SAC": ["critic", "critic2"],
             "CQL": ["critic", "critic2"], "DSAC": ["critic", "critic2"], "REDQ": ["critic"], "BCQ": ["critic", "critic2", "actor_perturbation"]}
    suf = "_target" if kind == "BCQ" else "_old"
    return [(n, getattr(p, n + suf), getattr(p, n)) for n in names[kind]]


def buffer_for(rng, n=5):
    b = ReplayBuffer(8)
    for i in range(n):
        b.add(Batch(obs=rng.randn(S).astype(np.float32), act=0, rew=1.0, terminated=False, truncated=i == n - 1, obs_next=rng.randn(S).astype(np.float32), info={}))
    return b


def run(R):
    torch.set_num_threads(1)
    with R.family("soft update", 0.15):
        for k in R.cases(None if R.thorough else 400):
            rng = R.rng("s", k)
            R.seed_all("s", k)
            tau = float(rng.choice([0.0, 1.0, 0.005, 0.3, rng.rand()]))
            with R.case("soft_update", tau=tau, k=k):
                p = DQNPolicy(model=QNet(A), optim=None, action_space=gym.spaces.Discrete(A))
                m = nn.Sequential(nn.Linear(S, 4), nn.BatchNorm1d(4), nn.Linear(4, int(rng.randint(1, 5)))) if k % 2 else QNet(A, 3)
                t = copy.deepcopy(m)
                jiggle(m, rng)
                jiggle(t, rng)
                if rng.rand() < 0.4:     # frozen parameters follow the same rule
                    for mod in (m, t):
                        for q in mod.parameters():
                            if rng.rand() < 0.5:
                                q.requires_grad_(False)
                o, o_t = snap(m), snap(t)
                grads = [q.requires_grad for q in t.parameters()]
                for _ in range(int(rng.randint(1, 4))):
                    p.soft_update(t, m, tau)
                    o_t = [tau * a + (1 - tau) * b for a, b in zip(o, o_t)]
                    for a, b in zip(snap(t), o_t):
                        R.equal(a, b, "soft update of the target", 1e-5)
                for a, b in zip(snap(m), o):
                    R.equal(a, b, "the online network is left alone")
                R.equal([q.requires_grad for q in t.parameters()], grads, "parameters stay what they are")
                R.raises(ValueError, lambda: p.soft_update(t, nn.Sequential(m, nn.Linear(2, 2)), tau), "modules of different size")
    with R.family("hard synchronisation", 0.25):
        KH = ("DQN", "C51", "Rainbow", "QRDQN", "IQN", "CRR", "DBCQ", "DCQL")
        for k in R.cases(None if R.thorough else 240):
            rng = R.rng("h", k)
            R.seed_all("h", k)
            kind, freq = KH[k % 8], int(rng.randint(1, 5))
            steps = int(rng.randint(1, 10))
            with R.case("hard", policy=kind, freq=freq, steps=steps, k=k):
                p = hard(kind, rng, freq)
                tg = [("model", p.model_old, p.model)] if kind != "CRR" else [("actor", p.actor_old, p.actor), ("critic", p.critic_old, p.critic)]
                for _, t, o in tg:
                    for a, b in zip(snap(t), snap(o)):
                        R.equal(a, b, "the target starts as a copy")
                    R.expect(all(x is not y for x, y in zip(t.parameters(), o.parameters())), "the target has parameters of its own")
                    jiggle(t, rng)
                for i in range(steps):
                    before = [(snap(t), snap(o)) for _, t, o in tg]
                    b = cbatch(rng)
                    b.act = rng.randint(0, A, size=len(b))
                    if kind in ("QRDQN", "IQN", "DCQL", "C51", "Rainbow"):
                        b.returns = torch.tensor(rng.randn(len(b), 3), dtype=torch.float32)
                    if kind == "CRR":
                        b.returns = b.returns
                    p.learn(b)
                    for (name, t, o), (bt, bo) in zip(tg, before):
                        want = bo if i % freq == 0 else bt
                        for a, w in zip(snap(t), want):
                            R.equal(a, w, f"target of {name} after learning step {i}", synced=i % freq == 0)
                        R.expect(any(not np.array_equal(a, w) for a, w in zip(snap(o), bo)), f"{name} learns")
                    if rng.rand() < 0.2:
                        p.train(bool(rng.rand() < 0.5))
                jiggle(tg[0][2], rng)
                p.sync_weight()
                for name, t, o in tg:
                    for a, b in zip(snap(t), snap(o)):
                        R.equal(a, b, "explicit synchronisation copies")
            if kind in ("DQN", "C51", "QRDQN"):
                with R.case("no target", policy=kind, _trivial=True):
                    p = hard(kind, rng, 0)
                    b = cbatch(rng)
                    b.act = rng.randint(0, A, size=len(b))
                    if kind != "DQN":
                        b.returns = torch.tensor(rng.randn(len(b), 3), dtype=torch.float32)
                    p.learn(b)
                    R.expect(not hasattr(p, "model_old"), "no target network without a frequency")
    with R.family("soft synchronisation while learning", 0.3):
        KS = ("DDPG", "TD3", "SAC", "DSAC", "REDQ", "TD3BC", "CQL", "BCQ")
        for k in R.cases(None if R.thorough else 200):
            rng = R.rng("l", k)
            R.seed_all("l", k)
            kind = KS[k % 8]
            tau = float(rng.choice([0.0, 1.0, 0.005, 0.5, 0.25]))
            kw = dict(tau=tau)
            freq = int(rng.randint(1, 4))
            auto = bool(rng.rand() < 0.5) and kind in ("SAC", "DSAC", "REDQ", "CQL")
            if kind in ("TD3", "TD3BC"):
                kw["update_actor_freq"] = freq
            if kind == "REDQ":
                kw.update(actor_delay=freq, subset_size=2)
            if kind == "BCQ":
                kw.update(forward_sampled_times=3, num_sampled_action=2)
            if kind == "CQL":
                kw.update(num_repeat_actions=2, calibrated=bool(rng.rand() < 0.5), with_lagrange=bool(rng.rand() < 0.5))
            if auto:
                la = torch.zeros(1, requires_grad=True)
                kw["alpha"] = (-2.0, la, torch.optim.SGD([la], 0.1))
            steps = int(rng.randint(1, 6))
            with R.case("soft", policy=kind, tau=tau, freq=freq, auto_alpha=auto, steps=steps, k=k):
                if kind == "DSAC":
                    a, c, c2 = QNet(A), Plain(A), Plain(A)
                    opt = lambda m: torch.optim.SGD(m.parameters(), 0.05)
                    p = DiscreteSACPolicy(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2),
                                          action_space=gym.spaces.Discrete(A), **kw)
                else:
                    p = cont(kind, rng, **kw)
                for _, t, o in pairs(p, kind):
                    for a, b in zip(snap(t), snap(o)):
                        R.equal(a, b, "the target starts as a copy")
                    jiggle(t, rng)
                for i in range(steps):
                    pr = pairs(p, kind)
                    before = [(snap(t), snap(o)) for _, t, o in pr]
                    b = cbatch(rng)
                    if kind == "DSAC":
                        b.act = rng.randint(0, A, size=len(b))
                    if kind == "CQL":
                        b = Batch({q: b[q] for q in ("obs", "act", "rew", "obs_next", "done", "calibration_returns")})
                    if kind == "BCQ":
                        b = Batch({q: b[q] for q in ("obs", "act", "rew", "obs_next", "done")})
                    with policy_within_training_step(p):
                        p.learn(b)
                    synced = not (kind in ("TD3", "TD3BC") and i % freq != 0)
                    for (name, t, o), (bt, bo) in zip(pr, before):
                        now = snap(o)
                        for j, (a, w) in enumerate(zip(snap(t), bt)):
                            want = tau * now[j] + (1 - tau) * w if synced else w
                            R.equal(a, want, f"target of {name} after learning step {i}", 1e-4, synced=synced)
    with R.family("bootstrap values"):
        KB = ("DDPG", "TD3", "SAC", "DSAC", "REDQ", "DQN", "TD3BC", "QRDQN")
        for k in R.cases(None if R.thorough else 400):
            rng = R.rng("b", k)
            R.seed_all("b", k)
            kind = KB[k % 8]
            buf = buffer_for(rng)
            idx = rng.randint(0, len(buf), size=int(rng.randint(1, 5)))
            with R.case("target_q", policy=kind, idx=idx, k=k):
                o = torch.tensor(np.asarray(buf[idx].obs_next), dtype=torch.float32)
                cmp = lambda got, want, msg, **d: R.equal(got.detach().numpy().reshape(len(idx), -1), want.detach().numpy().reshape(len(idx), -1), msg, 1e-4, **d)
                if kind in ("DQN", "QRDQN"):
                    tgt = bool(rng.rand() < 0.7)
                    p = hard(kind, rng, 3 if tgt else 0)
                    if tgt:
                        jiggle(p.model_old, rng)
                    with torch.no_grad():
                        on, old = p.model(o)[0], (p.model_old if tgt else p.model)(o)[0]
                        got = p._target_q(buf, idx)
                    if kind == "DQN":
                        want = old.gather(1, on.argmax(1, keepdim=True))[:, 0] if p.is_double else old.max(1)[0]
                    else:
                        a = on.mean(2).argmax(1)
                        want = old[torch.arange(len(idx)), a]
                    cmp(got, want, "bootstrap value", double=p.is_double, target=tgt)
                    continue
                if kind == "DSAC":
                    a, c, c2 = QNet(A), Plain(A), Plain(A)
                    opt = lambda m: torch.optim.SGD(m.parameters(), 0.05)
                    p = DiscreteSACPolicy(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2),
                                          action_space=gym.spaces.Discrete(A), alpha=0.37)
                    jiggle(p.critic_old, rng)
                    jiggle(p.critic2_old, rng)
                    with torch.no_grad():
                        got = p._target_q(buf, idx)
                        pr = torch.softmax(p.actor(o)[0], -1)
                        want = (pr * (torch.minimum(p.critic_old(o), p.critic2_old(o)) - 0.37 * torch.log(pr))).sum(-1)
                    cmp(got, want, "bootstrap value")
                    continue
                kw, noise, nclip = {}, 0.0, 0.0
                if kind in ("TD3", "TD3BC"):
                    noise, nclip = float(rng.choice([0.0, 0.2, 5.0])), float(rng.choice([0.5, 0.1, 0.0]))
                    kw = dict(policy_noise=noise, noise_clip=nclip)
                alpha = 0.37
                sub, mode = int(rng.randint(1, 5)), ("min", "mean")[rng.randint(2)]
                if kind == "SAC":
                    kw = dict(alpha=alpha)
                if kind == "REDQ":
                    kw = dict(alpha=alpha, subset_size=sub, target_mode=mode)
                p = cont(kind, rng, **kw)
                for _, t, _o in pairs(p, kind):
                    jiggle(t, rng)
                critics = [n for n in ("critic_old", "critic2_old") if hasattr(p, n)]
                spies = []
                for n in critics:
                    sp = Spy(getattr(p, n))
                    setattr(p, n, sp)
                    spies.append(sp)
                with torch.no_grad(), policy_within_training_step(p, bool(rng.rand() < 0.5)):
                    got = p._target_q(buf, idx)
                    acts = []
                    for sp in spies:
                        R.expect(len(sp.calls) == 1, "each target critic is asked once", got=len(sp.calls))
                        (oo, act), _ = sp.calls[0]
                        R.equal(np.asarray(oo), o.numpy(), "target critics see the next observation")
                        acts.append(act.detach())
                    for a in acts[1:]:
                        R.equal(a.numpy(), acts[0].numpy(), "both target critics see the same action")
                    act = acts[0]
                    qs = [sp.m(o, act) for sp in spies]
                    if kind in ("DDPG", "TD3", "TD3BC"):
                        base = p.actor_old(o)[0]
                        dev = (act - base).abs().max().item()
                        if kind == "DDPG" or noise == 0:
                            R.expect(dev < 1e-5, "action of the target actor", dev=dev)
                        elif nclip > 0:
                            R.expect(dev <= nclip + 1e-5, "smoothing noise stays in its clip range", dev=dev, clip=nclip)
                            R.expect(noise < 1 or dev > 1e-3, "smoothing noise is applied", dev=dev)
                        want = qs[0] if kind == "DDPG" else torch.minimum(*qs)
                        cmp(got, want, "bootstrap value")
                    else:
                        (mu, sd), _ = p.actor(o)
                        # density of the squashed action
                        u = torch.atanh(act.clamp(-1 + 1e-6, 1 - 1e-6))
                        lp = (-0.5 * ((u - mu) / sd) ** 2 - torch.log(sd) - 0.5 * math.log(2 * math.pi)).sum(-1, keepdim=True) - torch.log(1 - act ** 2 + 1e-7).sum(-1, keepdim=True)
                        if bool((act.abs() > 0.999).any()):
                            continue
                        if kind == "SAC":
                            R.equal(got.numpy(), (torch.minimum(*qs) - alpha * lp).numpy(), "bootstrap value", 5e-3)
                        else:
                            ens = qs[0]
                            cands = [(ens[list(c)].min(0)[0] if mode == "min" else ens[list(c)].mean(0)) - alpha * lp for c in itertools.combinations(range(4), sub)]
                            R.expect(any(np.allclose(got.numpy(), c.numpy(), rtol=5e-3, atol=5e-3) for c in cands), "bootstrap value is the min/mean over a subset of the ensemble",
                                     got=got.numpy(), ens=ens.numpy(), mode=mode, sub=sub)
