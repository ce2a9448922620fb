"""P28: clipped policy updates optimise exactly the documented surrogate."""
import copy
import warnings
import gymnasium as gym
import numpy as np
import torch
from torch import nn
from tianshou.data import Batch, ReplayBuffer, VectorReplayBuffer
from tianshou.policy import A2CPolicy, PGPolicy, PPOPolicy

RULE = ("real PPO/A2C/PG policies with small linear networks on random buffers; every minibatch's sample ids are recorded, and losses and the resulting "
        "parameters are recomputed with a per-sample reference of the documented objective; all combinations of clipping, dual clip, value clip, advantage "
        "and return normalisation, recomputed advantages, minibatch sizes; non-trivial when some ratio leaves the clip range")
warnings.simplefilter("ignore")
D = 3


class Actor(nn.Module):
    def __init__(self, cont):
        super().__init__()
        self.cont = cont
        self.lin = nn.Linear(D, 2 if cont else 4)
        self.log_std = nn.Parameter(torch.zeros(2) - 0.3)
        self.seen = None
        self.max_action = 1.0

    def std(self):
        return 0.3 + nn.functional.softplus(self.log_std)

    def forward(self, obs, state=None, info=None):
        o = torch.as_tensor(np.asarray(obs), dtype=torch.float32)
        if self.seen is not None:
            self.seen.append(o[:, 0].numpy().astype(int).tolist())
        x = self.lin(o[:, 1:])
        if self.cont:
            return (x, self.std().expand_as(x)), state
        return x, state


class CriticNet(nn.Module):
    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(D, 1)

    def forward(self, obs, *a, **k):
        return self.lin(torch.as_tensor(np.asarray(obs), dtype=torch.float32)[:, 1:])


def dist_fn(cont):
    if cont:
        return lambda p: torch.distributions.Independent(torch.distributions.Normal(*p), 1)
    return lambda l: torch.distributions.Categorical(logits=l)


def fill(rng, n_env, steps, cont):
    buf = VectorReplayBuffer(n_env * 64, n_env)
    nid = 0
    for e in range(n_env):
        feat = rng.standard_normal(D)
        for t in range(steps[e]):
            nf = rng.standard_normal(D)
            act = rng.standard_normal(2).astype(np.float32) if cont else int(rng.randint(4))
            term, trunc = rng.random_sample() < 0.15, rng.random_sample() < 0.1
            buf.add(Batch(obs=np.concatenate([[nid], feat])[None], act=np.array([act]), rew=np.array([rng.standard_normal()]), terminated=np.array([term]), truncated=np.array([trunc]),
                          obs_next=np.concatenate([[nid], nf])[None], info=Batch(x=np.array([0]))), buffer_ids=[e])
            nid += 1
            feat = rng.standard_normal(D) if term or trunc else nf
    return buf, nid


def ref_gae(buf, batch, v, vn, gamma, lam, unfinished):
    n = len(v)
    adv = np.zeros(n)
    acc = 0.0
    idx = batch["__idx"]
    for k in range(n - 1, -1, -1):
        term, done = batch["term"][k], batch["term"][k] or batch["trunc"][k]
        end = done or idx[k] in unfinished
        delta = batch["rew"][k] + gamma * (0.0 if term else vn[k]) - v[k]
        acc = delta + (0.0 if end else gamma * lam * acc)
        adv[k] = acc
    return adv + v, adv


def make(rng, kind, cont, o):
    torch.manual_seed(int(rng.randint(10**6)))
    actor, critic = Actor(cont), CriticNet()
    with torch.no_grad():
        actor.lin.weight.mul_(1.5)
    params = list(actor.parameters()) + list(critic.parameters())
    optim = torch.optim.SGD(params, lr=o["lr"])
    space = gym.spaces.Box(-1, 1, (2,)) if cont else gym.spaces.Discrete(4)
    common = dict(actor=actor, optim=optim, dist_fn=dist_fn(cont), action_space=space, action_scaling=cont, discount_factor=o["gamma"], reward_normalization=o["rew_norm"])
    if kind == "pg":
        return PGPolicy(**common), actor, critic
    common.update(critic=critic, vf_coef=o["vf"], ent_coef=o["ent"], max_grad_norm=o["mgn"], gae_lambda=o["lam"], max_batchsize=o["maxb"])
    if kind == "a2c":
        return A2CPolicy(**common), actor, critic
    return PPOPolicy(eps_clip=o["eps"], dual_clip=o["dual"], value_clip=o["vclip"], advantage_normalization=o["norm"], recompute_advantage=o["recomp"], **common), actor, critic


def logp_ent(actor, cont, o, a):
    """log-probability and entropy of one sample from the definition of the distribution"""
    x = actor.lin(o)
    if cont:
        std = actor.std()
        lp = (-0.5 * ((a - x) / std) ** 2 - torch.log(std) - 0.5 * np.log(2 * np.pi)).sum()
        ent = (0.5 + 0.5 * np.log(2 * np.pi) + torch.log(std)).sum()
        return lp, ent
    p = torch.softmax(x, 0)
    return torch.log(p[int(a)]), -(p * torch.log(p)).sum()


def one(R, rng, kind, cont, o, n_env):
    steps = [int(rng.randint(3, 9)) for _ in range(n_env)]
    buf, n = fill(rng, n_env, steps, cont)
    pol, actor, critic = make(rng, kind, cont, o)
    pol.train()
    batch, idx = buf.sample(0)
    rows = dict(rew=np.array(batch.rew, float), term=np.array(batch.terminated), trunc=np.array(batch.truncated), __idx=idx)
    rows["obs"] = torch.tensor(np.array(batch.obs)[:, 1:], dtype=torch.float32)
    rows["obsn"] = torch.tensor(np.array(batch.obs_next)[:, 1:], dtype=torch.float32)
    rows["act"] = torch.tensor(np.array(batch.act))
    ids = np.array(batch.obs)[:, 0].astype(int)
    pos = {int(i): k for k, i in enumerate(ids)}
    unfinished = set(int(x) for x in buf.unfinished_index())
    rms_mean, rms_var = 0.0, 1.0
    out = pol.process_fn(batch, buf, idx)
    with torch.no_grad():
        v = critic.lin(rows["obs"])[:, 0].numpy().astype(float)
        vn = critic.lin(rows["obsn"])[:, 0].numpy().astype(float)
    eps8 = 1e-8
    if kind == "pg":
        zero = np.zeros(n)
        ret, _ = ref_gae(buf, rows, zero, zero + rms_mean, o["gamma"], 1.0, unfinished)
        want_ret = (ret - rms_mean) / np.sqrt(rms_var + eps8) if o["rew_norm"] else ret
        R.equal(np.array(out.returns, float), want_ret, "Monte-Carlo returns", tol=2e-4)
    else:
        s = np.sqrt(rms_var + eps8) if o["rew_norm"] else 1.0
        ret, adv = ref_gae(buf, rows, v * s, vn * s, o["gamma"], o["lam"], unfinished)
        want_ret = ret / s
        R.equal(out.returns.numpy().astype(float), want_ret, "value targets", tol=2e-4)
        R.equal(out.adv.numpy().astype(float), adv, "advantages", tol=2e-4)
        R.equal(out.v_s.numpy().astype(float), v, "old values", tol=1e-5)
    if kind == "ppo":
        with torch.no_grad():
            lp = np.array([float(logp_ent(actor, cont, rows["obs"][k], rows["act"][k])[0]) for k in range(n)])
        R.equal(out.logp_old.numpy().astype(float), lp, "old log-probabilities", tol=1e-4)
        # move the ratios away from one, so that clipping matters
        shift = rng.standard_normal(n) * o["shift"]
        out.logp_old = out.logp_old + torch.tensor(shift, dtype=torch.float32)
        lp_old = lp + shift
        if o["vclip"]:
            out.v_s = out.v_s + torch.tensor(rng.standard_normal(n) * 0.5, dtype=torch.float32)
        v_old = out.v_s.numpy().astype(float)
    ref_actor, ref_critic = copy.deepcopy(actor), copy.deepcopy(critic)
    ref_params = list(ref_actor.parameters()) + list(ref_critic.parameters())
    ref_opt = torch.optim.SGD(ref_params, lr=o["lr"])
    actor.seen = []
    rms0 = (float(pol.ret_rms.mean), float(pol.ret_rms.var))
    recomputed = []
    if kind == "ppo" and o["recomp"]:
        orig = pol._compute_returns

        def spy(*a, **k):
            seen, actor.seen = actor.seen, None
            recomputed.append((len(seen), float(pol.ret_rms.mean), float(pol.ret_rms.var)))
            try:
                return orig(*a, **k)
            finally:
                actor.seen = seen
        pol._compute_returns = spy
    before = copy.deepcopy([p.detach().clone() for p in ref_params])
    stats = pol.learn(out, o["bs"], o["repeat"])
    mbs = actor.seen
    actor.seen = None
    # every sample exactly once per repetition
    flat = [i for mb in mbs for i in mb]
    R.equal(len(flat), n * o["repeat"], "number of samples visited")
    cut = []
    acc = []
    for mb in mbs:
        acc += mb
        cut.append(mb)
        if len(acc) == n:
            R.equal(sorted(acc), sorted(ids.tolist()), "every sample exactly once per repetition")
            acc = []
    R.expect(not acc, "a minibatch reaches across repetitions")
    bs = o["bs"] or n
    R.expect(all(len(mb) >= min(bs, n) for mb in mbs), "minibatches have at least the requested size", sizes=[len(m) for m in mbs])
    losses, a_losses, v_losses, e_losses = [], [], [], []
    cur_ret, cur_adv = want_ret, (adv if kind != "pg" else None)
    seen = 0
    any_clip = False
    rep = 0
    for mb in mbs:
        if kind == "ppo" and o["recomp"] and seen and seen % n == 0:
            with torch.no_grad():
                rv = ref_critic.lin(rows["obs"])[:, 0].numpy().astype(float)
                rvn = ref_critic.lin(rows["obsn"])[:, 0].numpy().astype(float)
            var = recomputed[rep][2] if rep < len(recomputed) else rms0[1]
            s = np.sqrt(var + eps8) if o["rew_norm"] else 1.0
            ret2, cur_adv = ref_gae(buf, rows, rv * s, rvn * s, o["gamma"], o["lam"], unfinished)
            cur_ret, v_old = ret2 / s, rv
            rep += 1
        seen += len(mb)
        ks = [pos[i] for i in mb]
        m = len(ks)
        a = None
        if kind != "pg":
            a = cur_adv[ks]
        if kind == "ppo" and o["norm"]:
            mean = a.mean()
            a = (a - mean) / (np.sqrt(((a - mean) ** 2).sum() / (m - 1)) + eps8)
        al, vl, el = 0.0, 0.0, 0.0
        for j, k in enumerate(ks):
            lp_k, ent = logp_ent(ref_actor, cont, rows["obs"][k], rows["act"][k])
            if kind == "pg":
                al = al - lp_k * float(cur_ret[k]) / m
                continue
            A = float(a[j])
            val = ref_critic.lin(rows["obs"][k])[0]
            if kind == "a2c":
                al = al - lp_k * A / m
                vl = vl + (float(cur_ret[k]) - val) ** 2 / m
            else:
                ratio = torch.exp(lp_k - float(lp_old[k]))
                clipped = ratio if 1 - o["eps"] <= float(ratio) <= 1 + o["eps"] else torch.tensor(1 - o["eps"] if float(ratio) < 1 else 1 + o["eps"])
                any_clip |= clipped is not ratio
                t = ratio * A if float(ratio * A) <= float(clipped * A) else clipped * A
                if o["dual"] and A < 0:
                    t = t if float(t) >= o["dual"] * A else torch.tensor(o["dual"] * A)
                al = al - t / m
                e1 = (float(cur_ret[k]) - val) ** 2
                if o["vclip"]:
                    d = val - float(v_old[k])
                    dc = d if abs(float(d)) <= o["eps"] else torch.tensor(float(np.sign(float(d))) * o["eps"])
                    e2 = (float(cur_ret[k]) - (float(v_old[k]) + dc)) ** 2
                    e1 = e1 if float(e1) >= float(e2) else e2
                vl = vl + e1 / m
            el = el + ent / m
        loss = al if kind == "pg" else al + o["vf"] * vl - o["ent"] * el
        ref_opt.zero_grad()
        loss.backward()
        if kind != "pg" and o["mgn"]:
            tot = float(torch.sqrt(sum((p.grad ** 2).sum() for p in ref_params if p.grad is not None)))
            if tot > o["mgn"]:
                for p in ref_params:
                    if p.grad is not None:
                        p.grad.mul_(o["mgn"] / (tot + 1e-6))
        ref_opt.step()
        losses.append(float(loss))
        a_losses.append(float(al))
        v_losses.append(float(vl))
        e_losses.append(float(el))

    def summ(st, want, name):
        R.equal([st.mean, st.max, st.min], [float(np.mean(want)), float(np.max(want)), float(np.min(want))], name, tol=2e-3, opts=o)
    summ(stats.loss, losses, "total loss")
    if kind == "a2c":
        summ(stats.actor_loss, a_losses, "actor loss")
    if kind == "ppo":
        summ(stats.clip_loss, a_losses, "clipped actor loss")
        R.equal(stats.gradient_steps, len(mbs), "gradient steps reported")
    if kind != "pg":
        summ(stats.vf_loss, v_losses, "value loss")
        summ(stats.ent_loss, e_losses, "entropy")
    got = list(actor.parameters()) + (list(critic.parameters()) if kind != "pg" else [])
    for p, q in zip(got, ref_params):
        R.equal(p.detach().numpy().astype(float), q.detach().numpy().astype(float), "parameters after the update (gradient of the documented loss)", tol=3e-3, opts=o)


def options(rng):
    return dict(lr=float(rng.choice([0.005, 0.02])), gamma=float(rng.choice([0.0, 0.9, 0.99, 1.0])), lam=float(rng.choice([0.0, 0.5, 0.95, 1.0])), rew_norm=bool(rng.randint(4) == 0),
                vf=float(rng.choice([0.0, 0.5, 1.0])), ent=float(rng.choice([0.0, 0.01, 0.3])), mgn=[None, 0.3, 5.0][rng.randint(3)], maxb=int(rng.choice([2, 5, 256])),
                eps=float(rng.choice([0.1, 0.2, 0.4])), dual=[None, 1.5, 3.0][rng.randint(3)], vclip=bool(rng.randint(2)), norm=bool(rng.randint(2)), recomp=bool(rng.randint(3) == 0),
                bs=[None, 2, 3, 5, 100][rng.randint(5)], repeat=int(rng.choice([1, 2, 3])), shift=float(rng.choice([0.0, 0.3, 1.0])))


def run(R):
    for kind, share, n in (("ppo", 0.6, 260), ("a2c", 0.2, 80), ("pg", 0.15, 80)):
        with R.family(kind, share):
            for k in R.cases(None if R.thorough else n):
                rng = R.rng(kind, k)
                o = options(rng)
                cont = bool(rng.randint(2))
                with R.case("update", k=k, kind=kind, cont=cont, opts=o):
                    R.seed_all(kind, k)
                    torch.set_num_threads(1)
                    one(R, rng, kind, cont, o, int(rng.randint(1, 4)))
    with R.family("construction", 0.05):
        for bad in (1.0, 0.5, 0.0, -2.0):
            with R.case("dual_clip", bad=bad):
                rng = R.rng("c")
                R.raises(AssertionError, lambda: make(rng, "ppo", False, dict(options(rng), dual=bad)), "dual clip bound not above one")
