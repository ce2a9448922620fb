"""P21: the collector gathers what was asked for and stores exactly what happened."""
import random
import warnings
import gymnasium as gym
import numpy as np
import torch
from tianshou.data import (AsyncCollector, Batch, Collector, CollectStats, ReplayBuffer, ReplayBufferManager, SequenceSummaryStats, VectorReplayBuffer)
from tianshou.data.collector import (EpisodeRolloutHookMCReturn, EpisodeRolloutHookMerged, StepHookAddActionDistribution)
from tianshou.env import BaseVectorEnv, DummyVectorEnv
from tianshou.env.worker import EnvWorker
from tianshou.policy import BasePolicy

RULE = ("random histories of collect(n_step)/collect(n_episode)/reset calls over scripted environments that log every reset and step, 1-6 "
        "environments with arbitrary episode-length patterns, terminated and/or truncated ends, discrete and scaled continuous actions, random and "
        "policy actions, exploration noise, numpy/torch/Batch recurrent states, step and episode hooks; reference: the environments' logs; "
        "non-trivial when an episode ends inside the collection")
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)


class Env(gym.Env):
    """episode k of environment i lasts lens[k % len(lens)] steps"""

    def __init__(self, i, lens, rnd, shared, box, dictobs=False):
        self.i, self.lens, self.rnd, self.shared, self.dictobs = i, lens, rnd, shared, dictobs
        self.action_space = gym.spaces.Box(np.array([-2.0, 1.0]), np.array([4.0, 3.0]), dtype=np.float64) if box else gym.spaces.Discrete(5)
        self.observation_space = gym.spaces.Box(-1e6, 1e6, (4,), np.float64)
        self.ep, self.t, self.cur, self.over = -1, 0, None, True

    def obs(self):
        return np.array([self.i, self.ep, self.t, self.rnd.randrange(10**6)], dtype=np.float64)

    def reset(self, *, seed=None, options=None):
        self.ep += 1
        self.shared.append(("reset", self.i, self.t, self.over, options))
        self.t, self.over = 0, False
        self.cur = self.obs()
        self.info = {"who": self.i, "k": self.rnd.randrange(1000)}
        return self.cur.copy(), dict(self.info)

    def step(self, a):
        self.t += 1
        fin = self.t >= self.lens[self.ep % len(self.lens)]
        how = self.rnd.randrange(3) if fin else 3
        term, trunc = fin and how in (0, 2), fin and how in (1, 2)
        rew = self.rnd.choice([-1.0, 0.0, 0.5, 2.0]) + self.t * 0.25
        prev, self.cur = self.cur, self.obs()
        pinfo, self.info = self.info, {"who": self.i, "k": self.rnd.randrange(1000)}
        self.shared.append(("step", self.i, dict(obs=prev, exec=np.array(a, copy=True), rew=rew, terminated=term, truncated=trunc, obs_next=self.cur, k=self.info["k"],
                                                ep=self.ep, t=self.t), self.over))
        self.over = fin
        return self.cur.copy(), rew, term, trunc, dict(self.info)


class Policy(BasePolicy):
    """acts by a recorded rule; optionally recurrent (the state counts the steps of the episode)"""

    def __init__(self, R, space, rnd, kind, dist, scale, noise):
        super().__init__(action_space=space, observation_space=None, action_scaling=scale, action_bound_method="clip" if scale else None)
        self.R, self.rnd, self.kind, self.dist_on, self.scale, self.noise = R, rnd, kind, dist, scale, noise
        self.chosen = {}            # (env, ep, t) -> action of the policy
        self.modes = set()

    def forward(self, batch, state=None, **kw):
        self.modes.add((self.training, self.is_within_training_step))
        n = len(batch.obs)
        act = []
        for k in range(n):
            i, ep, t, _ = batch.obs[k]
            env = self.envs[int(i)]
            self.R.equal(np.asarray(batch.obs[k]), env.cur, "the policy sees the current observation of the environment", env=int(i))
            self.R.equal([int(batch.info.who[k]), int(batch.info.k[k])], [env.info["who"], env.info["k"]], "the policy sees the current info of the environment", env=int(i))
            a = np.array([self.rnd.uniform(-1.4, 1.4), self.rnd.uniform(-1, 1)]) if self.scale is not None and self.action_type == "continuous" else self.rnd.randrange(5)
            self.chosen[int(i), int(ep), int(t)] = np.array(a)
            act.append(a)
        out = Batch(act=np.array(act))
        if self.kind:
            got = None
            if state is not None:
                got = state["c"] if isinstance(state, Batch) else state
                got = np.asarray(got).reshape(n)
            for k in range(n):
                t = int(batch.obs[k][2])
                self.R.expect((t == 0 and got is None) or (got is not None and int(got[k]) == t), "the recurrent state given to the policy is not the one it returned for this "
                              "environment (cleared after an episode)", env=int(batch.obs[k][0]), t=t, got=None if got is None else got.tolist())
            new = np.array([int(o[2]) + 1 for o in batch.obs]).reshape(n, 1)
            out.state = {"np": new, "torch": torch.tensor(new), "batch": Batch(c=new)}[self.kind]
        else:
            self.R.expect(state is None, "a state out of nowhere")
            out.state = None
        if self.dist_on:
            out.dist = torch.distributions.Normal(torch.tensor(batch.obs[:, :2]), torch.tensor(1.0 + batch.obs[:, 2:3].repeat(2, 1)))
        if self.noise == 2:
            out.policy = Batch(tag=batch.obs[:, 0] * 1000 + batch.obs[:, 2])
        return out

    def exploration_noise(self, act, batch):
        act = np.array(act)
        for k in range(len(act)):
            i, ep, t, _ = batch.obs[k]
            act[k] = act[k] * 0.5 if self.action_type == "continuous" else (act[k] + 1) % 5
            self.chosen[int(i), int(ep), int(t)] = np.array(act[k])
        return act

    def learn(self, batch, *a, **k):
        raise NotImplementedError


class FakeWorker(EnvWorker):
    sched = random.Random(0)

    def __init__(self, fn):
        self.env = fn()
        self.queue = []
        super().__init__(fn)

    def get_env_attr(self, key):
        return getattr(self.env, key)

    def set_env_attr(self, key, value):
        setattr(self.env, key, value)

    def send(self, action, **kw):
        self.queue.append(self.env.reset(**kw) if action is None else self.env.step(action))

    def recv(self):
        return self.queue.pop(0)

    def reset(self, **kw):
        return self.env.reset(**kw)

    @staticmethod
    def wait(workers, wait_num, timeout=None):
        r = FakeWorker.sched
        return r.sample(workers, r.randint(1, len(workers)))

    def render(self, **kw):
        return None

    def close_env(self):
        pass


def executed(space, scale, a):
    """the documented action mapping for the bound method 'clip' with action_scaling"""
    if isinstance(space, gym.spaces.Box) and scale:
        c = np.clip(np.asarray(a, float), -1.0, 1.0)
        return space.low + (space.high - space.low) * (c + 1.0) / 2.0
    return np.asarray(a)


class World:
    def __init__(self, R, seed, n, is_async, box, kind, dist, noise, random_act, cap, single=False, merged=True, hook=0, dictinfo=False):
        self.R, self.n = R, n
        self.rnd = random.Random(seed)
        self.shared = []
        self.lens = [[self.rnd.choice([1, 1, 2, 3, 5, 7]) for _ in range(self.rnd.randint(1, 4))] for _ in range(n)]
        fns = [(lambda i=i: Env(i, self.lens[i], random.Random(seed * 31 + i), self.shared, box)) for i in range(n)]
        FakeWorker.sched = random.Random(seed + 1)
        self.venv = BaseVectorEnv(fns, FakeWorker, wait_num=1 if n > 1 else None) if is_async else DummyVectorEnv(fns)
        self.space = self.venv.action_space[0]
        self.scale = bool(box)
        self.noise = noise
        self.policy = Policy(R, self.space, self.rnd, kind, dist, self.scale, noise)
        self.policy.envs = [w.env for w in self.venv.workers]
        self.policy.train(self.rnd.random() < 0.5)
        self.cap = cap
        self.is_async = is_async
        self.buf = ReplayBuffer(cap) if single else VectorReplayBuffer(cap * n, n)
        self.episodes, self.steps_seen = [], []
        self.done_counter = 0
        self.hook = hook
        if is_async:
            self.col = AsyncCollector(self.policy, self.venv, self.buf, exploration_noise=noise == 1)
        else:
            on_ep = None
            if hook == 1:
                on_ep = self.on_episode
            elif hook == 2:
                on_ep = EpisodeRolloutHookMerged(self.on_episode, EpisodeRolloutHookMCReturn(gamma=0.5), self.on_episode_none)
            elif hook == 3:
                on_ep = EpisodeRolloutHookMerged(self.on_episode_none)
            self.col = Collector(self.policy, self.venv, self.buf, exploration_noise=noise == 1, on_episode_done_hook=on_ep,
                                 on_step_hook=self.on_step if self.rnd.random() < 0.6 else None)
        self.stored = [[] for _ in range(n)]     # rows of every sub-buffer since it was reset
        self.mark = 0
        self.total_steps = self.total_eps = 0

    def on_step(self, action_batch, rollout_batch):
        self.steps_seen.append((np.array(rollout_batch.obs), np.array(rollout_batch.rew), np.array(rollout_batch.act)))
        self.R.equal(np.asarray(action_batch.act), np.asarray(rollout_batch.act), "step hook: action")
        if self.rnd.random() < 0.5 and self.policy.dist_on:
            pass

    def on_episode_none(self, ep):
        return None

    def on_episode(self, ep):
        self.episodes.append([tuple(np.asarray(o).tolist()) for o in ep.obs])
        if self.hook == 3 or self.no_add:
            return None
        return {"extra": np.array([ep.obs[0][3] + 7.0 * j for j in range(len(ep.obs))])}

    # -------------------------------------------------------------------- checking
    def rows_since(self):
        new, self.mark = self.shared[self.mark:], len(self.shared)
        return new

    def check_buffer(self):
        R = self.R
        bufs = self.buf.buffers if isinstance(self.buf, ReplayBufferManager) else [self.buf]
        for e in range(self.n):
            want = self.stored[e][-self.cap:]
            b = bufs[e]
            R.equal(len(b), len(want), "rows in the sub-buffer of the environment", env=e)
            if not want:
                continue
            idx = b.sample_indices(0)
            got = b[idx] if b is self.buf else self.buf[idx + e * self.cap]
            for k, w in enumerate(want):
                R.equal(np.asarray(got.obs[k]), w["obs"], "stored observation is what the policy saw", env=e, row=k)
                R.equal(np.asarray(got.obs_next[k]), w["obs_next"], "stored next observation", env=e, row=k)
                R.equal(float(got.rew[k]), w["rew"], "stored reward", env=e, row=k)
                R.equal([bool(got.terminated[k]), bool(got.truncated[k]), bool(got.done[k])], [w["terminated"], w["truncated"], w["terminated"] or w["truncated"]], "stored flags", env=e)
                R.equal(int(got.info.k[k]), w["k"], "stored info", env=e, row=k)
                if w["act"] is not None:
                    R.equal(np.asarray(got.act[k], float), np.asarray(w["act"], float), "stored action is the one the policy chose", env=e, row=k)
                    if self.space.__class__.__name__ == "Discrete":
                        R.expect(np.issubdtype(np.asarray(got.act).dtype, np.integer), "discrete actions are stored as integers", dtype=str(np.asarray(got.act).dtype))
                R.equal(np.asarray(executed(self.space, self.scale, got.act[k]), float), np.asarray(w["exec"], float), "the environment executed the mapped stored action", env=e, tol=1e-9)
                if self.noise == 2 and w["act"] is not None:
                    R.equal(float(got.policy.tag[k]), float(w["obs"][0] * 1000 + w["obs"][2]), "stored policy entry", env=e)
                if w.get("extra") is not None:
                    R.equal(float(got.extra[k]), w["extra"], "episode hook result stored at the rows of its episode", env=e, row=k)
                    if self.hook == 2:
                        R.equal(float(got.mc_return_to_go[k]), w["mc"], "return to go stored", env=e, row=k, tol=1e-6)

    def collect(self, n_step=None, n_episode=None, rand=False):
        R = self.R
        self.no_add = n_episode is None
        nep0, st0 = len(self.episodes), len(self.steps_seen)
        modes = self.policy.training
        if n_step is not None and self.hook in (1, 2):
            return
        pend_before = [list(x) for x in self.stored]
        st = self.col.collect(n_step=n_step, n_episode=n_episode, random=rand)
        R.equal(self.policy.training, modes, "training mode restored")
        R.expect((True, False) not in self.policy.modes and (True, True) not in self.policy.modes, "the policy acts in eval mode while collecting")
        log = self.rows_since()
        finals = 0
        if n_episode is not None and not self.is_async:
            # the documented final reset of all environments
            tail = log[-self.n:]
            R.expect(len(tail) == self.n and [x[0] for x in tail] == ["reset"] * self.n and [x[1] for x in tail] == list(range(self.n)), "environments are reset after an n_episode collection",
                     tail=[x[:2] for x in tail])
            log = log[:-self.n]
        steps, eps, rets, lens = 0, 0, [], []
        need = set(self.need)          # episodes that ended in a step which has not been delivered yet
        self.need = set()
        for rec in log:
            if rec[0] == "reset":
                e = rec[1]
                R.expect(e in need, "an environment was reset although its episode had not ended", env=e)
                need.discard(e)
                continue
            _, e, w, was_over = rec
            R.expect(not was_over and e not in need, "an environment was stepped after its episode had ended", env=e)
            w = dict(w)
            key = (e, w["ep"], w["t"] - 1)
            w["act"] = None if rand else self.policy.chosen.get(key)
            if not rand and not self.is_async:
                R.expect(w["act"] is not None, "a step without an action of the policy", key=key)
            steps += 1
            self.pending[e].append(w)
            if w["terminated"] or w["truncated"]:
                need.add(e)
        # what has been delivered: everything for synchronous environments
        done_rows = []
        for e in range(self.n):
            q = self.pending[e]
            keep = 1 if (self.is_async and e in self.waiting()) else 0
            deliver, self.pending[e] = q[:len(q) - keep], q[len(q) - keep:]
            for w in deliver:
                self.stored[e].append(w)
                self.acc_add(e, w, done_rows)
            if keep and e in need:
                need.discard(e)
                self.need.add(e)
        R.expect(not need, "an environment whose episode ended was not reset", envs=sorted(need))
        delivered = sum(len(self.stored[e]) - len(pend_before[e]) for e in range(self.n))
        eps = len(done_rows)
        R.equal(int(st.n_collected_steps), delivered, "reported step count")
        R.equal(int(st.n_collected_episodes), eps, "reported episode count")
        if n_step is not None:
            R.expect(n_step <= delivered < n_step + self.n, "number of collected steps", asked=n_step, got=delivered, envs=self.n)
        elif self.is_async:
            R.expect(n_episode <= eps, "number of collected episodes", asked=n_episode, got=eps)
        else:
            R.equal(eps, n_episode, "number of collected episodes")
        R.equal(sorted(np.asarray(st.returns, float).tolist()), sorted(r for _, r, _, _ in done_rows), "reported returns", tol=1e-6)
        R.equal(sorted(np.asarray(st.lens).tolist()), sorted(l for _, _, l, _ in done_rows), "reported lengths")
        R.equal(sorted(zip(np.round(np.asarray(st.returns, float), 6).tolist(), np.asarray(st.lens).tolist())), sorted((round(r, 6), l) for _, r, l, _ in done_rows), "returns and lengths belong together")
        if eps:
            R.equal([st.returns_stat.mean, st.returns_stat.max, st.returns_stat.min], [float(np.mean(st.returns)), float(np.max(st.returns)), float(np.min(st.returns))], "summary of the returns", tol=1e-6)
            R.equal([st.lens_stat.mean, st.lens_stat.max, st.lens_stat.min], [float(np.mean(st.lens)), float(np.max(st.lens)), float(np.min(st.lens))], "summary of the lengths", tol=1e-6)
        else:
            R.expect(st.returns_stat is None and st.lens_stat is None, "summaries without episodes")
        self.total_steps += delivered
        self.total_eps += eps
        R.equal([int(self.col.collect_step), int(self.col.collect_episode)], [self.total_steps, self.total_eps], "counters of the collector")
        if self.hook in (1, 2) and not self.is_async:
            new = self.episodes[nep0:]
            R.expect(sorted(new) == sorted([tuple(w["obs"].tolist()) for w in rows] for _, _, _, rows in done_rows), "the episode hook sees every finished episode once", got=new, want=[[w["obs"].tolist() for w in rows] for _, _, _, rows in done_rows])
        if not self.is_async and self.col.get_on_step_hook() is not None:
            new = self.steps_seen[st0:]
            R.equal(sum(len(o) for o, _, _ in new), delivered, "the step hook sees every step")
        if self.hook in (1, 2) and not self.no_add:
            for e, _, l, rows in done_rows:
                g = 0.0
                for j in range(l - 1, -1, -1):
                    g = rows[j]["rew"] + 0.5 * g
                    rows[j]["mc"] = g
                    rows[j]["extra"] = float(rows[0]["obs"][3] + 7.0 * j)
        if self.policy.dist_on and not rand and not self.is_async:
            R.equal(len(st.pred_dist_std_array), delivered, "one standard deviation per step")
        self.check_buffer()
        return eps

    def waiting(self):
        return set(self.venv.waiting_id) if self.is_async else set()

    def acc_add(self, e, w, done_rows):
        self.cur_ep[e].append(w)
        if w["terminated"] or w["truncated"]:
            rows = self.cur_ep[e]
            done_rows.append((e, float(sum(x["rew"] for x in rows)), len(rows), rows))
            self.cur_ep[e] = []

    def reset(self, buf=True):
        self.col.reset(reset_buffer=buf)
        if buf:
            self.stored = [[] for _ in range(self.n)]
        self.pending = [[] for _ in range(self.n)]
        self.cur_ep = [[] for _ in range(self.n)]
        self.need = set()
        self.total_steps = self.total_eps = 0
        self.mark = len(self.shared)

    def mid_episode(self, envs):
        return any(self.cur_ep[e] or self.pending[e] for e in envs)


def history(R, rng, w, calls):
    w.reset()
    ended = 0
    for c in range(calls):
        r = rng.random_sample()
        rand = rng.random_sample() < 0.25 and not w.is_async and not w.policy.dist_on and w.noise != 2
        if r < 0.1:
            w.reset()
            if w.hook or w.policy.kind:
                pass
            continue
        if r < 0.55:
            if rand and w.policy.kind:
                rand = False
            ended += w.collect(n_step=int(rng.randint(1, 14)), rand=rand) or 0
        else:
            k = int(rng.randint(1, 2 * w.n + 3))
            if rand and w.policy.kind:
                rand = False
            if not w.is_async and w.mid_episode(range(min(k, w.n), w.n)):
                w.reset()      # environments left out of an n_episode collection are reset in the middle of their episode
            ended += w.collect(n_episode=k, rand=rand) or 0
    return ended


def run(R):
    with R.family("collector histories", 0.5):
        for k in R.cases(None if R.thorough else 900):
            rng = R.rng("sync", k)
            n = int(rng.choice([1, 1, 2, 3, 4, 6]))
            opts = dict(n=n, is_async=False, box=bool(rng.randint(2)), kind=[None, None, "np", "torch", "batch"][rng.randint(5)], dist=bool(rng.randint(3) == 0), noise=int(rng.randint(3)),
                        random_act=False, cap=int(rng.choice([7, 8, 9, 13, 30])), single=bool(n == 1 and rng.randint(2)), hook=int(rng.choice([0, 0, 1, 2, 3])))
            with R.case("history", k=k, **opts):
                R.seed_all("sync", k)
                w = World(R, seed=1000 + k + 100003 * R.seed, **opts)
                history(R, rng, w, calls=int(rng.randint(1, 7)))
    with R.family("asynchronous collector histories", 0.3):
        for k in R.cases(None if R.thorough else 500):
            rng = R.rng("async", k)
            n = int(rng.choice([2, 2, 3, 4, 5]))
            opts = dict(n=n, is_async=True, box=bool(rng.randint(2)), kind=[None, None, "np", "torch", "batch"][rng.randint(5)], dist=False, noise=int(rng.randint(3)),
                        random_act=False, cap=int(rng.choice([7, 8, 13, 30])), single=False, hook=0)
            with R.case("history", k=k, **opts):
                R.seed_all("async", k)
                w = World(R, seed=5000 + k + 100003 * R.seed, **opts)
                history(R, rng, w, calls=int(rng.randint(1, 6)))
    with R.family("arguments and hooks", 0.1):
        for k in R.cases(60):
            rng = R.rng("args", k)
            n = int(rng.randint(1, 4))
            with R.case("arguments", k=k, n=n):
                R.seed_all("args", k)
                w = World(R, seed=k, n=n, is_async=False, box=False, kind=None, dist=False, noise=0, random_act=False, cap=10)
                R.raises(ValueError, lambda: w.col.collect(n_step=3), "collecting without initial observation")
                w.reset()
                for a in (dict(), dict(n_step=0), dict(n_episode=0), dict(n_step=0, n_episode=0)):
                    R.raises(ValueError, lambda a=a: w.col.collect(**a), f"collect({a})")
                R.equal(len(w.buf), 0, "a refused call collects nothing")
                R.raises(ValueError, lambda: Collector(w.policy, w.venv, VectorReplayBuffer(10 * n, n - 1) if n > 1 else ReplayBuffer(0)), "buffer too small for the environments")
                if n > 1:
                    R.raises(ValueError, lambda: Collector(w.policy, w.venv, ReplayBuffer(50)), "single buffer with several environments")
                # merged hooks
                h1, h2 = (lambda ep: {"a": np.ones(len(ep))}), (lambda ep: {"b": np.zeros(len(ep))})
                ep = Batch(obs=np.zeros((3, 2)), rew=np.array([1.0, 2.0, 4.0]))
                R.equal(sorted(EpisodeRolloutHookMerged(h1, h2)(ep)), ["a", "b"], "merged hooks")
                R.raises(KeyError, lambda: EpisodeRolloutHookMerged(h1, h2, h1)(ep), "overlapping merged hooks")
                R.equal(sorted(EpisodeRolloutHookMerged(h1, h1, check_overlapping_keys=False)(ep)), ["a"], "overlap allowed")
                R.expect(EpisodeRolloutHookMerged(lambda ep: None)(ep) is None, "merged hooks without result")
                mc = EpisodeRolloutHookMCReturn(gamma=0.5)(ep)
                R.equal(np.asarray(mc["mc_return_to_go"], float), np.array([3.0, 4.0, 4.0]), "return to go", tol=1e-9)
                R.equal(np.asarray(mc["full_episode_mc_return"], float), np.array([3.0, 3.0, 3.0]), "full return", tol=1e-9)
                for bad in (-0.1, 1.1):
                    R.raises(ValueError, lambda bad=bad: EpisodeRolloutHookMCReturn(gamma=bad), "gamma out of range")
                # an episode hook with results is refused for n_step collection once an episode ends
                w2 = World(R, seed=k, n=n, is_async=False, box=False, kind=None, dist=False, noise=0, random_act=False, cap=10, hook=2)
                w2.reset()
                w2.no_add = False
                R.raises(ValueError, lambda: w2.col.collect(n_step=10 * n), "episode hook results with n_step")
