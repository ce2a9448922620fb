"""P25: multi-agent dispatch."""
import warnings
import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch, ReplayBuffer, VectorReplayBuffer
from tianshou.policy import BasePolicy, MultiAgentPolicyManager
from tianshou.policy.base import TrainingStats

RULE = ("random batches with rows tagged by agent in any interleaving (agents without rows included), any reward matrix, with and without action masks, "
        "next observations, states and rewards; recording sub-policies; reference: selection by tag; non-trivial when at least two agents have rows")
warnings.simplefilter("ignore")


class Sub(BasePolicy):
    """records what it is given; acts by a rule that identifies agent and row"""

    def __init__(self, k, R, mode):
        super().__init__(action_space=gym.spaces.Discrete(100), observation_space=None)
        self.k, self.R, self.mode, self.calls = k, R, mode, []

    def forward(self, batch, state=None, **kw):
        self.calls.append(("forward", batch, state, kw))
        ids = self.ids(batch)
        act = ids * 10.0 + self.k
        if self.mode.get("vec"):
            act = np.stack([act, -act], 1)
        if self.mode.get("torch"):
            act = torch.tensor(act)
        out = Batch(act=act, tag=ids + 0.5)
        if self.mode.get("state"):
            out.state = Batch(h=ids + 0.25)
        else:
            out.state = None
        return out

    def ids(self, batch):
        o = batch.obs.obs if isinstance(batch.obs, Batch) else batch.obs
        return np.array(o[:, 0], float)

    def process_fn(self, batch, buffer, indices):
        self.calls.append(("process", batch, np.array(indices), np.array(buffer.rew) if isinstance(buffer.rew, np.ndarray) else None))
        return Batch(seen=self.ids(batch), rew=batch.rew, idx=np.array(indices))

    def exploration_noise(self, act, batch):
        self.calls.append(("noise", np.array(act), batch))
        return act + 0.125 * (self.k + 1)

    def learn(self, batch, *a, **kw):
        self.calls.append(("learn", batch, kw))
        return TrainingStats()


class EnvStub:
    def __init__(self, agents):
        self.agents = agents
        self.agent_idx = {a: i for i, a in enumerate(agents)}
        self.action_space = gym.spaces.Discrete(100)
        self.observation_space = gym.spaces.Box(-1, 1, (2,))


def make(R, rng, mode):
    n = int(rng.randint(1, 5))
    agents = ["a%d" % i for i in rng.permutation(n)]
    subs = [Sub(i, R, mode) for i in range(n)]
    return agents, subs, MultiAgentPolicyManager(policies=subs, env=EnvStub(agents))


def rows(rng, agents, mode, m):
    tags = [agents[rng.randint(len(agents))] for _ in range(m)]
    if rng.randint(4) == 0:
        tags = [tags[0]] * m
    obs = Batch(agent_id=np.array(tags), obs=np.stack([np.arange(m) + 1.0, rng.randint(0, 9, m)], 1))
    if mode["mask"]:
        obs.mask = rng.randint(0, 2, (m, 4)).astype(bool)
    b = Batch(obs=obs, info=Batch(x=rng.randint(0, 9, m)))
    if mode["next"]:
        b.obs_next = Batch(agent_id=np.array(tags), obs=obs.obs + 100.0)
        if mode["mask"]:
            b.obs_next.mask = obs.mask
    if mode["rew"]:
        b.rew = rng.randint(-5, 6, (m, len(agents))).astype(float)
    return b, tags


def index_of(tags, a):
    return [i for i, t in enumerate(tags) if t == a]


def inner(x):
    return x.obs if isinstance(x, Batch) else x


def run(R):
    with R.family("forward", 0.3):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("fwd", k)
            mode = dict(mask=bool(rng.randint(2)), next=bool(rng.randint(3)), rew=bool(rng.randint(2)), vec=bool(rng.randint(2)), torch=bool(rng.randint(3) == 0), state=bool(rng.randint(2)))
            with R.case("forward", k=k, mode=mode):
                agents, subs, man = make(R, rng, mode)
                m = int(rng.randint(1, 9))
                b, tags = rows(rng, agents, mode, m)
                before = {a: np.array(b.obs.obs) for a in agents}
                give_state = rng.randint(2)
                state = Batch({str(a) if isinstance(a, str) else a: Batch(h=np.array([float(j)])) for j, a in enumerate(agents)}) if give_state and isinstance(agents[0], str) else None
                out = man(b, state, extra=7) if rng.randint(2) else man(b, state)
                want = np.zeros((m, 2) if mode["vec"] else m)
                for j, a in enumerate(agents):
                    ids = index_of(tags, a)
                    calls = [c for c in subs[j].calls if c[0] == "forward"]
                    R.equal(len(calls), 1 if ids else 0, "an agent's policy acts exactly when it has rows", agent=a, tags=tags)
                    if not ids:
                        continue
                    got = calls[0][1]
                    R.equal(np.array(inner(got.obs))[:, 0], np.array(ids) + 1.0, "rows given to the agent", agent=a)
                    R.equal(np.array(got.info.x), np.array(b.info.x)[ids], "info rows", agent=a)
                    if mode["mask"]:
                        R.equal(np.array(got.obs.mask), np.array(b.obs.mask)[ids], "masks", agent=a)
                    else:
                        R.expect(not isinstance(got.obs, Batch), "observation unwrapped when there is no mask")
                    if mode["rew"]:
                        R.equal(np.array(got.rew), np.array(b.rew)[ids, j], "reward column of the agent", agent=a)
                    if state is not None:
                        R.equal(float(calls[0][2].h[0]), float(j), "state of the agent", agent=a)
                    else:
                        R.expect(calls[0][2] is None, "no state")
                    v = (np.array(ids) + 1.0) * 10 + j
                    want[ids] = np.stack([v, -v], 1) if mode["vec"] else v
                    if mode["state"]:
                        R.equal(np.array(out.state[a].h), np.array(ids) + 1.25, "state returned", agent=a)
                    R.equal(np.array(out.out[a].tag), np.array(ids) + 1.5, "output of the agent", agent=a)
                R.equal(np.array(out.act), want, "combined actions", tags=tags)
                R.equal(np.array(b.obs.obs), before[agents[0]], "the batch itself is untouched")
    with R.family("process_fn and learn", 0.4):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("proc", k)
            mode = dict(mask=bool(rng.randint(2)), next=True, rew=True)
            with R.case("process", k=k, mode=mode):
                agents, subs, man = make(R, rng, mode)
                n = len(agents)
                m = int(rng.randint(1, 9))
                data, tags_all = rows(rng, agents, mode, m)
                buf = ReplayBuffer(m + 2)
                for i in range(m):
                    buf.add(Batch(obs=data[i].obs, act=0, rew=data.rew[i], terminated=bool(rng.randint(3) == 0), truncated=False, obs_next=data[i].obs_next, info={}))
                idx = rng.permutation(m)[:rng.randint(1, m + 1)]
                if rng.randint(3) == 0:
                    idx = rng.randint(0, m, rng.randint(1, 9))
                batch = buf[idx]
                tags = [tags_all[i] for i in idx]
                rew0 = np.array(buf.rew)
                ref = buf.rew
                no_rew = rng.randint(8) == 0
                res = man.process_fn(batch, buf, idx)
                R.equal(np.array(buf.rew), rew0, "the buffer's rewards after processing")
                R.expect(buf.rew is ref or np.array_equal(buf.rew, rew0), "the buffer's rewards after processing")
                for j, a in enumerate(agents):
                    ids = index_of(tags, a)
                    calls = [c for c in subs[j].calls if c[0] == "process"]
                    R.equal(len(calls), 1 if ids else 0, "an agent's policy processes exactly when it has rows", agent=a, tags=tags)
                    if not ids:
                        R.expect(len(res[a].get_keys()) == 0, "nothing for an agent without rows")
                        continue
                    got = calls[0]
                    R.equal(got[2], idx[ids], "buffer indices of the agent", agent=a)
                    R.equal(np.array(inner(got[1].obs))[:, 0], data.obs.obs[idx[ids], 0], "rows of the agent", agent=a)
                    R.equal(np.array(inner(got[1].obs_next))[:, 0], data.obs_next.obs[idx[ids], 0], "next observations of the agent", agent=a)
                    R.equal(np.array(got[1].rew), data.rew[idx[ids], j], "reward column of the agent", agent=a)
                    R.equal(got[3], rew0[:, j], "the buffer shows the agent's reward column meanwhile", agent=a)
                    R.equal(np.array(res[a].idx), idx[ids], "result of the agent", agent=a)
                R.equal(np.array(batch.rew), data.rew[idx], "the processed batch keeps its reward matrix")
                st = man.learn(res, batch_size=3, repeat=2) if rng.randint(2) else man.learn(res)
                for j, a in enumerate(agents):
                    calls = [c for c in subs[j].calls if c[0] == "learn"]
                    ids = index_of(tags, a)
                    R.equal(len(calls), 1 if ids else 0, "an agent learns exactly when it has rows", agent=a)
                    if ids:
                        R.equal(np.array(calls[0][1].idx), idx[ids], "data of the agent", agent=a)
    with R.family("exploration", 0.15):
        for k in R.cases(None if R.thorough else 600):
            rng = R.rng("noise", k)
            mode = dict(mask=bool(rng.randint(2)), next=True, rew=False)
            with R.case("noise", k=k, mode=mode):
                agents, subs, man = make(R, rng, mode)
                m = int(rng.randint(1, 9))
                b, tags = rows(rng, agents, mode, m)
                act = rng.randint(0, 50, m).astype(float)
                orig = act.copy()
                out = man.exploration_noise(act, b)
                R.equal(np.array(out), np.array([orig[i] + 0.125 * (agents.index(tags[i]) + 1) for i in range(m)]), "noise of the row's agent", tags=tags)
                for j, a in enumerate(agents):
                    ids = index_of(tags, a)
                    calls = [c for c in subs[j].calls if c[0] == "noise"]
                    R.equal(len(calls), 1 if ids else 0, "noise asked exactly for agents with rows", agent=a)
                    if ids:
                        R.equal(calls[0][1], orig[ids], "actions of the agent's rows", agent=a)
                        R.equal(np.array(calls[0][2].obs.obs)[:, 0], np.array(ids) + 1.0, "rows of the agent", agent=a)
                R.raises(TypeError, lambda: man.exploration_noise(act, Batch(obs=np.zeros((m, 2)))), "observations without agent tags")
    with R.family("without rewards, training mode", 0.1):
        for k in R.cases(200):
            rng = R.rng("mode", k)
            mode = dict(mask=bool(rng.randint(2)), next=True, rew=False)
            with R.case("mode", k=k):
                agents, subs, man = make(R, rng, mode)
                for flag in (True, False, True):
                    man.train(flag)
                    R.equal([s.training for s in subs], [flag] * len(subs), "training mode reaches every agent")
                man.eval()
                R.equal([s.training for s in subs], [False] * len(subs), "eval reaches every agent")
                new = Sub(9, R, mode)
                man.replace_policy(new, agents[0])
                R.expect(man.policies[agents[0]] is new and new.agent_id == agents[0], "replaced policy")
