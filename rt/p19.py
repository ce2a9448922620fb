"""P19: running statistics, moving averages, summaries."""
import math
import numpy as np
import torch
from tianshou.data import SequenceSummaryStats
from tianshou.data.stats import compute_dim_to_summary_stats
from tianshou.utils import MovAvg, RunningMeanStd
from tianshou.env import VectorEnvNormObs, DummyVectorEnv
import gymnasium as gym

RULE = ("random data streams split at random points, with NaN/inf injected for the moving average, every container type; exact statistics "
        "computed over the concatenated stream; non-trivial when at least two updates are made")


class ObsEnv(gym.Env):
    def __init__(self, seed):
        self.observation_space = gym.spaces.Box(-100, 100, (2,))
        self.action_space = gym.spaces.Discrete(2)
        self.r = np.random.RandomState(seed)

    def reset(self, *, seed=None, options=None):
        return self.r.randn(2) * 3, {}

    def step(self, a):
        return self.r.randn(2) * 3 + a, 1.0, False, False, {}


def run(R):
    with R.family("running mean/std", 0.4):
        for k in R.cases(None if R.thorough else 800):
            rng = R.rng("rms", k)
            shp = () if k % 2 else tuple(rng.randint(1, 4, size=rng.randint(1, 3)))
            n = int(rng.randint(1, 30))
            data = rng.randn(n, *shp) * float(rng.choice([0.1, 1, 100])) + float(rng.choice([0, 5, -100]))
            cuts = sorted(set(rng.randint(1, n + 1, size=rng.randint(1, 6)).tolist()) | {n})
            clip, eps = rng.choice([10.0, 0.5, None]), float(rng.choice([1e-7, 0.1]))
            init = (float(rng.randn()), float(rng.rand() * 4)) if rng.rand() < 0.5 else (0.0, 1.0)
            with R.case("stream", data=data, cuts=cuts, clip=clip, eps=eps, init=init):
                r = RunningMeanStd(init[0], init[1], clip_max=clip, epsilon=eps)
                x = rng.randn(*shp)
                R.equal(r.norm(np.asarray(x)), np.clip((x - init[0]) / np.sqrt(init[1] + eps), *((-clip, clip) if clip else (-np.inf, np.inf))), "normalisation before any data", 1e-9)
                a = 0
                for c in cuts:
                    keep = data[a:c].copy()
                    r.update(data[a:c])
                    R.equal(data[a:c], keep, "data left alone")
                    a = c
                    seen = data[:c]
                    R.equal(r.mean, seen.mean(0), "running mean", 1e-7, after=c)
                    R.equal(np.asarray(r.var), seen.var(0), "running variance", 1e-6, after=c)
                    R.equal(r.count, c, "count")
                    z = (x - seen.mean(0)) / np.sqrt(seen.var(0) + eps)
                    R.equal(r.norm(np.asarray(x)), np.clip(z, -clip, clip) if clip else z, "normalisation", 1e-5)
    with R.family("moving average", 0.3):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("mov", k)
            size = int(rng.choice([1, 2, 3, 5, 100, 0]))
            ops = []
            for _ in range(rng.randint(1, 12)):
                v = (rng.randn(rng.randint(1, 5)) * 5).astype(np.float32 if rng.rand() < 0.3 else np.float64)
                for j in range(len(v)):
                    if rng.rand() < 0.2:
                        v[j] = [np.nan, np.inf, -np.inf][rng.randint(3)]
                ops.append((("list", "np", "torch", "scalar")[rng.randint(4)], v))
            with R.case("window", size=size, ops=ops):
                m, acc = MovAvg(size), []
                R.equal(m.get(), 0.0, "empty average")
                R.equal(m.std(), 0.0, "empty deviation")
                for kind, v in ops:
                    if kind == "scalar":
                        for s in v:
                            got = m.add(float(s))
                    else:
                        got = m.add(list(v) if kind == "list" else v.copy() if kind == "np" else torch.tensor(v))
                    acc += [float(s) for s in v if math.isfinite(s)]
                    win = acc[-size:] if size > 0 else acc
                    want = float(np.mean(win)) if win else 0.0
                    R.equal(got, want, "moving average", 1e-5, window=win)
                    R.equal(m.mean(), want, "mean()", 1e-5)
                    R.equal(m.get(), want, "get()", 1e-5)
                    R.equal(m.std(), float(np.std(win)) if win else 0.0, "std()", 1e-4)
    with R.family("summaries", 0.15):
        for k in R.cases(400):
            rng = R.rng("sum", k)
            n = int(rng.randint(0, 8))
            seq = rng.randn(n) * 7 if k % 3 else rng.randint(-5, 6, size=n)
            as_ = ("list", "np")[k % 2]
            with R.case("sequence", seq=seq, container=as_, _trivial=n == 0):
                s = SequenceSummaryStats.from_sequence(list(seq) if as_ == "list" else seq)
                want = (float(np.mean(seq)), float(np.std(seq)), float(np.max(seq)), float(np.min(seq))) if n else (0, 0, 0, 0)
                R.equal([s.mean, s.std, s.max, s.min], np.array(want, float), "mean, std, max, min", 1e-9)
                if n:
                    d = compute_dim_to_summary_stats(np.stack([seq, seq * 2]))
                    R.equal([d[1].mean, d[1].std, d[1].max, d[1].min], np.array(want, float) * 2, "per-dimension statistics", 1e-9)
                    R.equal(sorted(d), [0, 1], "one entry per dimension")
    with R.family("normalised vector environment"):
        for k in R.cases(60):
            rng = R.rng("env", k)
            n = int(rng.randint(1, 4))
            with R.case("norm obs", k=k, n=n):
                raw, env = DummyVectorEnv([lambda i=i: ObsEnv(i) for i in range(n)]), VectorEnvNormObs(DummyVectorEnv([lambda i=i: ObsEnv(i) for i in range(n)]))
                o, _ = raw.reset()
                g, _ = env.reset()
                seen = np.asarray(o)
                eps = env.obs_rms.eps
                chk = lambda g, o: R.equal(np.asarray(g), np.clip((o - seen.mean(0)) / np.sqrt(seen.var(0) + eps), -10, 10), "normalised observation", 1e-5)
                chk(g, o)
                for _ in range(int(rng.randint(1, 5))):
                    act = rng.randint(0, 2, size=n)
                    o = np.asarray(raw.step(act)[0])
                    g = env.step(act)[0]
                    seen = np.concatenate([seen, o])
                    chk(g, o)
                    R.equal(env.get_obs_rms().mean, seen.mean(0), "mean of the observations", 1e-6)
