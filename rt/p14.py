"""P14: action mapping."""
import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy import BasePolicy

RULE = ("random Box spaces (asymmetric, tiny, huge, several dimensions, float32/64) x bounding method x scaling, actions inside, on and far "
        "outside [-1, 1]; discrete spaces; non-trivial when an action is not already in bounds")


class P(BasePolicy):
    def forward(self, batch, state=None, **kw):
        return Batch(act=self.out)

    def learn(self, batch, *a, **k):
        pass


def run(R):
    with R.family("boxes", 0.9):
        for k in R.cases(None if R.thorough else 3000):
            rng = R.rng("box", k)
            d = int(rng.randint(1, 4))
            dt = np.float32 if rng.rand() < 0.7 else np.float64
            low = (rng.randn(d) * 10 ** rng.randint(-2, 3)).astype(dt)
            high = (low + np.abs(rng.rand(d) + 0.01) * 10.0 ** rng.randint(-1, 4)).astype(dt)
            if rng.rand() < 0.3:
                low, high = -np.abs(high), np.abs(high)
            bound = [None, "clip", "tanh"][k % 3]
            scale = bool(rng.rand() < 0.7)
            n = int(rng.randint(1, 5))
            mag = float(rng.choice([0.5, 1.0, 3.0, 50.0]))
            act = (rng.uniform(-mag, mag, size=(n, d))).astype(np.float64 if rng.rand() < 0.5 else np.float32)
            if bound is None and scale:
                act = np.clip(act, -1, 1)
            with R.case("box", low=low, high=high, bound=bound, scale=scale, act=act, _trivial=mag <= 1 and not scale):
                p = P(action_space=gym.spaces.Box(low, high, dtype=dt), action_scaling=scale, action_bound_method=bound)
                lo0, hi0 = p.action_space.low.copy(), p.action_space.high.copy()
                keep = act.copy()
                got = p.map_action(torch.tensor(act) if rng.rand() < 0.5 else act)
                R.equal(act, keep, "the stored action is left alone")
                inner = np.clip(act, -1, 1) if bound == "clip" else np.tanh(act) if bound == "tanh" else act
                want = (low.astype(float) + (high.astype(float) - low) * (inner.astype(float) + 1) / 2) if scale else inner
                span = np.abs(want).max() + np.abs(high - low).max() + 1
                R.expect(got.shape == want.shape and bool(np.allclose(got, want, atol=2e-6 * span, rtol=2e-5)), "affine map of the bounded action", got=got, want=want)
                if scale:
                    tol = 1e-5 * span
                    R.expect(bool(np.all(got >= low - tol) and np.all(got <= high + tol)), "mapped action within the bounds", got=got)
                    for v, w in ((-1.0, low), (1.0, high), (0.0, (low.astype(float) + high) / 2)):
                        if bound == "tanh" and v != 0:
                            v = v * 50
                        g = p.map_action(np.full((1, d), v))[0]
                        R.expect(bool(np.allclose(g, w, atol=1e-5 * span, rtol=1e-5)), f"the model-side value {v} maps to the documented point", got=g, want=w)
                if bound == "clip":
                    R.expect(bool(np.all(np.abs(inner) <= 1)), "oracle")
                # inverse on the strict interior
                inside = rng.uniform(-0.95, 0.95, size=(n, d))
                if scale:
                    env = low.astype(float) + (high.astype(float) - low) * (inside + 1) / 2
                    strict = bool(np.all(env > low) and np.all(env < high))
                else:
                    env, strict = inside, True
                if strict and (scale or bound != "tanh" or True):
                    env0 = env.copy()
                    inv = p.map_action_inverse(env)
                    R.equal(env, env0, "the environment-side action is left alone")
                    wantinv = np.arctanh(inside) if bound == "tanh" else inside
                    cond = np.abs(np.concatenate([low, high])).max() / max(float((high - low).min()), 1e-30)
                    tol = 1e-4 + 1e-6 * cond * 20
                    if tol < 0.05:
                        R.expect(bool(np.allclose(inv, wantinv, atol=tol)), "inverse recovers the model-side action", got=inv, want=wantinv, env=env)
                        back = p.map_action(inv)
                        R.expect(bool(np.allclose(back, env, atol=tol * span)), "map after inverse is the identity", got=back, want=env)
                R.equal(p.action_space.low, lo0, "bounds of the space left alone")
                R.equal(p.action_space.high, hi0, "bounds of the space left alone")
                # a single action through compute_action
                p.out = torch.tensor(act[:1])
                one = p.compute_action(np.zeros(2))
                R.expect(bool(np.allclose(one, np.squeeze(want[0]), atol=2e-6 * span, rtol=2e-5)), "compute_action maps the action", got=one, want=want[0])
    with R.family("discrete"):
        for k in R.cases(100):
            rng = R.rng("disc", k)
            n = int(rng.randint(1, 6))
            p = P(action_space=gym.spaces.Discrete(n) if k % 2 else gym.spaces.MultiDiscrete([n, 3]), action_scaling=False, action_bound_method=[None, "clip", "tanh"][k % 3])
            act = rng.randint(0, n, size=5) if k % 2 else rng.randint(0, n, size=(5, 2))
            with R.case("discrete", n=n, act=act, multi=not k % 2):
                keep = act.copy()
                R.equal(p.map_action(act), keep, "discrete actions pass through")
                R.equal(p.map_action(torch.tensor(act)), keep, "discrete actions pass through (tensor)")
                R.equal(p.map_action_inverse(act), keep, "discrete actions pass through (inverse)")
                if k % 2:
                    p.out = torch.tensor(act[:1])
                    c = p.compute_action(np.zeros(2))
                    R.expect(isinstance(c, int) and c == int(keep[0]), "compute_action returns the discrete action", got=c)
