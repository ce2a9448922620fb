"""P20: attribution of vector-environment results."""
import multiprocessing
import random
import warnings
import gymnasium as gym
import numpy as np
from tianshou.env import BaseVectorEnv, DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv
from tianshou.env.worker import EnvWorker, SubprocEnvWorker

RULE = ("random histories of reset/step/fetch/attribute access on random id subsets, with a scheduler that chooses which pending environments become "
        "ready and in which order (including polls in which none is ready); reference: one counter machine per environment; real subprocess "
        "environments in a few cases; non-trivial when there are at least two environments")
warnings.simplefilter("ignore")


class Env(gym.Env):
    def __init__(self, i, ragged=False):
        self.observation_space = gym.spaces.Box(-1e6, 1e6, (4,), np.float64)
        self.action_space = gym.spaces.Box(-100, 100, (2,))
        self.i, self.t, self.resets, self.tag, self.ragged, self.seeds, self.n_closed = i, 0, 0, f"tag{i}", ragged, [], 0
        self.rendered = 0

    def obs(self, a=0.0):
        o = np.array([self.i, self.t, a, self.resets], dtype=np.float64)
        return np.concatenate([o, np.zeros(self.i)]) if self.ragged else o

    def reset(self, *, seed=None, options=None):
        self.seeds.append(seed)
        self.t = 0
        self.resets += 1
        return self.obs(), {"who": self.i, "resets": self.resets, "options": options}

    def step(self, a):
        self.t += 1
        a = float(np.asarray(a).reshape(-1)[0])
        return self.obs(a), self.i * 1000.0 + self.t + a / 1000, self.t % 3 == self.i % 3, self.t % 4 == 0, {"who": self.i, "t": self.t, "a": a}

    def render(self, **k):
        return ("frame", self.i, self.t)

    def close(self):
        self.n_closed += 1


class Machine:
    """what environment i must answer"""

    def __init__(self, i):
        self.i, self.t, self.resets = i, 0, 0

    def reset(self):
        self.t, self.resets = 0, self.resets + 1
        return [self.i, 0, 0.0, self.resets]

    def step(self, a):
        self.t += 1
        return dict(obs=[self.i, self.t, a, self.resets], rew=self.i * 1000.0 + self.t + a / 1000, term=self.t % 3 == self.i % 3, trunc=self.t % 4 == 0, t=self.t, a=a)


class FakeWorker(EnvWorker):
    """a worker whose results become available when the scheduler says so"""
    sched = random.Random(0)
    polls = 0

    def __init__(self, fn):
        self.env = fn()
        self.queue = []
        super().__init__(fn)

    def get_env_attr(self, key):
        return getattr(self.env, key)

    def set_env_attr(self, key, value):
        setattr(self.env, key, value)

    def send(self, action, **kw):
        self.queue.append(self.env.reset(**kw) if action is None else self.env.step(action))

    def recv(self):
        return self.queue.pop(0)

    def reset(self, **kw):
        return self.env.reset(**kw)

    @staticmethod
    def wait(workers, wait_num, timeout=None):
        r = FakeWorker.sched
        if r.random() < 0.2:
            return []
        k = r.randint(1, len(workers))
        return r.sample(workers, k)

    def render(self, **kw):
        return self.env.render(**kw)

    def close_env(self):
        self.env.close()


def ids_of(rng, pool):
    pool = list(pool)
    k = rng.randint(1, len(pool) + 1)
    return [int(i) for i in rng.permutation(pool)[:k]]


def form(rng, ids):
    """the same ids as list / array / scalar"""
    r = rng.randint(3)
    if r == 0 and len(ids) == 1:
        return ids[0]
    return np.array(ids) if r == 1 else list(ids)


def drive(R, rng, venv, n, is_async, steps, ragged=False, polls_all=False, shared=None):
    m = [Machine(i) for i in range(n)]
    pend = {}                  # env -> expected result

    def check_rows(rows, want_ids):
        obs, rew, term, trunc, info = rows
        R.equal(len(obs), len(info), "rows agree")
        got = [int(x["env_id"]) for x in info]
        if want_ids is not None:
            R.equal(got, want_ids, "order of the rows")
        R.expect(len(set(got)) == len(got), "an environment is reported twice", got=got)
        for k, e in enumerate(got):
            if is_async:
                R.expect(e in pend, "a result nobody asked for", env=e, pending=sorted(pend))
            w = pend.pop(e)
            R.equal(np.asarray(obs[k])[:4], np.array(w["obs"], float), "observation", env=e)
            R.equal(float(rew[k]), w["rew"], "reward", env=e)
            R.equal(bool(term[k]), w["term"], "terminated", env=e)
            R.equal(bool(trunc[k]), w["trunc"], "truncated", env=e)
            R.equal([info[k]["who"], info[k]["t"], info[k]["a"]], [e, w["t"], w["a"]], "info", env=e)
        return got

    def state():
        if is_async:
            R.equal(sorted(venv.ready_id) + sorted(venv.waiting_id), sorted(set(range(n)) - set(pend)) + sorted(pend), "ready and waiting environments", ready=venv.ready_id,
                    waiting=venv.waiting_id, pending=sorted(pend))
            R.equal(len(venv.waiting_conn), len(venv.waiting_id), "waiting connections")

    all_ids = list(range(n))
    for s in range(steps):
        ready = [i for i in all_ids if i not in pend]
        op = rng.randint(8)
        if op == 0 or s == 0:
            ids = ids_of(rng, ready) if ready else None
            if ids is None:
                continue
            arg = form(rng, ids)
            if len(ids) == n and not pend and rng.rand() < 0.5:
                arg, ids = None, all_ids
            kw = {"options": {"x": s}} if rng.rand() < 0.3 else {}
            obs, info = venv.reset(arg, **kw)
            R.equal(len(obs), len(ids), "one row per reset environment")
            for k, i in enumerate(ids):
                R.equal(np.asarray(obs[k])[:4], np.array(m[i].reset(), float), "reset observation", env=i)
                R.equal([info[k]["who"], info[k]["resets"], info[k]["options"]], [i, m[i].resets, kw.get("options")], "reset info", env=i)
        elif op <= 4:
            if not ready:
                continue
            ids = ids_of(rng, ready)
            arg = form(rng, ids)
            if len(ids) == n and not is_async and rng.rand() < 0.5:
                arg, ids = None, all_ids
            act = np.round(rng.randn(len(ids), 2) * 50, 3) if rng.rand() < 0.7 else [float(x) for x in np.round(rng.randn(len(ids)) * 50, 3)]
            for k, i in enumerate(ids):
                pend[i] = m[i].step(float(np.asarray(act[k]).reshape(-1)[0]))
            rows = venv.step(act, arg)
            got = check_rows(rows, None if is_async else ids)
            R.expect(len(got) >= 1, "no result returned")
            if not is_async:
                R.expect(not pend, "a result was lost", pending=sorted(pend))
        elif op == 5 and is_async:
            if pend:
                check_rows(venv.step(None), None)
                if polls_all:
                    R.expect(not pend, "a result was lost", pending=sorted(pend))
        elif op == 6:
            if is_async and pend:
                bad = sorted(pend)[rng.randint(len(pend))]
                some = ids_of(rng, ready) if ready and rng.rand() < 0.5 else []
                before = [(x.t, x.resets) for x in m]
                R.raises(AssertionError, lambda: venv.step(np.zeros((len(some) + 1, 2)), some + [bad]), "stepping a waiting environment")
                R.raises(AssertionError, lambda: venv.reset([*some, bad]), "resetting a waiting environment")
                R.raises(AssertionError, lambda: venv.get_env_attr("i", bad), "querying a waiting environment")
                R.raises(AssertionError, lambda: venv.set_env_attr("tag", "no", [bad]), "changing a waiting environment")
                R.raises(RuntimeError, lambda: venv.render(), "rendering while stepping")
            elif not pend:
                ids = ids_of(rng, all_ids)
                R.raises(AssertionError, lambda: venv.step(np.zeros((len(ids) + 1, 2)), ids), "wrong number of actions")
                R.equal([f[1:] for f in venv.render()], [(i, m[i].t) for i in all_ids], "frames")
        else:
            if not ready:
                continue
            ids = ids_of(rng, ready)
            R.equal(venv.get_env_attr("i", form(rng, ids)), ids, "attribute of each environment")
            R.equal(venv.get_env_attr("t", ids), [m[i].t for i in ids], "step count of each environment")
            v = f"v{s}"
            venv.set_env_attr("tag", v, form(rng, ids))
            R.equal(venv.get_env_attr("tag", ids), [v] * len(ids), "changed attribute")
            if not pend:
                tags = venv.get_env_attr("tag")
                R.expect(all((tags[i] == v) == (i in ids) for i in all_ids), "exactly the addressed environments changed", tags=tags, ids=ids)
        state()
    # everything outstanding is delivered exactly once
    k = 0
    while is_async and pend and k < 200:
        check_rows(venv.step(None), None)
        state()
        k += 1
    R.expect(not pend, "results never delivered", pending=sorted(pend))


class FakeConnWorker:
    def __init__(self, conn):
        self.parent_remote = conn


def run(R):
    with R.family("synchronous", 0.25):
        for k in R.cases(None if R.thorough else 400):
            rng = R.rng("s", k)
            n = int(rng.randint(1, 6))
            ragged = k % 5 == 0
            fake = k % 2 == 0
            with R.case("sync", n=n, k=k, ragged=ragged, fake=fake, _trivial=n == 1):
                fns = [lambda i=i: Env(i, ragged) for i in range(n)]
                v = BaseVectorEnv(fns, FakeWorker) if fake else DummyVectorEnv(fns)
                R.equal([len(v), v.is_async], [n, False], "size and mode")
                drive(R, rng, v, n, False, int(rng.randint(3, 25)), ragged)
                R.raises(ValueError, lambda: v.step(None), "no action in synchronous mode")
                envs = [w.env for w in v.workers]
                v.close()
                R.equal([e.n_closed for e in envs], [1] * n, "each environment closed once")
                for f in (lambda: v.step(np.zeros((n, 2))), v.reset, v.seed, v.render, v.close, lambda: v.get_env_attr("i")):
                    R.raises(AssertionError, f, "use after close")
    with R.family("asynchronous, any readiness order", 0.35):
        for k in R.cases(None if R.thorough else 1200):
            rng = R.rng("a", k)
            n = int(rng.randint(1, 7))
            wait_num = int(rng.randint(1, n + 1))
            timeout = None if wait_num != n and rng.rand() < 0.7 else 0.5
            ragged = k % 7 == 0
            with R.case("async", n=n, wait_num=wait_num, timeout=timeout, k=k, ragged=ragged, _trivial=n == 1):
                FakeWorker.sched = random.Random(k)
                v = BaseVectorEnv([lambda i=i: Env(i, ragged) for i in range(n)], FakeWorker, wait_num, timeout)
                R.equal(v.is_async, True, "asynchronous mode")
                R.equal(sorted(v.ready_id), list(range(n)), "all environments ready at the start")
                drive(R, rng, v, n, True, int(rng.randint(3, 30)), ragged)
            if k % 6 == 0:
                with R.case("dummy async", n=n, k=k, _trivial=n == 1):
                    v = DummyVectorEnv([lambda i=i: Env(i) for i in range(n)], wait_num=n, timeout=1.0)
                    drive(R, rng, v, n, True, 10, polls_all=True)
    with R.family("seeding", 0.1):
        for k in R.cases(150):
            rng = R.rng("seed", k)
            n = int(rng.randint(1, 6))
            kind = k % 3
            s = None if kind == 0 else int(rng.randint(0, 1000)) if kind == 1 else [int(x) for x in rng.randint(0, 1000, size=n)]
            with R.case("seed", n=n, seed=s, _trivial=n == 1):
                v = DummyVectorEnv([lambda i=i: Env(i) for i in range(n)])
                r = v.seed(s)
                want = [None] * n if s is None else [s + i for i in range(n)] if isinstance(s, int) else s
                R.equal([w.env.seeds[-1] for w in v.workers], want, "seed each environment was reset with")
                R.equal([x[0] for x in r], want, "reported seeds")
                if s is not None:
                    for i in range(n):
                        ref = gym.spaces.Box(-100, 100, (2,))
                        ref.seed(want[i])
                        R.equal(v.workers[i].action_space.sample(), ref.sample(), "action space seeded with the environment's seed", env=i)
                if isinstance(s, list):
                    R.raises(ValueError, lambda: v.seed(s + [1]), "one seed too many")
    with R.family("waiting for subprocesses", 0.1):
        for k in R.cases(60):
            rng = R.rng("w", k)
            n = int(rng.randint(1, 6))
            ready = sorted(int(x) for x in rng.permutation(n)[: rng.randint(0, n + 1)])
            wait_num = int(rng.randint(1, n + 1))
            use_to = len(ready) < wait_num or rng.rand() < 0.5
            with R.case("wait", n=n, ready=ready, wait_num=wait_num, timeout=0.02 if use_to else None):
                pipes = [multiprocessing.Pipe() for _ in range(n)]
                ws = [FakeConnWorker(a) for a, _ in pipes]
                for i in ready:
                    pipes[i][1].send(i)
                got = SubprocEnvWorker.wait(ws, wait_num, 0.02 if use_to else None)
                R.expect(all(any(g is w for w in ws) for g in got), "a worker that was not waited for")
                gi = [next(i for i, w in enumerate(ws) if w is g) for g in got]
                R.expect(len(set(gi)) == len(gi) and set(gi) <= set(ready), "exactly ready workers, each once", got=gi)
                R.expect(len(gi) >= min(wait_num, len(ready)), "enough ready workers", got=gi)
                for a, b in pipes:
                    a.close()
                    b.close()
    with R.family("real subprocess environments"):
        for k in R.cases(6 if not R.thorough else 30):
            rng = R.rng("p", k)
            n = int(rng.randint(2, 5))
            is_async = k % 2 == 0
            cls = (SubprocVectorEnv, ShmemVectorEnv)[(k // 2) % 2]
            with R.case("subproc", n=n, cls=cls.__name__, is_async=is_async, k=k):
                v = cls([lambda i=i: Env(i) for i in range(n)], wait_num=int(rng.randint(1, n)) if is_async else None, timeout=0.5 if is_async and k % 4 == 0 else None)
                try:
                    drive_quiet(R, rng, v, n, is_async)
                finally:
                    v.close()


def drive_quiet(R, rng, v, n, is_async):
    drive(R, rng, v, n, is_async, 14)
