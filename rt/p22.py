"""P22: trainers report the true best policy and count every step they take."""
import random
import warnings
import logging
import gymnasium as gym
import numpy as np
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats
from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer

RULE = ("real trainers, collectors and buffers over scripted environments whose test episodes follow an arbitrary score script (ties, regressions, "
        "negative scores), random stop/score/metric functions, hooks and epoch/step settings, off-policy/on-policy/offline; reference: a log of every "
        "collection, test, update and hook call; non-trivial when some test changes or ties the best score")
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class TrainEnv(gym.Env):
    def __init__(self, rnd):
        self.rnd = rnd
        self.observation_space = gym.spaces.Box(-1e9, 1e9, (2,), np.float64)
        self.action_space = gym.spaces.Discrete(3)
        self.n = 0

    def reset(self, **k):
        self.t, self.L = 0, self.rnd.choice([1, 2, 3, 6])
        self.n += 1
        return np.array([self.n, 0.0]), {}

    def step(self, a):
        self.t += 1
        return np.array([float(self.n), float(self.t)]), float(self.rnd.randrange(0, 4)), self.t >= self.L, False, {}


class TestEnv(gym.Env):
    def __init__(self, script):
        self.script = script
        self.observation_space = gym.spaces.Box(-1e9, 1e9, (2,), np.float64)
        self.action_space = gym.spaces.Discrete(3)

    def reset(self, **k):
        return np.zeros(2), {}

    def step(self, a):
        return np.zeros(2), self.script.next(), True, False, {}


class Script:
    def __init__(self, rnd, per_test):
        self.rnd, self.per_test, self.i, self.cur = rnd, per_test, 0, 0.0

    def start(self):
        self.cur = self.rnd.choice([-2.0, -1.0, 0.0, 0.0, 1.0, 1.0, 2.0, 3.0, 5.0])
        self.i = 0

    def next(self):
        self.i += 1
        return self.cur + (0.5 if self.i % 2 else -0.5)


class Policy(BasePolicy):
    def __init__(self, space, log):
        super().__init__(action_space=space, observation_space=None)
        self.log = log

    def forward(self, batch, state=None, **k):
        return Batch(act=np.zeros(len(batch.obs), int), state=None)

    def learn(self, batch, *a, **k):
        self.log.append(("learn", len(batch), np.array(batch.obs), np.array(batch.rew), dict(k), self.is_within_training_step, self.training))
        return TrainingStats()


def mk_collector(log, kind, script=None):
    class C(Collector):
        def collect(self, *a, **k):
            if script is not None:
                script.start()
            p = len(log)
            st = super().collect(*a, **k)
            log.append((kind, dict(k), int(st.n_collected_steps), int(st.n_collected_episodes), np.array(st.returns, float), self.policy.is_within_training_step))
            return st
    return C


def one(R, rng, k, kind):
    rnd = random.Random(k * 7919 + R.seed)
    log = []
    n_train, n_test = rnd.choice([1, 2, 3]), rnd.choice([1, 2])
    ep_test = rnd.choice([1, 2, 4])
    ep_test = max(ep_test, 1)
    script = Script(rnd, ep_test)
    tenv = DummyVectorEnv([lambda: TestEnv(script) for _ in range(n_test)])
    venv = DummyVectorEnv([(lambda s=s: TrainEnv(random.Random(s))) for s in range(n_train)])
    policy = Policy(venv.action_space[0], log)
    buf = VectorReplayBuffer(60 * n_train, n_train)
    train_c = mk_collector(log, "collect")(policy, venv, buf)
    use_test = rnd.random() < 0.85 or kind != "offline"
    test_c = mk_collector(log, "test", script)(policy, tenv) if use_test else None
    thr = rnd.choice([0.0, 1.0, 2.0, 2.5, 5.0, 100.0])
    stop = None
    if rnd.random() < 0.75:
        def stop(r):
            ok = bool(r >= thr)
            log.append(("stop_fn", float(r), ok))
            return ok
    neg = rnd.random() < 0.3
    score_fn = (lambda st: -2.0 * float(np.mean(st.returns))) if neg else None
    metric = (lambda r: 3.0 * np.asarray(r, float)) if rnd.random() < 0.3 else None
    save = (lambda p: log.append(("save", trainer.best_epoch, trainer.best_score, p is policy))) if rnd.random() < 0.8 else None
    train_fn = (lambda e, s: log.append(("train_fn", e, s))) if rnd.random() < 0.7 else None
    test_fn = (lambda e, s: log.append(("test_fn", e, s))) if rnd.random() < 0.5 else None
    ckpt = (lambda e, s, g: log.append(("ckpt", e, s, g)) or "") if rnd.random() < 0.3 else None
    max_epoch = rnd.choice([1, 2, 3, 4, 6])
    spe = rnd.choice([1, 3, 7, 10])
    bs = rnd.choice([1, 4, 8])
    if kind == "onpolicy":
        bs = rnd.choice([1, 4, 100, None])
    by_ep = kind == "onpolicy" and rnd.random() < 0.5
    spc, epc = (None, rnd.randint(1, 4)) if by_ep else (rnd.randint(1, 8), None)
    ups = rnd.choice([1.0, 0.5, 2.0, 0.3, 1.5])
    if kind == "offpolicy" and round(ups * (spc or 1)) == 0:
        ups = 1.0
    tit = rnd.random() < 0.7
    repeat = rnd.choice([1, 2])
    common = dict(policy=policy, max_epoch=max_epoch, step_per_epoch=spe, batch_size=bs, test_collector=test_c, episode_per_test=ep_test, stop_fn=stop, compute_score_fn=score_fn,
                  save_best_fn=save, test_fn=test_fn, reward_metric=metric, save_checkpoint_fn=ckpt, verbose=False, show_progress=False)
    if kind == "offpolicy":
        trainer = OffpolicyTrainer(train_collector=train_c, step_per_collect=spc, update_per_step=ups, train_fn=train_fn, test_in_train=tit, **common)
    elif kind == "onpolicy":
        trainer = OnpolicyTrainer(train_collector=train_c, step_per_collect=spc, episode_per_collect=epc, repeat_per_collect=repeat, train_fn=train_fn, test_in_train=tit, **common)
    else:
        data = ReplayBuffer(20)
        for j in range(rnd.randint(1, 20)):
            data.add(Batch(obs=np.zeros(2), act=0, rew=1.0, terminated=False, truncated=False, obs_next=np.zeros(2), info={}))
        trainer = OfflineTrainer(buffer=data, **common)
    runs = rnd.choice([1, 1, 2])
    for _ in range(runs):
        log.clear()
        g0, e0 = trainer._gradient_step, trainer.env_episode
        if runs == 2 and kind == "onpolicy":
            buf.reset()
        use_run = rnd.random() < 0.4
        epochs = []
        if use_run:
            info = trainer.run()
        else:
            for st in trainer:
                epochs.append((len(log), st))
        check(R, kind, log, trainer, epochs, policy, buf, dict(stop=stop, thr=thr, neg=neg, metric=metric, save=save, train_fn=train_fn, test_fn=test_fn, max_epoch=max_epoch, spe=spe, bs=bs,
              spc=spc, epc=epc, ups=ups, tit=tit, repeat=repeat, g0=g0, e0=e0, test=use_test, ep_test=ep_test, n_train=n_train, runs_reset=2 if use_run else 1, ckpt=ckpt), train_c, test_c)
        if use_run:
            R.equal([float(info.best_reward), float(info.best_score), info.gradient_step], [float(trainer.best_reward), float(trainer.best_score), trainer._gradient_step], "final report")


def check(R, kind, log, tr, epochs, policy, buf, o, train_c, test_c):
    best = None                # (epoch, score, reward)
    epoch = 0
    env_step = env_ep = grads = 0
    state = "init"             # init | collected(st) | updated | stopped
    saves = inits = 0
    epoch_steps = 0
    epoch_ends = []
    n_epoch_updates = 0
    i = 0
    last_collect = None
    stopped = False
    pend_updates = 0
    train_rows = None
    epoch = 1
    in_epoch = False
    evs = list(log)

    def score_of(rets):
        rets = 3.0 * rets if o["metric"] else rets
        return (-2.0 * float(np.mean(rets)) if o["neg"] else float(np.mean(rets))), float(np.mean(rets)), float(np.std(rets))

    def nxt(kinds):
        j = i + 1
        while j < len(evs) and evs[j][0] not in kinds:
            j += 1
        return evs[j] if j < len(evs) else None

    done_epochs = []
    while i < len(evs):
        e = evs[i]
        if e[0] == "test":
            R.expect(not stopped, "a test after training was to stop")
            R.expect(e[3] == o["ep_test"] and e[1].get("n_episode") == o["ep_test"], "number of test episodes", got=e[1])
            R.expect(not e[5], "tests do not run as part of a training step")
            sc, rew, std = score_of(e[4])
            if state == "init":
                inits += 1
                best = (0, sc, rew)
                want_save = True
            elif state == "collected":
                # test during training, then the stop condition decides
                n = nxt(["stop_fn"])
                R.expect(o["stop"] is not None and n is not None and abs(n[1] - rew) < 1e-9, "the stop condition is asked about the test reward", got=n, reward=rew)
                acc = n[2]
                stopped = acc
                want_save = acc and sc > best[1]
                if want_save:
                    best = (epoch, sc, rew)
            else:
                want_save = sc > best[1]
                if want_save:
                    best = (epoch, sc, rew)
                if o["stop"] is not None:
                    n = nxt(["stop_fn"])
                    R.expect(n is not None and abs(n[1] - best[2]) < 1e-9, "the stop condition is asked about the best reward", got=n, best=best)
                    stopped = n[2]
                done_epochs.append((epoch, best))
                epoch, epoch_steps, state = epoch + 1, 0, "epoch"
            j = i + 1
            got_save = False
            while j < len(evs) and evs[j][0] in ("stop_fn", "save"):
                if evs[j][0] == "save":
                    got_save = True
                    R.expect(evs[j][3], "the hook gets the policy")
                    R.equal([evs[j][1], evs[j][2]], [best[0], best[1]], "best epoch and score when the policy is saved", tol=1e-9)
                j += 1
            if o["save"] is not None:
                R.expect(got_save == want_save, "the save-best hook runs exactly on a strict improvement", ran=got_save, want=want_save, score=sc, best=best, position=state)
        elif e[0] == "save":
            pass
        elif e[0] == "train_fn":
            R.equal([e[1], e[2]], [epoch, env_step], "train_fn gets the epoch and the number of environment steps")
        elif e[0] == "test_fn":
            R.equal(e[2], (grads_total(o, grads) * (o["bs"] or 1)) if kind == "offline" and grads else (env_step if kind != "offline" else e[2]), "test_fn gets the number of environment steps")
        elif e[0] == "collect":
            R.expect(not stopped and state in ("init", "updated", "epoch"), "a collection out of turn", state=state)
            R.expect(e[5], "collection for training happens within a training step")
            R.equal([e[1].get("n_step"), e[1].get("n_episode")], [o["spc"], o["epc"]], "what the trainer asks to collect")
            R.expect(epoch_steps < o["spe"], "an epoch goes on only while it has fewer steps than asked", steps=epoch_steps)
            env_step += e[2]
            env_ep += e[3]
            epoch_steps += e[2]
            last_collect = e
            state = "collected"
            pend_updates = round(o["ups"] * e[2]) if kind == "offpolicy" else 1
            if o["stop"] is not None and e[3] > 0:
                m = float(np.mean(3.0 * e[4] if o["metric"] else e[4]))
                n = nxt(["stop_fn", "learn", "test"])
                if o["tit"] and test_c is not None:
                    R.expect(n is not None and n[0] == "stop_fn" and abs(n[1] - m) < 1e-9, "the stop condition is asked about the training reward", got=n[:2] if n else None, mean=m)
                    n2 = nxt2(evs, i, "stop_fn", ["test", "learn", "collect"])
                    R.expect((n2 is not None and n2[0] == "test") == n[2], "the policy is tested during training exactly if the training reward satisfies the stop condition")
                else:
                    R.expect(n is not None and n[0] == "learn", "no test during training", got=n[:2] if n else None)
        elif e[0] == "learn":
            R.expect(not stopped and (kind == "offline" or state == "collected"), "an update out of turn", state=state)
            R.expect(e[5], "updates happen within a training step")
            grads += 1
            if kind == "offline":
                epoch_steps += 1
                R.equal(e[1], o["bs"], "sample size of the update")
                R.expect(epoch_steps <= o["spe"], "updates per epoch")
                state = "updated" if epoch_steps == o["spe"] else state
                if epoch_steps == o["spe"] and test_c is None:
                    done_epochs.append((epoch, best))
                    epoch, epoch_steps = epoch + 1, 0
            else:
                if kind == "offpolicy":
                    R.equal(e[1], o["bs"], "sample size of the update")
                else:
                    R.equal(e[1], last_collect[2], "on-policy update uses exactly the data of this collection")
                    R.equal([e[4].get("batch_size"), e[4].get("repeat")], [o["bs"], o["repeat"]], "minibatch arguments")
                pend_updates -= 1
                if pend_updates == 0:
                    state = "updated"
        elif e[0] == "stop_fn":
            if state == "epoch" and e[2]:
                stopped = True
        i += 1
    if o["test"]:
        R.equal(inits, o["runs_reset"], "tests before training")
    R.expect(pend_updates == 0 or stopped or kind == "offline", "number of updates per collection", missing=pend_updates)
    if kind != "offline":
        R.equal(tr.env_step, env_step, "environment step counter")
        R.equal(tr.env_episode - o["e0"], env_ep, "episode counter")
        R.equal([train_c.collect_step, train_c.collect_episode], [env_step, env_ep], "collector counters")
    else:
        R.equal(tr.env_step, tr._gradient_step * o["bs"], "environment step counter (offline)")
    if kind != "onpolicy":
        R.equal(tr._gradient_step - o["g0"], grads, "gradient step counter")
    if kind == "onpolicy" and not stopped:
        R.equal(len(buf), 0, "on-policy data is discarded after the update")
    if not stopped:
        R.equal(len(done_epochs) if o["test"] or kind == "offline" else o["max_epoch"], o["max_epoch"], "number of epochs")
    if best is not None:
        R.equal([tr.best_epoch, float(tr.best_score), float(tr.best_reward)], [best[0], best[1], best[2]], "reported best epoch, score and reward", tol=1e-9)
    for k, (pos, st) in enumerate(epochs):
        R.equal(st.epoch, k + 1, "epoch number")
        if k < len(done_epochs) and done_epochs[k][1] is not None:
            R.equal([float(st.info_stat.best_score), float(st.info_stat.best_reward)], [done_epochs[k][1][1], done_epochs[k][1][2]], "best reported after an epoch", tol=1e-9)


def grads_total(o, grads):
    return o["g0"] + grads


def nxt2(evs, i, first, kinds):
    j = i + 1
    while j < len(evs) and evs[j][0] != first:
        j += 1
    j += 1
    while j < len(evs) and evs[j][0] not in kinds:
        j += 1
    return evs[j] if j < len(evs) else None


def run(R):
    for kind, share, n in (("offpolicy", 0.35, 300), ("onpolicy", 0.35, 300), ("offline", 0.25, 250)):
        with R.family(kind + " trainer", share):
            for k in R.cases(None if R.thorough else n):
                rng = R.rng(kind, k)
                with R.case("run", k=k, kind=kind):
                    R.seed_all(kind, k)
                    one(R, rng, k, kind)
    with R.family("refusals", 0.05):
        for k in R.cases(1):
            with R.case("zero gradient steps"):
                log = []
                venv = DummyVectorEnv([lambda: TrainEnv(random.Random(0))])
                p = Policy(venv.action_space[0], log)
                c = Collector(p, venv, VectorReplayBuffer(20, 1))
                t = OffpolicyTrainer(policy=p, max_epoch=1, step_per_epoch=4, batch_size=2, train_collector=c, test_collector=Collector(p, DummyVectorEnv([lambda: TrainEnv(random.Random(1))])),
                                     episode_per_test=1, step_per_collect=1, update_per_step=0.3, verbose=False, show_progress=False)
                R.raises(ValueError, t.run, "no gradient step at all")
