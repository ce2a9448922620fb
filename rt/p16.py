"""P16: scoped mode switches and the update flags."""
import itertools
import gymnasium as gym
import numpy as np
import torch
from torch import nn
from tianshou.data import Batch, ReplayBuffer
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats
from tianshou.utils.torch_utils import policy_within_training_step, torch_train_mode

RULE = ("every nesting (depth <= 3) of the two context managers over every initial mode, requested mode and kind of exit (normal, "
        "exception, return, break); updates that succeed, fail in each phase, lack a buffer or run outside a training step")


class Boom(Exception):
    pass


class P(BasePolicy):
    def __init__(self, log, fail=None):
        super().__init__(action_space=gym.spaces.Discrete(2))
        self.net = nn.Sequential(nn.Linear(2, 2), nn.Dropout(0.5))
        self.log, self.fail = log, fail

    def _at(self, phase):
        self.log.append((phase, self.updating, self.training, self.net[1].training, self.is_within_training_step))
        if self.fail == phase:
            raise Boom(phase)

    def forward(self, batch, state=None, **kw):
        return Batch(act=np.zeros(len(batch.obs), int))

    def process_fn(self, batch, buffer, indices):
        self._at("process")
        return batch

    def learn(self, batch, *a, **k):
        self._at("learn")
        return TrainingStats()

    def post_process_fn(self, batch, buffer, indices):
        self._at("post")


def run(R):
    with R.family("context managers", 0.5):
        mgrs = ["train", "step"]
        for depth in (1, 2, 3):
            for spec in itertools.product(itertools.product(mgrs, (True, False)), repeat=depth):
                for init in itertools.product((True, False), repeat=2):
                    for exit_ in ("normal", "raise", "return", "break", "generator"):
                        with R.case("nesting", spec=spec, init=init, exit=exit_):
                            p = P([])
                            p.train(init[0])
                            p.is_within_training_step = init[1]
                            cur = {"train": init[0], "step": init[1]}

                            def state():
                                return {"train": p.training, "step": p.is_within_training_step}

                            def nest(k):
                                if k == depth:
                                    R.expect(p.net[1].training == p.training, "sub-modules follow the mode", got=p.net[1].training)
                                    if exit_ == "raise":
                                        raise Boom()
                                    return
                                which, val = spec[k]
                                before = state()
                                # the requested value is the documented default when omitted
                                args = (p,) if val and k % 2 else (p, val)
                                cm = torch_train_mode(*args) if which == "train" else policy_within_training_step(*args)
                                for _ in range(1):
                                    try:
                                        with cm:
                                            want = dict(before)
                                            want[which] = val
                                            R.equal(sorted(state().items()), sorted(want.items()), "inside: the requested value is in force and nothing else changes", spec=spec, level=k)
                                            nest(k + 1)
                                            R.equal(sorted(state().items()), sorted(want.items()), "inner scopes are undone", spec=spec, level=k)
                                            if exit_ == "return":
                                                return
                                            if exit_ == "break":
                                                break
                                    finally:
                                        R.equal(sorted(state().items()), sorted(before.items()), "the previous value is restored on exit", spec=spec, level=k, exit=exit_)
                            if exit_ == "generator":
                                def gen():
                                    with torch_train_mode(p, spec[0][1]), policy_within_training_step(p, spec[0][1]):
                                        yield 1
                                g = gen()
                                next(g)
                                R.equal(sorted(state().items()), sorted({"train": spec[0][1], "step": spec[0][1]}.items()), "inside a suspended generator")
                                g.close()
                            else:
                                try:
                                    nest(0)
                                except Boom:
                                    R.expect(exit_ == "raise", "unexpected exception")
                                else:
                                    R.expect(exit_ != "raise", "the exception was swallowed")
                            R.equal(sorted(state().items()), sorted(cur.items()), "everything restored", exit=exit_)
                            R.expect(p.net[1].training == init[0], "sub-modules restored")
    with R.family("updates"):
        for fail, init, size, kind in itertools.product((None, "process", "learn", "post"), (True, False), (0, None, 2), ("buf", "none")):
            for within in (True, False):
                with R.case("update", fail=fail, training=init, sample_size=size, buffer=kind, within=within):
                    log = []
                    p = P(log, fail)
                    p.train(init)
                    buf = None
                    if kind == "buf":
                        buf = ReplayBuffer(4)
                        for i in range(3):
                            buf.add(Batch(obs=np.zeros(2), act=0, rew=1.0, terminated=False, truncated=False, obs_next=np.zeros(2)))
                    R.expect(p.updating is False, "not updating at first")
                    p.is_within_training_step = within
                    if not within:
                        R.raises(RuntimeError, lambda: p.update(size, buf), "update outside a training step is refused")
                        R.equal(len(log), 0, "nothing happened")
                    elif kind == "none":
                        s = p.update(size, None)
                        R.expect(isinstance(s, TrainingStats), "empty statistics", got=s)
                        R.equal(len(log), 0, "an update without a buffer does nothing")
                        R.expect(s.train_time == 0.0 and not s.get_loss_stats_dict(), "statistics are empty", got=s)
                    else:
                        try:
                            s = p.update(size, buf)
                        except Boom:
                            R.expect(fail is not None, "unexpected")
                        else:
                            R.expect(fail is None, "the failure was swallowed")
                            R.expect(s.train_time >= 0, "train time recorded")
                        phases = ["process", "learn", "post"]
                        want = phases[: phases.index(fail) + 1] if fail else phases
                        R.equal([x[0] for x in log], want, "phases in order")
                        for ph, upd, tr, sub, w in log:
                            R.expect(upd is True, f"updating is true during {ph}")
                            R.expect(w is True, f"within a training step during {ph}")
                            R.expect(tr is (True if ph == "learn" else init) and sub is tr, f"training mode during {ph}", got=tr)
                    R.expect(p.updating is False, "not updating afterwards", fail=fail)
                    R.expect(p.training is init and p.net[1].training is init, "training mode restored")
                    R.expect(p.is_within_training_step is within, "step flag untouched")
