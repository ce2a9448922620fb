"""P16: the scoped mode switches (torch_train_mode, policy_within_training_step) and BasePolicy.update."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import Rec, Fn

TU = "tianshou.utils.torch_utils"
PB = "tianshou.policy.base"
EXITS = ("normal", "UserException", "KeyboardInterrupt")


class Net(Model):
    """torch.nn.Module as far as its mode goes: train(m) sets training to m (trusted)"""
    pytype = ("Module",)

    def __init__(self, c, **kw):
        self.fields = dict(kw)
        c.reg(self, "module")

    def m_snap(self, memo):
        r = object.__new__(Net)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        r.fields = dict(self.fields)
        return r

    def m_getattr(self, c, name):
        if name in self.fields:
            return self.fields[name]
        if name == "train":
            return Prim("train", lambda cc, a, k: self.train(cc, *a, **k))
        if name == "eval":
            return Prim("eval", lambda cc, a, k: self.train(cc, False))
        raise PyRaise("AttributeError", name)

    def train(self, c, mode=True):
        self.fields["training"] = mode
        return self

    def m_setattr(self, c, name, v):
        self.fields[name] = v


class Switch(Contract):
    """whatever the body does (returns, raises, changes the flag, nests): requested value inside, previous value after"""
    cases = EXITS
    flag = None
    arg = None

    def params(self, c, case):
        self.body_ran, self.left = False, None
        n = Net(c, **{self.flag: c.Bool("flag"), "other": c.Bool("other")})
        self.net = n
        return {self.arg: n, "enabled": c.Bool("enabled")}

    def prepare(self, c, a):
        self.req = a["enabled"]

    def on_yield(self, c, fr, v):
        self.body_ran = True
        c.prove("inside-the-requested-value-is-in-force", B(self.net.fields[self.flag]) == B(self.req))
        # the body (nested switches included) may leave the flag at anything before it exits in any way
        self.net.fields[self.flag] = c.Bool("body_flag")
        if c.case != "normal":
            raise PyRaise(c.case)

    def raises(self, c, a, old):
        return [(c.case, True)] if c.case != "normal" else []

    def post(self, c, a, old, res):
        return [("body-ran", z3.BoolVal(self.body_ran)), ("restored", B(a[self.arg].fields[self.flag]) == B(old[self.arg].fields[self.flag]))]

    def post_exc(self, c, a, old, exc):
        return [("restored-after-exception", B(a[self.arg].fields[self.flag]) == B(old[self.arg].fields[self.flag])),
                ("exception-of-the-body-passed-on", z3.BoolVal(self.body_ran and exc.name == c.case))]

    @property
    def only_exceptional(self):
        return True


class TrainModeSwitch(Switch):
    """torch_train_mode: module.training is the requested value inside and the previous one after every exit"""
    target, flag, arg = TU + ":torch_train_mode", "training", "module"
    trusted = ("torch.nn.Module.train(mode) sets module.training to mode",)


class StepSwitch(Switch):
    """policy_within_training_step: the flag is the requested value inside and the previous one after every exit"""
    target, flag, arg = TU + ":policy_within_training_step", "is_within_training_step", "policy"


class Update(Contract):
    """update: refused outside a training step; absent buffer: no-op with empty statistics; otherwise sample, process_fn,
    learn, post_process_fn, lr step in that order on that data, with updating True exactly during them and the network in
    training mode while learning; flags restored on every exit"""
    target = PB + ":BasePolicy.update"
    cases = tuple((b, s, w) for b in (False, True) for s in (False, True) for w in ((None, "sample", "process_fn", "learn", "post_process_fn", "step") if b else (None,))
                  if not (w == "step" and not s))
    trusted = ("process_fn/learn/post_process_fn of the concrete policy and the buffer's sample are recorded calls that may raise",
               "torch.nn.Module.train(mode) sets module.training to mode", "time.time() is a real number")
    only_exceptional = True

    @property
    def externals(self):
        return {"time.time": lambda c, a, k: c.Real("now")}

    @property
    def overrides(self):
        return {PB + ":BasePolicy.process_fn": lambda c, a, k: self.call(c, "process_fn", a[1:], k),
                PB + ":BasePolicy.learn": lambda c, a, k: self.call(c, "learn", a[1:], k),
                PB + ":BasePolicy.post_process_fn": lambda c, a, k: self.call(c, "post_process_fn", a[1:], k)}

    def call(self, c, name, args, kw):
        self.events.append((name, list(args), dict(kw)))
        if name in ("process_fn", "learn", "post_process_fn"):
            c.prove(f"updating-during-{name}", B(self.pol.fields["updating"]))
        if name == "learn":
            c.prove("training-mode-while-learning", B(self.pol.fields["training"]))
        if c.case[2] == name:
            raise PyRaise("UserException")
        r = {"sample": (self.batch, self.idx), "process_fn": self.processed, "learn": self.stats}.get(name)
        return r

    def params(self, c, case):
        has_buf, sched, _ = case
        self.events = []
        m = Module.get(PB)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["BasePolicy"])), "policy")
        self.pol = o
        self.batch, self.idx, self.processed = Rec(c, "batch", {}), Opaque("indices"), Rec(c, "processed", {})
        self.stats = Rec(c, "stats", {"train_time": c.Real("tt")})
        self.buf = Rec(c, "buffer", {"sample": Fn(c, "sample", lambda cc, a, k: self.call(cc, "sample", a, k))}) if has_buf else None
        self.sch = Rec(c, "sched", {"step": Fn(c, "step", lambda cc, a, k: self.call(cc, "step", a, k))}) if sched else None
        self.kw = Opaque("kwarg")
        o.fields.update(is_within_training_step=c.Bool("within"), updating=False, training=c.Bool("training"), lr_scheduler=self.sch)
        o.fields["train"] = Fn(c, "train", lambda cc, a, k: cc.set_field(o, "training", a[0] if a else k.get("mode", True)))
        return dict(self=o, sample_size=c.Int("size"), buffer=self.buf, _kw=self.kw)

    def run(self, it, fn, a):
        return it.call_function(fn, [a["self"], a["sample_size"], a["buffer"]], {"repeat": a["_kw"]}, top=True)

    def raises(self, c, a, old):
        w = B(old["self"].fields["is_within_training_step"])
        out = [("RuntimeError", b_not(w))]
        if c.case[2]:
            out.append(("UserException", w))
        return out

    def flags(self, a, old):
        f, o = a["self"].fields, old["self"].fields
        return [("updating-false-afterwards", z3.Not(B(f["updating"]))), ("training-mode-restored", B(f["training"]) == B(o["training"])),
                ("within-flag-untouched", B(f["is_within_training_step"]) == B(o["is_within_training_step"]))]

    def post(self, c, a, old, res):
        out = self.flags(a, old)
        ev = self.events
        if a["buffer"] is None:
            f = res.fields if isinstance(res, Obj) else {}
            sm = f.get("smoothed_loss")
            out.append(("absent-buffer-does-nothing", z3.BoolVal(ev == [])))
            out.append(("empty-statistics", z3.BoolVal(isinstance(res, Obj) and res.cls.name == "TrainingStats" and f.get("train_time") == 0.0
                                                       and isinstance(sm, PDict) and not sm.d and set(f) == {"train_time", "smoothed_loss"})))
            return out
        want = [("sample",), ("process_fn", self.batch, self.buf, self.idx), ("learn", self.processed),
                ("post_process_fn", self.processed, self.buf, self.idx)] + ([("step",)] if a["self"].fields["lr_scheduler"] is not None else [])
        out.append(("phases-in-order", z3.BoolVal([e[0] for e in ev] == [w[0] for w in want])))
        for e, w in zip(ev, want):
            if len(w) > 1:
                out.append((f"{e[0]}-arguments", z3.BoolVal(len(e[1]) == len(w) - 1 and all(x is y for x, y in zip(e[1], w[1:])))))
        sm = ev[0][1]
        out.append(("sample-size", I(sm[0]) == a["sample_size"] if len(sm) == 1 else z3.BoolVal(False)))
        out.append(("keyword-arguments-reach-learn", z3.BoolVal(ev[2][2] == {"repeat": self.kw})))
        out.append(("statistics-of-learn-returned", z3.BoolVal(res is self.stats)))
        return out

    def post_exc(self, c, a, old, exc):
        out = self.flags(a, old)
        if exc.name == "RuntimeError":
            out.append(("refused-before-anything-happens", z3.BoolVal(self.events == [])))
        return out


PROOFS = {"P16": [TrainModeSwitch, StepSwitch, Update]}
