"""P26: contracts on the interval gates of BaseLogger (every step, every interval, every prior state)."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import Rec, Fn

MOD = "tianshou.utils.logger.base"
KINDS = {"train": "train/env_step", "test": "test/env_step", "update": "update/gradient_step", "info": "info/epoch"}


def ev_write(c, args, kw):
    c.events.append(("write", args[1], args[2], args[3]))


def ev_prepare(c, args, kw):
    r = c.reg(PDict({"prepared-from": args[1]}), "prepared")
    return r


class LoggerInit(Contract):
    """a fresh logger has logged nothing yet: every last step is -1 and each interval is the configured one"""
    target = MOD + ":BaseLogger.__init__"

    def params(self, c, case):
        m = Module.get(MOD)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["BaseLogger"])), "logger")
        return dict(self=o, train_interval=c.Int("ti"), test_interval=c.Int("te"), update_interval=c.Int("up"), info_interval=c.Int("inf"))

    def post(self, c, a, old, res):
        f = a["self"].fields
        out = []
        for k in KINDS:
            out += [(f"{k}-interval", I(f[k + "_interval"]) == a[k + "_interval"]), (f"{k}-last", I(f[f"last_log_{k}_step"]) == -1)]
        return out


class Gate(Contract):
    kind = None
    overrides = {MOD + ":BaseLogger.write": ev_write, MOD + ":BaseLogger.prepare_dict_for_logging": ev_prepare}
    trusted = ("write/prepare_dict_for_logging of the concrete logger (abstract in BaseLogger) are recorded, not executed",)

    def params(self, c, case):
        m = Module.get(MOD)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["BaseLogger"])), "logger")
        for k in KINDS:
            o.fields[k + "_interval"] = c.Int(k + "_int")
            o.fields[f"last_log_{k}_step"] = c.Int(k + "_last")
        return dict(self=o, log_data=c.reg(PDict({}), "data"), step=c.Int("step"))

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        k, step = self.kind, a["step"]
        due = step - o[f"last_log_{k}_step"] >= o[k + "_interval"]
        ev = [e for e in c.events if e[0] == "write"]
        out = [("written-exactly-when-due", B(due) == z3.BoolVal(len(ev) == 1)), ("at-most-one-write", z3.BoolVal(len(ev) <= 1))]
        for e in ev:
            out += [("tag", z3.BoolVal(isinstance(e[1], str) and e[1] == KINDS[k])), ("step-of-this-call", I(e[2]) == step),
                    ("data-of-this-call", z3.BoolVal(isinstance(e[3], PDict) and e[3].d.get("prepared-from") is a["log_data"]))]
        out += [("last-step-updated-only-when-written", I(f[f"last_log_{k}_step"]) == z3.If(due, step, o[f"last_log_{k}_step"]))]
        for j in KINDS:
            if j != k:
                out.append((f"{j}-untouched", z3.And(I(f[f"last_log_{j}_step"]) == o[f"last_log_{j}_step"])))
            out.append((f"{j}-interval-untouched", I(f[j + "_interval"]) == o[j + "_interval"]))
        return out


class LogTrain(Gate):
    """log_train_data writes exactly when its interval has passed, and touches only its own counter"""
    target, kind = MOD + ":BaseLogger.log_train_data", "train"


class LogTest(Gate):
    """log_test_data writes exactly when its interval has passed, and touches only its own counter"""
    target, kind = MOD + ":BaseLogger.log_test_data", "test"


class LogUpdate(Gate):
    """log_update_data writes exactly when its interval has passed, and touches only its own counter"""
    target, kind = MOD + ":BaseLogger.log_update_data", "update"


class LogInfo(Gate):
    """log_info_data writes exactly when its interval has passed, and touches only its own counter"""
    target, kind = MOD + ":BaseLogger.log_info_data", "info"


PROOFS = {"P26": [LoggerInit, LogTrain, LogTest, LogUpdate, LogInfo]}
