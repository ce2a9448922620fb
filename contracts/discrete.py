"""P23: masked action selection of the value-based, epsilon-greedy and random discrete policies (any batch, any action count)."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import *

DQN = "tianshou.policy.modelfree.dqn"
FINITE = "network outputs and draws are finite reals; -inf lies below every one of them"


def policy(c, mod, cls, **f):
    m = Module.get(mod)
    o = c.reg(Obj(c.it.ver.get_class(m, m.defs[cls])), "policy")
    o.fields.update(f)
    return o


def below(c, a, n, m):
    """-inf < every entry (assumed, not checked at call sites)"""
    f = a.snap()
    i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?j"))
    return z3.ForAll([i, j], NEG_INF < R(f(i, j)), patterns=[f(i, j)] if z3.is_app(f(i, j)) and f(i, j).decl().kind() == z3.Z3_OP_UNINTERPRETED else [])


def ok_mask(m, i, j):
    v = m(i, j)
    return B(v) if is_bool(v) else v != 0


def all2(c, n, m, fn):
    i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?j"))
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < I(n), 0 <= j, j < I(m)), B(fn(i, j))))


def some_allowed(c, n, m, g):
    """every row has an allowed action"""
    i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?e"))
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < I(n)), z3.Exists([j], z3.And(0 <= j, j < I(m), ok_mask(g, i, j)))))


class Masked(Contract):
    neg_inf = True
    trusted = (FINITE, TRUST_BATCH, TRUST_CONV)
    overrides = {**BATCH, **CONV}

    def dims(self, c):
        self.n, self.m = c.Int("bsz"), c.Int("acts")
        c.assume(self.n >= 1, self.m >= 1)

    def mask(self, c, kind):
        return None if kind is None else c.arr("mask", (self.n, self.m), "bool" if kind == "bool" else "int")


class QMask(Masked):
    """compute_q_value: allowed entries keep their value, every masked entry lies strictly below every allowed one of its row; inputs unaltered"""
    target = DQN + ":DQNPolicy.compute_q_value"
    argorder = ("self", "logits", "mask")
    cases = (None, "bool", "int")

    def params(self, c, case):
        self.dims(c)
        return dict(self=policy(c, DQN, "DQNPolicy"), logits=c.arr("logits", (self.n, self.m), kind="torch"), mask=self.mask(c, case))

    def prepare(self, c, a):
        c.assume(below(c, a["logits"], self.n, self.m))

    def result(self, c, a):
        return c.arr("q", a["logits"].shape, kind="torch")

    def post(self, c, a, old, res):
        n, m = a["logits"].shape
        r, f, f1 = res.snap(), old["logits"].snap(), a["logits"].snap()
        out = [("shape", z3.And(I(res.shape[0]) == I(n), I(res.shape[1]) == I(m)) if len(res.shape) == 2 else z3.BoolVal(False)),
               ("network-output-not-altered", all2(c, n, m, lambda i, j: f1(i, j) == f(i, j)))]
        if a["mask"] is None:
            return out + [("unmasked", all2(c, n, m, lambda i, j: r(i, j) == f(i, j)))]
        g = old["mask"].snap()
        k = z3.Int(c.fresh_name("?k"))
        out.append(("allowed-keep-their-value", all2(c, n, m, lambda i, j: z3.Implies(ok_mask(g, i, j), r(i, j) == f(i, j)))))
        out.append(("masked-below-every-allowed", all2(c, n, m, lambda i, j: z3.Implies(
            z3.Not(ok_mask(g, i, j)), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(m), ok_mask(g, i, k)), r(i, j) < r(i, k)))))))
        return out


class Reduced(Masked):
    """the distributional variants apply the same masking to the expected value of each action"""
    cases = (None, "bool", "int")
    uses = (QMask(),)
    mod = cls = None

    def params(self, c, case):
        self.dims(c)
        k = c.Int("atoms")
        c.assume(k >= 1)
        return dict(self=policy(c, self.mod, self.cls, support=c.arr("support", (k,), kind="torch")),
                    logits=c.arr("dist", (self.n, self.m, k), kind="torch"), mask=self.mask(c, case))

    def post(self, c, a, old, res):
        q = self.value(c, old).snap()
        r = res.snap()
        out = [("shape", z3.And(I(res.shape[0]) == self.n, I(res.shape[1]) == self.m) if len(res.shape) == 2 else z3.BoolVal(False))]
        if a["mask"] is None:
            return out + [("expected-value", all2(c, self.n, self.m, lambda i, j: r(i, j) == q(i, j)))]
        g = old["mask"].snap()
        k = z3.Int(c.fresh_name("?k"))
        out.append(("allowed-keep-their-expected-value", all2(c, self.n, self.m, lambda i, j: z3.Implies(ok_mask(g, i, j), r(i, j) == q(i, j)))))
        out.append(("masked-below-every-allowed", all2(c, self.n, self.m, lambda i, j: z3.Implies(
            z3.Not(ok_mask(g, i, j)), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m, ok_mask(g, i, k)), r(i, j) < r(i, k)))))))
        return out


class QMaskC51(Reduced):
    """C51: value = sum over atoms of probability x support point"""
    target = "tianshou.policy.modelfree.c51:C51Policy.compute_q_value"
    mod, cls = "tianshou.policy.modelfree.c51", "C51Policy"

    def value(self, c, old):
        from pyvc import npmodel
        return npmodel.reduce_axis(c, npmodel.binop_any(c.it, "*", old["logits"], old["self"].fields["support"]), 2, "sum", {})


class QMaskQRDQN(Reduced):
    """QRDQN: value = mean over quantiles"""
    target = "tianshou.policy.modelfree.qrdqn:QRDQNPolicy.compute_q_value"
    mod, cls = "tianshou.policy.modelfree.qrdqn", "QRDQNPolicy"

    def value(self, c, old):
        from pyvc import npmodel
        return npmodel.reduce_axis(c, old["logits"], 2, "mean", {})


class Forward(Masked):
    """forward: the chosen action of every row is allowed (when one is) and of maximal value among the allowed ones; network sees the inner observation, the state and the info"""
    target = DQN + ":DQNPolicy.forward"
    uses = (QMask(),)
    cases = tuple((mk, wrapped, mdl) for mk in (None, "bool", "int") for wrapped in (True, False) for mdl in ("model", "model_old") if wrapped or mk is None)

    def params(self, c, case):
        mk, wrapped, mdl = case
        self.dims(c)
        self.logits = c.arr("logits", (self.n, self.m), kind="torch")
        self.hidden, self.inner, self.info, self.state = Opaque("hidden"), Opaque("inner obs"), Opaque("info"), Opaque("state")
        self.calls = []

        def net(which):
            def f(cc, a, k):
                self.calls.append((which, a, k))
                return (self.logits, self.hidden)
            return Fn(c, which, f)
        p = policy(c, DQN, "DQNPolicy", model=net("model"), model_old=net("model_old"), max_action_num=None)
        f = {"obs": self.inner}
        self.mk = self.mask(c, mk)
        if mk:
            f["mask"] = self.mk
        obs = Rec(c, "obs", f) if wrapped else self.plain(c)
        self.obs = obs
        return dict(self=p, batch=Rec(c, "batch", dict(obs=obs, info=self.info)), state=self.state, model=mdl)

    def plain(self, c):
        return c.arr("obs", (self.n, c.nat("feat")))

    def prepare(self, c, a):
        c.assume(below(c, self.logits, self.n, self.m))

    def post(self, c, a, old, res):
        f = self.logits.snap()
        act = res.fields.get("act")
        if not isinstance(act, Arr) or len(act.shape) != 1:
            return [("act", z3.BoolVal(False))]
        w = act.snap()
        n, m = self.n, self.m
        g = self.mk.snap() if self.mk is not None else (lambda i, j: True)
        k = z3.Int(c.fresh_name("?k"))
        out = [("one-action-per-row", I(act.shape[0]) == n), ("in-the-action-space", c.forall(lambda i: z3.And(0 <= w(i), w(i) < m), 0, n))]
        if self.mk is not None:
            out.append(("allowed", z3.Implies(some_allowed(c, n, m, g), c.forall(lambda i: ok_mask(g, i, w(i)), 0, n))))
        out.append(("maximal-among-the-allowed", z3.Implies(some_allowed(c, n, m, g) if self.mk is not None else z3.BoolVal(True),
                    all2(c, n, m, lambda i, j: z3.Implies(ok_mask(g, i, j) if self.mk is not None else True, f(i, w(i)) >= f(i, j))))))
        out.append(("raw-values-reported", z3.BoolVal(res.fields.get("logits") is self.logits)))
        out.append(("state-of-this-call-returned", z3.BoolVal(res.fields.get("state") is self.hidden)))
        inner = self.inner if c.case[1] else self.obs
        out.append(("requested-network-sees-inner-observation-state-info", z3.BoolVal(
            len(self.calls) == 1 and self.calls[0][0] == c.case[2] and len(self.calls[0][1]) >= 1 and self.calls[0][1][0] is inner
            and self.calls[0][2].get("state") is self.state and self.calls[0][2].get("info") is self.info)))
        out.append(("action-count-remembered", I(a["self"].fields["max_action_num"]) == m))
        return out


class Noise(Masked):
    """exploration_noise: rate 0 (and non-array actions) change nothing; otherwise every action stays allowed / in the action space"""
    target = DQN + ":DQNPolicy.exploration_noise"
    cases = (None, "bool", "int", "batch", "unset")
    trusted = Masked.trusted + ("np.random.rand yields values in [0, 1)",)

    def params(self, c, case):
        self.dims(c)
        n, m = self.n, self.m
        p = policy(c, DQN, "DQNPolicy", eps=c.Real("eps"), max_action_num=None if case == "unset" else m)
        self.mk = self.mask(c, case if case in ("bool", "int") else None)
        obs = Rec(c, "obs", {"obs": Opaque("inner"), **({"mask": self.mk} if self.mk is not None else {})})
        self.act = c.arr("act", (n,), "int")
        self.given = Rec(c, "actbatch", {"act": self.act}) if case == "batch" else self.act
        return dict(self=p, act=self.given, batch=Rec(c, "batch", dict(obs=obs)))

    def pre(self, c, a):
        w = self.act.snap()
        out = [("action-space", c.forall(lambda i: z3.And(0 <= w(i), w(i) < self.m), 0, self.n)),
               ("eps", z3.And(a["self"].fields["eps"] >= 0, a["self"].fields["eps"] <= 1))]
        if self.mk is not None:
            g = self.mk.snap()
            if self.mk.dtype == "int":
                out.append(("mask-is-0-1", all2(c, self.n, self.m, lambda i, j: z3.Or(g(i, j) == 0, g(i, j) == 1))))
            out.append(("allowed-on-entry", c.forall(lambda i: ok_mask(g, i, w(i)), 0, self.n)))
        return out

    def raises(self, c, a, old):
        if c.case == "unset":
            return [("AssertionError", z3.Not(self.zero(old)))]
        return []

    def zero(self, old):
        e = old["self"].fields["eps"]
        return z3.And(e <= z3.RealVal("1/100000000"), e >= -z3.RealVal("1/100000000"))

    def post(self, c, a, old, res):
        out = [("same-actions-object", z3.BoolVal(res is self.given))]
        w = self.act.snap()
        w0 = (old["act"] if isinstance(old["act"], Arr) else old["act"].fields["act"]).snap()
        same = c.forall(lambda i: w(i) == w0(i), 0, self.n)
        out.append(("rate-zero-changes-nothing", z3.Implies(self.zero(old), same)))
        if c.case == "batch":
            return out + [("non-array-actions-untouched", same)]
        out.append(("in-the-action-space", c.forall(lambda i: z3.And(0 <= w(i), w(i) < self.m), 0, self.n)))
        if self.mk is not None:
            g = self.mk.snap()
            out.append(("allowed", c.forall(lambda i: ok_mask(g, i, w(i)), 0, self.n)))
            m1 = a["batch"].fields["obs"].fields["mask"].snap()
            m0 = old["batch"].fields["obs"].fields["mask"].snap()
            out.append(("mask-not-altered", all2(c, self.n, self.m, lambda i, j: m1(i, j) == m0(i, j))))
        return out


class RandomPolicy(Masked):
    """the random agent picks, for every row with an allowed action, an allowed one"""
    target = "tianshou.policy.random:MARLRandomPolicy.forward"
    trusted = Masked.trusted + ("np.random.rand yields values in [0, 1)",)

    def params(self, c, case):
        self.dims(c)
        self.mk = self.mask(c, "bool")
        c.assume(NEG_INF < 0)
        return dict(self=policy(c, "tianshou.policy.random", "MARLRandomPolicy"), batch=Rec(c, "batch", dict(obs=Rec(c, "obs", dict(mask=self.mk)))))

    def post(self, c, a, old, res):
        act = res.fields.get("act")
        if not isinstance(act, Arr) or len(act.shape) != 1:
            return [("act", z3.BoolVal(False))]
        w, g, g1 = act.snap(), old["batch"].fields["obs"].fields["mask"].snap(), self.mk.snap()
        return [("one-action-per-row", I(act.shape[0]) == self.n),
                ("in-the-action-space", c.forall(lambda i: z3.And(0 <= w(i), w(i) < self.m), 0, self.n)),
                ("allowed", z3.Implies(some_allowed(c, self.n, self.m, g), c.forall(lambda i: ok_mask(g, i, w(i)), 0, self.n))),
                ("mask-not-altered", all2(c, self.n, self.m, lambda i, j: B(g1(i, j)) == B(g(i, j))))]


PROOFS = {"P23": [QMask, QMaskC51, QMaskQRDQN, Forward, Noise, RandomPolicy]}
