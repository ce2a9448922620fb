"""P24: C51 support, projection formula, and (as lemmas over the formula) that it is a distribution with the clipped mean."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import *

MOD = "tianshou.policy.modelfree.c51"


def policy(c):
    m = Module.get(MOD)
    return c.reg(Obj(c.it.ver.get_class(m, m.defs["C51Policy"])), "policy")


class Init(Contract):
    """the support has num_atoms points from v_min in steps of delta_z up to v_max; fewer than two atoms or an empty range are refused"""
    target = MOD + ":C51Policy.__init__"
    trusted = ("torch.linspace(a, b, n)[j] = a + j*(b-a)/(n-1)", "torch.nn.Parameter(x) holds x")
    overrides = {"tianshou.policy.modelfree.dqn:DQNPolicy.__init__": lambda c, a, k: None}
    externals = {"torch.nn.Parameter": lambda c, a, k: a[0],
                 "torch.linspace": lambda c, a, k: c.lam((a[2],), lambda j: R(a[0]) + z3.ToReal(I(j)) * ((R(a[1]) - R(a[0])) / (R(a[2]) - 1)), "real", "torch")}

    def params(self, c, case):
        self.n, self.lo, self.hi = c.Int("num_atoms"), c.Real("v_min"), c.Real("v_max")
        return dict(self=policy(c))

    def run(self, it, fn, a):
        return it.call_function(fn, [a["self"]], dict(model=Opaque("model"), optim=Opaque("optim"), action_space=Opaque("space"), num_atoms=self.n, v_min=self.lo, v_max=self.hi), top=True)

    def raises(self, c, a, old):
        return [("AssertionError", z3.Not(z3.And(self.n > 1, self.lo < self.hi)))]

    def post(self, c, a, old, res):
        f = a["self"].fields
        z, d = f["support"].snap(), f["delta_z"]
        return [("atoms", I(f["support"].shape[0]) == self.n), ("step", R(d) * (z3.ToReal(self.n) - 1) == self.hi - self.lo), ("step-positive", R(d) > 0),
                ("first", R(z(0)) == self.lo), ("last", R(z(self.n - 1)) == self.hi),
                ("evenly-spaced", c.forall(lambda j: R(z(j)) == self.lo + z3.ToReal(j) * R(d), 0, self.n)),
                ("range", z3.And(R(f["_v_min"]) == self.lo, R(f["_v_max"]) == self.hi)), ("atom-count", I(f["_num_atoms"]) == self.n)]


class TargetQ(Contract):
    """the next-state support handed to the return computation is the policy's support for every row"""
    target = MOD + ":C51Policy._target_q"

    def params(self, c, case):
        o = policy(c)
        self.n, self.k = c.nat("bsz"), c.Int("atoms")
        c.assume(self.k >= 2)
        o.fields["support"] = c.arr("support", (self.k,), kind="torch")
        return dict(self=o, buffer=Opaque("buffer"), indices=c.arr("indices", (self.n,), "int"))

    def post(self, c, a, old, res):
        r, z = res.snap(), old["self"].fields["support"].snap()
        i, j = z3.Int("?i"), z3.Int("?j")
        return [("shape", z3.And(I(res.shape[0]) == self.n, I(res.shape[1]) == self.k)),
                ("rows-are-the-support", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < self.k), r(i, j) == z(j))))]


def hat(t, z, d):
    x = t - z
    w = 1 - z3.If(x >= 0, x, -x) / d
    return z3.If(w < 0, z3.RealVal(0), z3.If(w > 1, z3.RealVal(1), w))


def clampv(t, lo, hi):
    return z3.If(t < lo, lo, z3.If(t > hi, hi, t))


class TargetDist(Contract):
    """projected mass at support point j = sum over atoms k of p(k) * hat((clip(return_k) - z_j)/delta), with p the next-state
    distribution of the online network's greedy action (from the target network when there is one)"""
    target = MOD + ":C51Policy._target_dist"
    cases = (True, False)
    trusted = ("the forward pass is an arbitrary function of (observation, network)", TRUST_BATCH)

    @property
    def overrides(self):
        return {**BATCH, **CONV, "tianshou.policy.modelfree.dqn:DQNPolicy.forward": self.fwd, "tianshou.data.batch:Batch.__len__": lambda c, a, k: self.n}

    def fwd(self, c, a, k):
        which = k.get("model", a[3] if len(a) > 3 else "model")
        if not (isinstance(a[1], Rec) and a[1].fields.get("obs") is self.onext):
            raise Unsupported("policy evaluated on something else than the next observation")
        self.calls.append(which)
        return Rec(c, "out", dict(act=self.act[which], logits=self.dist[which]))

    def params(self, c, case):
        o = policy(c)
        self.n, self.m, self.k = c.Int("bsz"), c.Int("acts"), c.Int("atoms")
        c.assume(self.n >= 1, self.m >= 1, self.k >= 2)
        self.calls = []
        self.lo, self.hi, self.d = c.Real("v_min"), c.Real("v_max"), c.Real("delta_z")
        self.onext = Opaque("obs_next")
        self.act = {w: c.arr("act_" + w, (self.n,), "int") for w in ("model", "model_old")}
        self.dist = {w: c.arr("dist_" + w, (self.n, self.m, self.k), kind="torch") for w in ("model", "model_old")}
        self.ret = c.arr("returns", (self.n, self.k), kind="torch")
        o.fields.update(_target=case, _v_min=self.lo, _v_max=self.hi, delta_z=self.d, support=c.arr("support", (self.k,), kind="torch"))
        return dict(self=o, batch=Rec(c, "batch", dict(obs_next=self.onext, returns=self.ret), n=self.n))

    def pre(self, c, a):
        out = [("range", self.lo < self.hi), ("step", self.d > 0)]
        for w in self.act:
            f = self.act[w].snap()
            out.append(("actions", c.forall(lambda i: z3.And(0 <= f(i), f(i) < self.m), 0, self.n)))
        return out

    def post(self, c, a, old, res):
        from pyvc import npmodel
        z = old["self"].fields["support"].snap()
        ret = old["batch"].fields["returns"].snap()
        act = self.act["model"].snap()
        p = self.dist["model_old" if c.case else "model"].snap()
        want = c.lam((self.n, self.k, self.k), lambda i, j, k: hat(clampv(ret(i, k), self.lo, self.hi), z(j), self.d) * p(i, act(i), k), "real", "torch")
        s = npmodel.reduce_axis(c, want, 2, "sum", {}).snap()
        r = res.snap()
        i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?j"))
        rr = a["batch"].fields["returns"].snap()
        return [("shape", z3.And(z3.BoolVal(len(res.shape) == 2), I(res.shape[0]) == self.n, I(res.shape[1]) == self.k)),
                ("projection-formula", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < self.k), r(i, j) == s(i, j)))),
                ("returns-not-altered", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < self.k), rr(i, j) == ret(i, j))))]


def lemmas(ver):
    """for z_j = lo + j*d and lo <= t <= lo + (N-1)*d the hat weights are non-negative, sum to one and have mean t: induction over
    j with the closed forms P(J) = clamp(J-u, 0, 1) and Q(J) = 0 / (J-1)*P(J) / u for the partial sums, u = (t-lo)/d"""
    lo, d, t, u = z3.Reals("lo d t u")
    J = z3.Real("J")
    one, zero = z3.RealVal(1), z3.RealVal(0)
    cl = lambda x: z3.If(x < 0, zero, z3.If(x > 1, one, x))
    P = lambda j: cl(j - u)
    Q = lambda j: z3.If(P(j) == 0, zero, z3.If(P(j) == 1, u, (j - 1) * P(j)))
    w = lambda j: cl(1 - z3.If(u >= j, u - j, j - u))
    ok = ver.lemma("Projection", "weights-non-negative", [d > 0], hat(t, lo + J * d, d) >= 0)
    ok &= ver.lemma("Projection", "normalised-coordinates", [d > 0, u * d == t - lo], hat(t, lo + J * d, d) == w(J))
    ok &= ver.lemma("Projection", "mass-base", [u >= 0], P(zero) == 0)
    ok &= ver.lemma("Projection", "mass-step", [u >= 0], P(J + 1) == P(J) + w(J))
    N = z3.Real("N")
    ok &= ver.lemma("Projection", "mass-total-one", [u >= 0, u <= N - 1], P(N) == 1)
    ok &= ver.lemma("Projection", "mean-base", [u >= 0], Q(zero) == 0)
    ok &= ver.lemma("Projection", "mean-step", [u >= 0], Q(J + 1) == Q(J) + J * w(J))
    ok &= ver.lemma("Projection", "mean-total", [u >= 0, u <= N - 1], Q(N) == u)
    ok &= ver.lemma("Projection", "mean-in-support-units", [d > 0, u * d == t - lo], lo + d * u == t)
    ok &= ver.lemma("Projection", "only-the-two-neighbours", [u >= 0, z3.Or(J <= u - 1, J >= u + 1)], w(J) == 0)
    hi = z3.Real("hi")
    ok &= ver.lemma("Projection", "below-the-support-goes-to-the-first", [d > 0, lo < hi, t < lo], hat(clampv(t, lo, hi), lo, d) == 1)
    ok &= ver.lemma("Projection", "above-the-support-goes-to-the-last", [d > 0, lo < hi, t > hi], hat(clampv(t, lo, hi), hi, d) == 1)
    return ok


PROOFS = {"P24": [Init, TargetQ, TargetDist]}
LEMMAS = {"P24": [lemmas]}
