"""P15: target networks - soft/hard synchronisation, when learn() synchronises, and the twin-minimum bootstrap values."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import *

PB = "tianshou.policy.base"
MF = "tianshou.policy.modelfree."
IM = "tianshou.policy.imitation."


class Params(Model):
    """a module with a symbolic number of parameters, each flattened to a vector: parameter k's .data is row k of one matrix"""
    pytype = ("Module",)

    def __init__(self, c, name, n, w):
        self.n, self.data = n, c.arr(name, (n, w), kind="torch")
        c.reg(self, name)

    def m_snap(self, memo):
        r = object.__new__(Params)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        r.data = snapshot(self.data, memo)
        return r

    def m_getattr(self, c, name):
        if name == "parameters":
            return Prim("parameters", lambda cc, a, k: PList(None, self.n, lambda i: Param(self, i), None))
        raise Unsupported("attribute of a network: " + name)


class Param(Model):
    pytype = ("Parameter", "Tensor")

    def __init__(self, owner, i):
        self.owner, self.i = owner, i

    def m_getattr(self, c, name):
        if name in ("data", "detach"):
            from pyvc import npmodel
            i = self.i
            v = Arr((self.owner.data.shape[1],), None, "real", kind="torch", base=self.owner.data, imap=lambda *r: (i, *r),
                    inv=lambda j, *r: (I(j) == I(i), r))
            c.reg(v, "row")
            return v if name == "data" else Prim("detach", lambda cc, a, k: v)
        if name == "requires_grad":   # arbitrary per parameter
            if not hasattr(self.owner, "rg"):
                self.owner.rg = z3.Function(c.fresh_name("requires_grad"), z3.IntSort(), z3.BoolSort())
            return self.owner.rg(I(self.i))
        raise Unsupported("attribute of a parameter: " + name)


class SoftUpdate(Contract):
    """soft_update: every parameter of the target becomes tau*online + (1-tau)*target; the online network keeps all parameters (any number of parameters, any tau)"""
    target = PB + ":BasePolicy.soft_update"
    argorder = ("self", "tgt", "src", "tau")
    trusted = ("a module's parameters() yields its parameters in a fixed order; .data is the parameter's storage and copy_ writes it",
               "parameters are flattened to vectors of one common length (element-wise rule)")

    def make(self, c):
        self.n, self.w = c.nat("params"), c.nat("width")
        m = Module.get(PB)
        return c.reg(Obj(c.it.ver.get_class(m, m.defs["BasePolicy"])), "policy")

    def params(self, c, case):
        o = self.make(c)
        a = dict(self=o, tgt=Params(c, "tgt", self.n, self.w), src=Params(c, "src", self.n, self.w), tau=c.Real("tau"))
        self.T, self.S, self.tau = a["tgt"], a["src"], a["tau"]
        return a

    def rule(self, s, t):
        return self.tau * s + (1 - self.tau) * t

    def inv(self, c, L):
        f, s = self.T.data.snap(), self.S.data.snap()
        i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?j"))
        dom = z3.And(0 <= i, i < self.n, 0 <= j, j < self.w)
        return [("rows-done", z3.ForAll([i, j], z3.Implies(dom, f(i, j) == z3.If(i < L.k, self.rule(self.s0(i, j), self.t0(i, j)), self.t0(i, j))))),
                ("online-untouched", z3.ForAll([i, j], z3.Implies(dom, s(i, j) == self.s0(i, j))))]

    def prepare(self, c, a):
        self.t0, self.s0 = self.T.data.snap(), self.S.data.snap()

    @property
    def loops(self):
        return {0: Loop(self.inv)}

    def post(self, c, a, old, res):
        f, s = self.T.data.snap(), self.S.data.snap()
        i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?j"))
        dom = z3.And(0 <= i, i < self.n, 0 <= j, j < self.w)
        return [("target-is-tau-online-plus-rest-target", z3.ForAll([i, j], z3.Implies(dom, f(i, j) == self.tau * self.s0(i, j) + (1 - self.tau) * self.t0(i, j)))),
                ("online-network-untouched", z3.ForAll([i, j], z3.Implies(dom, s(i, j) == self.s0(i, j))))]


class RedqSync(SoftUpdate):
    """REDQ.sync_weight: the same rule on the critic ensemble with the policy's tau"""
    target = MF + "redq:REDQPolicy.sync_weight"

    def params(self, c, case):
        self.n, self.w = c.nat("params"), c.nat("width")
        m = Module.get(MF + "redq")
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["REDQPolicy"])), "policy")
        self.T, self.S, self.tau = Params(c, "tgt", self.n, self.w), Params(c, "src", self.n, self.w), c.Real("tau")
        o.fields.update(critic_old=self.T, critic=self.S, tau=self.tau)
        return dict(self=o)


class SyncTargets(Contract):
    """sync_weight of the actor-critic families: exactly one soft update per target network, from its own online network, with the policy's tau"""
    FAM = {"ddpg": (MF + "ddpg", "DDPGPolicy", ("actor", "critic")), "td3": (MF + "td3", "TD3Policy", ("actor", "critic", "critic2")),
           "sac": (MF + "sac", "SACPolicy", ("critic", "critic2")), "discrete_sac": (MF + "discrete_sac", "DiscreteSACPolicy", ("critic", "critic2")),
           "cql": (IM + "cql", "CQLPolicy", ("critic", "critic2")), "td3_bc": (IM + "td3_bc", "TD3BCPolicy", ("actor", "critic", "critic2"))}
    cases = tuple(FAM)
    target = None

    @property
    def overrides(self):
        return {PB + ":BasePolicy.soft_update": lambda c, a, k: self.calls.append((a, k))}

    def params(self, c, case):
        mod, cls, nets = self.FAM[case]
        m = Module.get(mod)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs[cls])), "policy")
        self.calls = []
        self.want = []
        self.tau = c.Real("tau")
        o.fields["tau"] = self.tau
        for n in ("actor", "critic", "critic2"):
            o.fields[n] = Tens(c, n)
            o.fields[n + "_old"] = Tens(c, n + "_old")
            if n in nets:
                self.want.append((o.fields[n + "_old"], o.fields[n]))
        return dict(self=o)

    def run(self, it, fn, a):
        m = it.find_member(a["self"].cls, "sync_weight")
        return it.call(it.bind_member(m, a["self"]), [], {})

    def post(self, c, a, old, res):
        got = []
        taus = []
        for ar, k in self.calls:
            ar = list(ar[1:])
            vals = dict(zip(("tgt", "src", "tau"), ar), **k)
            got.append((vals.get("tgt"), vals.get("src")))
            taus.append(R(vals.get("tau")) == self.tau)
        ids = sorted((id(x), id(y)) for x, y in got)
        return [("each-target-once-from-its-online-network", z3.BoolVal(ids == sorted((id(x), id(y)) for x, y in self.want))),
                ("with-the-policy-tau", z3.And(*taus) if taus else z3.BoolVal(True)),
                ("networks-not-replaced", z3.BoolVal(all(a["self"].fields[n] is old["self"].fields[n] for n in old["self"].fields)))]


class HardSync(Contract):
    """DQN.sync_weight: the target network loads exactly the online network's state"""
    target = MF + "dqn:DQNPolicy.sync_weight"
    trusted = ("load_state_dict(other.state_dict()) copies every parameter and buffer exactly (torch)",)

    def params(self, c, case):
        m = Module.get(MF + "dqn")
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["DQNPolicy"])), "policy")
        self.log = []
        o.fields.update(model=Tens(c, "model", self.log), model_old=Tens(c, "model_old", self.log))
        return dict(self=o)

    def post(self, c, a, old, res):
        ok = len(self.log) == 1 and self.log[0][1] == "model_old" and self.log[0][2] == "load_state_dict" and len(self.log[0][3]) == 1
        arg = self.log[0][3][0] if ok else None
        src = getattr(arg, "name", "") == "model.state_dict()"
        return [("copies-the-online-state", z3.BoolVal(bool(ok and src)))]


class Learn(Contract):
    """learn(): which synchronisations happen, decided for every step count and frequency; targets otherwise untouched"""
    MODS = {"dqn": (MF + "dqn", "DQNPolicy"), "c51": (MF + "c51", "C51Policy"), "qrdqn": (MF + "qrdqn", "QRDQNPolicy"), "iqn": (MF + "iqn", "IQNPolicy"),
            "fqf": (MF + "fqf", "FQFPolicy"), "bdq": (MF + "bdq", "BranchingDQNPolicy"), "rainbow": (MF + "rainbow", "RainbowPolicy"),
            "discrete_cql": (IM + "discrete_cql", "DiscreteCQLPolicy"), "ddpg": (MF + "ddpg", "DDPGPolicy"), "td3": (MF + "td3", "TD3Policy"),
            "sac": (MF + "sac", "SACPolicy"), "discrete_sac": (MF + "discrete_sac", "DiscreteSACPolicy"), "redq": (MF + "redq", "REDQPolicy"),
            "td3_bc": (IM + "td3_bc", "TD3BCPolicy")}
    trusted = ("tensors, networks and optimisers are abstract: an optimiser's step() changes only the parameters it was built with",)
    fam = ()
    NETS = ("model", "model_old", "actor", "actor_old", "critic", "critic_old", "critic2", "critic2_old")
    OPTS = ("optim", "fraction_optim", "actor_optim", "critic_optim", "critic2_optim", "alpha_optim")

    @property
    def overrides(self):
        mod, cls = self.MODS[self.which]
        ov = {}
        for _, (m_, c_) in self.MODS.items():
            ov[f"{m_}:{c_}.sync_weight"] = lambda c, a, k: self.log.append(("sync",))
            ov[f"{m_}:{c_}.forward"] = lambda c, a, k: (self.log.append(("forward", k.get("model", a[3] if len(a) > 3 else None))), Tens(c, "out", self.log))[1]
            ov[f"{m_}:{c_}._target_dist"] = lambda c, a, k: Tens(c, "dist", self.log)
            ov[f"{m_}:{c_}.compute_q_value"] = lambda c, a, k: Tens(c, "q", self.log)
        ov[MF + "rainbow:_sample_noise"] = lambda c, a, k: (self.log.append(("noise", a[0].name)), c.Bool("noisy"))[1]
        ov["tianshou.utils.conversion:to_optional_float"] = lambda c, a, k: None
        for n in ("to_torch_as", "to_torch", "to_numpy"):
            ov["tianshou.data.utils.converter:" + n] = lambda c, a, k: Tens(c, "conv", self.log)
        return ov

    @property
    def externals(self):
        f = lambda c, a, k: Tens(c, "np", self.log)
        return AnyTorch(self.log, {"numpy.arange": f})

    def build(self, c, case):
        self.which = case[0] if isinstance(case, tuple) else case
        mod, cls = self.MODS[self.which]
        m = Module.get(mod)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs[cls])), "policy")
        self.log = []
        for n in self.NETS + self.OPTS + ("support", "tau_hat", "log_alpha"):
            o.fields[n] = Tens(c, n, self.log)
        o.fields.update(gamma=c.Real("gamma"), alpha=Tens(c, "alpha", self.log), target_entropy=c.Real("te"), clip_loss_grad=c.Bool("clg"), min_q_weight=c.Real("mqw"),
                        ent_coef=c.Real("ec"), _last=c.Real("last"), _last_actor_loss=c.Real("la"), _is_auto_alpha=c.Bool("auto"), tau=c.Real("tau"))
        b = Rec(c, "batch", {n: Tens(c, "batch." + n, self.log) for n in ("obs", "act", "returns", "obs_next", "rew", "done", "weight")})
        return o, b

    def common(self, a, old):
        f, g = a["self"].fields, old["self"].fields
        mut = [e for e in self.log if e[0] == "op" and e[1].endswith("_old") and not (self.which == "rainbow" and e[2] == "train")]
        return [("targets-changed-by-nothing-else", z3.BoolVal(not mut)),
                ("networks-not-replaced", z3.BoolVal(all(f[n] is g[n] for n in self.NETS)))]

    @property
    def target(self):
        return None

    def run(self, it, fn, a):
        m = it.find_member(a["self"].cls, "learn")
        return it.call(it.bind_member(m, a["self"]), [a["batch"]], {})

    def syncs(self):
        return sum(e[0] == "sync" for e in self.log)


class LearnHard(Learn):
    """value-based learn(): hard synchronisation exactly when a target network exists and the step count is a multiple of the frequency; one step counted"""
    cases = tuple((f, t) for f in ("dqn", "c51", "qrdqn", "iqn", "fqf", "bdq", "rainbow", "discrete_cql") for t in (True, False))

    def params(self, c, case):
        o, b = self.build(c, case)
        self.it0, self.freq = c.nat("iter"), c.Int("freq")
        o.fields.update(_target=case[1], _iter=self.it0, freq=self.freq)
        if case[1]:
            c.assume(self.freq > 0)
        else:
            c.assume(self.freq <= 0)
        return dict(self=o, batch=b)

    def post(self, c, a, old, res):
        n = self.syncs()
        due = PYMOD(self.it0, self.freq) == 0 if c.case[1] else z3.BoolVal(False)
        return self.common(a, old) + [("synchronises-exactly-when-due", z3.And(z3.BoolVal(n <= 1), z3.BoolVal(n == 1) == due)),
                                      ("one-learning-step-counted", I(a["self"].fields["_iter"]) == self.it0 + 1)]


class LearnSoft(Learn):
    """actor-critic learn(): one soft synchronisation per learning step (TD3: per actor update, at every update_actor_freq-th step), never more"""
    cases = ("ddpg", "td3", "td3_bc", "sac", "discrete_sac", "redq")

    def params(self, c, case):
        o, b = self.build(c, case)
        self.cnt, self.freq = c.nat("cnt"), c.Int("freq")
        c.assume(self.freq > 0)
        o.fields.update(_cnt=self.cnt, update_actor_freq=self.freq, critic_gradient_step=c.nat("cgs"), actor_delay=self.freq)
        return dict(self=o, batch=b)

    def post(self, c, a, old, res):
        n = self.syncs()
        out = self.common(a, old)
        if c.case.startswith("td3"):
            return out + [("synchronises-exactly-at-actor-updates", z3.And(z3.BoolVal(n <= 1), z3.BoolVal(n == 1) == (PYMOD(self.cnt, self.freq) == 0))),
                          ("one-learning-step-counted", I(a["self"].fields["_cnt"]) == self.cnt + 1)]
        return out + [("synchronises-exactly-once", z3.BoolVal(n == 1))]


class Buf(Model):
    """buffer[indices].obs_next is the observation after the sampled transitions (P05/P06); nothing else of the buffer is read"""
    pytype = ("ReplayBuffer",)

    def __init__(self, con):
        self.con = con

    def m_snap(self, memo):
        return self

    def m_getitem(self, c, idx):
        if idx is not self.con.idx:
            raise Unsupported("buffer read at other indices than the given ones")
        return Rec(c, "next", dict(obs_next=self.con.onext, obs=Opaque("obs")))


class TargetQ(Contract):
    """bootstrap values: computed from the next observation by the target networks only"""
    trusted = ("networks are arbitrary functions: each call of one returns some array; " + TRUST_BATCH, TRUST_CONV)
    mod = cls = None
    overrides = {**BATCH, **CONV}

    def base(self, c):
        self.n = c.Int("bsz")
        c.assume(self.n >= 1)
        m = Module.get(self.mod)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs[self.cls])), "policy")
        self.idx = c.arr("indices", (self.n,), "int")
        self.onext = Opaque("obs_next")
        self.calls = []
        return o, dict(self=o, buffer=Buf(self), indices=self.idx)

    def net(self, c, name, out):
        def f(cc, a, k):
            args = list(a)
            if not args or args[0] is not self.onext:
                raise Unsupported(f"{name} evaluated on something else than the next observation")
            self.calls.append((name, args, k, [x.snap() if isinstance(x, Arr) else x for x in args]))
            return out
        return Fn(c, name, f)

    def forbidden(self, c, name):
        def f(cc, a, k):
            cc.prove(f"{name}-not-consulted", z3.BoolVal(False))
            raise EndPath()
        return Fn(c, name, f)

    def names(self):
        return sorted(x[0] for x in self.calls)

    def col(self, c, name):
        return c.arr(name, (self.n, 1), kind="torch")


class TargetDdpg(TargetQ):
    """DDPG: the target critic at the target actor's action"""
    target = MF + "ddpg:DDPGPolicy._target_q"
    mod, cls = MF + "ddpg", "DDPGPolicy"

    def params(self, c, case):
        o, a = self.base(c)
        self.act = c.arr("act", (self.n, c.Int("d")), kind="torch")
        self.q = self.col(c, "q")
        o.fields.update(actor_old=self.net(c, "actor_old", (self.act, None)), actor=self.forbidden(c, "actor"),
                        critic_old=self.net(c, "critic_old", self.q), critic=self.forbidden(c, "critic"))
        return a

    def post(self, c, a, old, res):
        r, q = res.snap(), old["self"] and self.q.snap()
        arg = [x for x in self.calls if x[0] == "critic_old"]
        return [("each-target-network-once", z3.BoolVal(self.names() == ["actor_old", "critic_old"])),
                ("critic-at-the-target-action", z3.BoolVal(len(arg) == 1 and len(arg[0][1]) == 2 and arg[0][1][1] is self.act)),
                ("target-critic-value", c.forall(lambda i: r(i, 0) == q(i, 0), 0, self.n))]


class TargetTd3(TargetQ):
    """TD3: the element-wise minimum of the two target critics, both at the target actor's action plus noise clipped to the configured range"""
    mod, cls = MF + "td3", "TD3Policy"
    target = MF + "td3:TD3Policy._target_q"
    cases = ("clipped", "unclipped")

    @property
    def externals(self):
        def randn(c, a, k):
            self.eps_ = c.arr("noise", tuple(k["size"]), kind="torch")
            return self.eps_
        return {"torch.randn": randn}

    def params(self, c, case):
        o, a = self.base(c)
        self.d = c.Int("d")
        c.assume(self.d >= 1)
        self.act = c.arr("act", (self.n, self.d), kind="torch")
        self.act0 = self.act.snap()
        self.q1, self.q2 = self.col(c, "q1"), self.col(c, "q2")
        self.nc = c.Real("noise_clip")
        self.pn = c.Real("policy_noise")
        c.assume(self.nc > 0 if case == "clipped" else self.nc <= 0)
        o.fields.update(actor_old=self.net(c, "actor_old", (self.act, None)), actor=self.forbidden(c, "actor"),
                        critic_old=self.net(c, "critic_old", self.q1), critic2_old=self.net(c, "critic2_old", self.q2),
                        critic=self.forbidden(c, "critic"), critic2=self.forbidden(c, "critic2"), policy_noise=self.pn, noise_clip=self.nc)
        return a

    def post(self, c, a, old, res):
        r, q1, q2 = res.snap(), self.q1.snap(), self.q2.snap()
        out = [("each-target-network-once", z3.BoolVal(self.names() == ["actor_old", "critic2_old", "critic_old"])),
               ("minimum-of-the-two-target-critics", c.forall(lambda i: r(i, 0) == z3.If(q1(i, 0) < q2(i, 0), q1(i, 0), q2(i, 0)), 0, self.n))]
        e = self.eps_.snap()
        for x in self.calls:
            if x[0].startswith("critic"):
                f = x[3][1]
                i, j = z3.Int("?i"), z3.Int("?j")
                dom = z3.And(0 <= i, i < self.n, 0 <= j, j < self.d)
                dev = f(i, j) - self.act0(i, j)
                nz = e(i, j) * self.pn
                cl = z3.If(nz < -self.nc, -self.nc, z3.If(nz > self.nc, self.nc, nz)) if c.case == "clipped" else nz
                out.append((f"{x[0]}-at-the-smoothed-target-action", z3.ForAll([i, j], z3.Implies(dom, dev == cl))))
        return out


class TargetSac(TargetQ):
    """SAC: the minimum of the two target critics at the current policy's action minus alpha times its log-probability"""
    mod, cls = MF + "sac", "SACPolicy"
    target = MF + "sac:SACPolicy._target_q"

    @property
    def overrides(self):
        return {**BATCH, **CONV, MF + "sac:SACPolicy.forward": self.fwd}

    def fwd(self, c, a, k):
        if not (isinstance(a[1], Rec) and a[1].fields.get("obs") is self.onext):
            raise Unsupported("policy evaluated on something else than the next observation")
        return Rec(c, "result", dict(act=self.act, log_prob=self.lp, logits=Opaque("l")))

    def params(self, c, case):
        o, a = self.base(c)
        self.act = c.arr("act", (self.n, c.Int("d")), kind="torch")
        self.lp = self.col(c, "logp")
        self.q1, self.q2 = self.col(c, "q1"), self.col(c, "q2")
        self.alpha = c.Real("alpha")
        o.fields.update(critic_old=self.net(c, "critic_old", self.q1), critic2_old=self.net(c, "critic2_old", self.q2),
                        critic=self.forbidden(c, "critic"), critic2=self.forbidden(c, "critic2"), alpha=self.alpha)
        return a

    def post(self, c, a, old, res):
        r, q1, q2, lp = res.snap(), self.q1.snap(), self.q2.snap(), self.lp.snap()
        return [("each-target-critic-once", z3.BoolVal(self.names() == ["critic2_old", "critic_old"])),
                ("critics-at-the-policy-action", z3.BoolVal(all(x[1][1] is self.act for x in self.calls))),
                ("minimum-minus-entropy-bonus", c.forall(lambda i: r(i, 0) == z3.If(q1(i, 0) < q2(i, 0), q1(i, 0), q2(i, 0)) - self.alpha * lp(i, 0), 0, self.n))]


class TargetDiscreteSac(TargetQ):
    """discrete SAC: expectation under the policy of the minimum of the two target critics, plus alpha times the entropy"""
    mod, cls = MF + "discrete_sac", "DiscreteSACPolicy"
    target = MF + "discrete_sac:DiscreteSACPolicy._target_q"

    @property
    def overrides(self):
        return {**BATCH, **CONV, MF + "discrete_sac:DiscreteSACPolicy.forward": self.fwd}

    def fwd(self, c, a, k):
        if not (isinstance(a[1], Rec) and a[1].fields.get("obs") is self.onext):
            raise Unsupported("policy evaluated on something else than the next observation")
        d = Rec(c, "dist", dict(probs=self.p, entropy=Prim("entropy", lambda cc, aa, kk: self.ent)))
        return Rec(c, "result", dict(dist=d))

    def params(self, c, case):
        o, a = self.base(c)
        self.m = c.Int("acts")
        c.assume(self.m >= 1)
        mk = lambda n: c.arr(n, (self.n, self.m), kind="torch")
        self.p, self.q1, self.q2 = mk("p"), mk("q1"), mk("q2")
        self.ent = c.arr("entropy", (self.n,), kind="torch")
        self.alpha = c.Real("alpha")
        o.fields.update(critic_old=self.net(c, "critic_old", self.q1), critic2_old=self.net(c, "critic2_old", self.q2),
                        critic=self.forbidden(c, "critic"), critic2=self.forbidden(c, "critic2"), alpha=self.alpha)
        return a

    def post(self, c, a, old, res):
        from pyvc import npmodel
        p, q1, q2, e = self.p.snap(), self.q1.snap(), self.q2.snap(), self.ent.snap()
        ev = npmodel.reduce_axis(c, c.lam((self.n, self.m), lambda i, j: p(i, j) * smin(q1(i, j), q2(i, j)), "real", "torch"), 1, "sum", {}).snap()
        r = res.snap()
        return [("each-target-critic-once", z3.BoolVal(self.names() == ["critic2_old", "critic_old"])),
                ("expected-minimum-plus-entropy-bonus", c.forall(lambda i: r(i) == ev(i) + self.alpha * e(i), 0, self.n))]


class TargetRedq(TargetQ):
    """REDQ: minimum (or mean) over a drawn subset of the target ensemble at the current policy's action, minus alpha times the log-probability"""
    mod, cls = MF + "redq", "REDQPolicy"
    target = MF + "redq:REDQPolicy._target_q"
    cases = ("min", "mean")

    @property
    def overrides(self):
        return {**BATCH, **CONV, MF + "redq:REDQPolicy.forward": self.fwd}

    @property
    def externals(self):
        def choice(c, a, k):
            if not (a[0] is self.E and a[1] is self.K and k.get("replace") is False):
                raise Unsupported("another draw than subset_size members of the ensemble")
            return self.sub
        return {"numpy.random.choice": choice}
    fwd = TargetSac.fwd

    def params(self, c, case):
        o, a = self.base(c)
        self.E, self.K = c.Int("ensemble"), c.Int("subset")
        c.assume(self.K >= 1, self.E >= self.K)
        self.sub = c.arr("sub", (self.K,), "int")
        self.act = c.arr("act", (self.n, c.Int("d")), kind="torch")
        self.lp = self.col(c, "logp")
        self.q = c.arr("q", (self.E, self.n, 1), kind="torch")
        self.alpha = c.Real("alpha")
        o.fields.update(critic_old=self.net(c, "critic_old", self.q), critic=self.forbidden(c, "critic"), alpha=self.alpha, target_mode=case,
                        ensemble_size=self.E, subset_size=self.K)
        return a

    def pre(self, c, a):
        s = self.sub.snap()
        return [("subset-of-the-ensemble", c.forall(lambda k: z3.And(0 <= s(k), s(k) < self.E), 0, self.K))]

    def post(self, c, a, old, res):
        from pyvc import npmodel
        r, q, lp, s = res.snap(), old["self"] and self.q.snap(), self.lp.snap(), self.sub.snap()
        out = [("target-ensemble-once-at-the-policy-action", z3.BoolVal(self.names() == ["critic_old"] and self.calls[0][1][1] is self.act))]
        b = lambda i: r(i, 0) + self.alpha * lp(i, 0)
        if c.case == "min":
            k = z3.Int(c.fresh_name("?k"))
            inr = z3.And(0 <= k, k < self.K)
            return out + [("not-above-any-drawn-member", c.forall(lambda i: z3.ForAll([k], z3.Implies(inr, b(i) <= q(s(k), i, 0))), 0, self.n)),
                          ("attained-by-a-drawn-member", c.forall(lambda i: z3.Exists([k], z3.And(inr, b(i) == q(s(k), i, 0))), 0, self.n))]
        mean = npmodel.reduce_axis(c, npmodel.arr_getitem(c, self.q, self.sub), 0, "mean", {}).snap()
        return out + [("mean-of-the-drawn-members", c.forall(lambda i: b(i) == mean(i, 0), 0, self.n))]


class TargetDqn(TargetQ):
    """DQN: with double learning the target network's value of the online network's greedy action; otherwise the target network's maximum"""
    mod, cls = MF + "dqn", "DQNPolicy"
    target = MF + "dqn:DQNPolicy._target_q"
    cases = tuple((d, t) for d in (True, False) for t in (True, False))

    def params(self, c, case):
        o, a = self.base(c)
        self.m = c.Int("acts")
        c.assume(self.m >= 1)
        self.on, self.tg = c.arr("online", (self.n, self.m), kind="torch"), c.arr("target", (self.n, self.m), kind="torch")
        o.fields.update(model=self.net(c, "model", (self.on, None)), model_old=self.net(c, "model_old", (self.tg, None)) if case[1] else self.forbidden(c, "model_old"),
                        _target=case[1], is_double=case[0], max_action_num=self.m)
        self.onext = c.arr("obs_next", (self.n, c.nat("feat")))
        return a

    def post(self, c, a, old, res):
        double, tgt = c.case
        on, tg = self.on.snap(), (self.tg if tgt else self.on).snap()
        r = res.snap()
        w, j = z3.Int(c.fresh_name("?w")), z3.Int(c.fresh_name("?j"))
        inr = lambda x: z3.And(0 <= x, x < self.m)
        sel = on if double else tg
        return [("one-value-per-row", I(res.shape[0]) == self.n),
                ("value-of-a-greedy-action", c.forall(lambda i: z3.Exists([w], z3.And(inr(w), r(i) == tg(i, w), z3.ForAll([j], z3.Implies(inr(j), sel(i, j) <= sel(i, w))))), 0, self.n))]


PROOFS = {"P15": [SoftUpdate, RedqSync, SyncTargets, HardSync, LearnHard, LearnSoft, TargetDdpg, TargetTd3, TargetSac, TargetDiscreteSac, TargetRedq, TargetDqn]}
