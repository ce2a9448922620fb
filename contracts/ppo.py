"""P28: the surrogate optimised by PPO, A2C and PG updates, and the order of the steps of an update."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import *
from pyvc import npmodel

MF = "tianshou.policy.modelfree."
TRUST = ("Batch.split yields the rows in consecutive chunks of a (possibly shuffled) order, each row once (P17)",
         "loss.backward() computes the gradient of the loss it is called on; optim.step() applies it (torch)",
         "the policy network, the critic and the action distribution are functions of the observation rows they are given",
         "Batch fields are read and written by name (P18)")


class Learn(Contract):
    """the gradient steps of learn(): one per minibatch, on the documented loss of that minibatch, every repetition splitting all data once"""
    FAM = {"ppo": ("ppo", "PPOPolicy"), "a2c": ("a2c", "A2CPolicy"), "pg": ("pg", "PGPolicy")}
    which = "ppo"
    trusted = TRUST
    argorder = ("self", "batch", "batch_size", "repeat")
    stats = ()

    @property
    def overrides(self):
        m, cl = self.FAM[self.which]
        key = f"{MF}{m}:{cl}"
        ov = {MF + "pg:PGPolicy.forward": self.forward, MF + "a2c:A2CPolicy._compute_returns": self.compute,
              MF + "ppo:PPOTrainingStats.from_sequences": self.stat, MF + "a2c:A2CTrainingStats": self.stat, MF + "pg:PGTrainingStats": self.stat,
              "tianshou.data.stats:SequenceSummaryStats.from_sequence": self.stat}
        ov.update(CONV)
        return ov

    @property
    def externals(self):
        return {"torch.nn.utils.clip_grad_norm_": self.clip_grad, "torch.nn.functional.mse_loss": self.mse}

    @property
    def loops(self):
        return {0: Loop(lambda c, L: [("same-batch", z3.BoolVal(L.batch is self.batch))], setup=self.enter, step=self.rep_step, ghost=lambda c, L: {},
                        havoc={"batch": lambda c, L: self.batch}),
                1: Loop(lambda c, L: [("same-batch", z3.BoolVal(L.batch is self.batch))], step=self.mini_step, ghost=lambda c, L: {}, setup=self.mini_enter)}

    # ---- environment
    def stat(self, c, a, k):
        return Tens(c, "stats", [])

    def mse(self, c, a, k):
        x, y = a
        if [as_py(simp(I(s))) for s in x.shape] != [as_py(simp(I(s))) for s in y.shape] and not all(c._dim_eq(p, q) for p, q in zip(x.shape, y.shape)):
            raise Unsupported("mse_loss broadcasting")
        fx, fy = x.snap(), y.snap()
        return npmodel.agg(c, "mean", c.lam(x.shape, lambda *i: (R(fx(*i)) - R(fy(*i))) * (R(fx(*i)) - R(fy(*i))), "real"))

    def compute(self, c, a, k):
        vals = dict(zip(("self", "batch", "buffer", "indices"), a), **k)
        self.log.append(("returns", vals))
        return vals["batch"]

    def forward(self, c, a, k):
        b = a[1]
        lp = c.arr("logp", (b.n,) + self.lpw, kind="torch")
        ent = c.arr("entropy", (b.n,), kind="torch")
        act = b.fields["act"]

        def log_prob(cc, aa, kk):
            v = aa[0]
            same = isinstance(v, Arr) and v.dtype == act.dtype and z3.is_true(z3.simplify(R(v.f(z3.Int("?w"))) == R(act.f(z3.Int("?w")))))
            c.prove("log-probabilities-of-the-minibatch's-actions", z3.BoolVal(bool(same)), "pre")
            return lp
        d = Rec(c, "dist", {}, extra={"log_prob": Prim("log_prob", log_prob), "entropy": Prim("entropy", lambda cc, aa, kk: ent)})
        self.log.append(("forward", b, lp, ent))
        return Rec(c, "out", {"dist": d, "act": c.arr("newact", (b.n,), kind="torch"), "state": None, "logits": None})

    def run_critic(self, c, a, k):
        self.log.append(("critic", a[0]))
        return self.value

    def clip_grad(self, c, a, k):
        self.log.append(("clip", dict(zip(("parameters", "max_norm"), a), **k)))
        return 0.0

    def on_backward(self, c, loss):
        self.log.append(("backward", loss))
        m = self.batch.cur
        fw = [e for e in self.log[self.mark:] if e[0] == "forward"]
        c.prove("forward-once-on-the-minibatch", z3.BoolVal(len(fw) == 1 and fw[0][1] is m), "post")
        c.prove("loss-is-the-documented-one", R(loss) == R(self.want(c, m, fw[0][2].snap() if fw else None, fw[0][3] if fw else None)), "post")

    # ---- structure
    def params(self, c, case):
        mod, cl = self.FAM[self.which]
        m = Module.get(MF + mod)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs[cl])), "policy")
        self.log, self.mark = [], 0
        self.N = c.nat("rows")
        n = self.N
        ints = dict(obs=c.arr("obs", (n,), "int"), obs_next=c.arr("obs_next", (n,), "int"))
        flds = {k: c.arr(k, (n,), kind="torch") for k in ("act", "adv", "returns", "logp_old", "v_s")}
        self.lpw = ()
        self.batch = SplitBatch(c, "batch", {**ints, **flds}, n, self.log)
        self.opt = Rec(c, "optim", {}, extra={"zero_grad": Prim("zg", lambda cc, a, k: self.log.append(("zero_grad",))),
                                               "step": Prim("st", lambda cc, a, k: self.log.append(("step",)))})
        self.buffer, self.indices = Tens(c, "buffer"), Tens(c, "indices")
        self.critic = Fn(c, "critic", self.call_critic)
        acp = Tens(c, "actor_critic")
        o.fields.update(optim=self.opt, critic=self.critic, actor=Tens(c, "actor"), _actor_critic=acp, vf_coef=c.Real("vf"), ent_coef=c.Real("ent"), max_grad_norm=c.Real("mgn") if case != "nograd" else None,
                        eps_clip=c.Real("eps"), dual_clip=None, value_clip=False, norm_adv=False, recompute_adv=c.Bool("recompute"), _eps=1e-8,
                        _buffer=self.buffer, _indices=self.indices, gamma=c.Real("gamma"), gae_lambda=c.Real("lam"), max_batchsize=c.nat("mb"), rew_norm=c.Bool("rn"))
        self.o = o
        self.flags(c, o, case)
        self.bs = None if case == "nobatch" else c.nat("batch_size")
        self.rep = c.Int("repeat")
        return dict(self=o, batch=self.batch, batch_size=self.bs, repeat=self.rep)

    def call_critic(self, c, a, k):
        obs = a[0]
        V = c.arr("value", (obs.shape[0], 1), kind="torch")
        self.log.append(("critic", obs, V))
        return V

    def flags(self, c, o, case):
        pass

    def pre(self, c, a):
        return [("rows", self.N > 0), ("eps", a["self"].fields["eps_clip"] > 0)]

    def enter(self, c, L):
        c.prove("one-pass-per-repetition", I(L.n) == z3.If(I(self.rep) > 0, I(self.rep), 0), "post")
        c.prove("nothing-before-the-first-pass", z3.BoolVal(not self.log), "post")

    def mini_enter(self, c, L):
        self.mark = len(self.log)

    def rep_step(self, c, L):
        kinds = [e[0] for e in self.log]
        sp = [e[1] for e in self.log if e[0] == "split"]
        c.prove("data-split-exactly-once-per-pass", z3.BoolVal(len(sp) == 1), "post")
        if sp:
            want = I(self.bs) if self.bs is not None else z3.IntVal(-1)
            size = sp[0]["size"]
            c.prove("minibatch-size-as-requested", z3.BoolVal(False) if size is None else I(size) == (z3.If(want == 0, -1, want) if self.bs is not None else want), "post")
            c.prove("a-remainder-is-merged", z3.BoolVal(sp[0]["merge_last"] is True), "post")
        rest = [e for e in self.log if e[0] not in ("split", "returns")]
        c.prove("no-update-outside-a-minibatch", z3.BoolVal(not rest), "post")
        ret = [e[1] for e in self.log if e[0] == "returns"]
        want = z3.And(B(self.o.fields["recompute_adv"]), L.k > 0) if self.which == "ppo" else z3.BoolVal(False)
        c.prove("advantages-recomputed-exactly-when-requested-after-the-first-pass", z3.BoolVal(len(ret) == 1) == want if len(ret) < 2 else z3.BoolVal(False), "post")
        if ret:
            r = ret[0]
            c.prove("recomputed-from-the-sampled-data-before-the-split", z3.BoolVal(kinds and kinds[0] == "returns" and r["batch"] is self.batch and r["buffer"] is self.buffer and r["indices"] is self.indices), "post")
        self.log.clear()

    def mini_step(self, c, L):
        """after one minibatch: the sequence of optimiser events of this minibatch"""
        ev = [e for e in self.log[self.mark:]]
        names = [e[0] for e in ev if e[0] in ("zero_grad", "backward", "clip", "step")]
        mgn = self.o.fields["max_grad_norm"]
        on = z3.BoolVal(False) if mgn is None or self.which == "pg" else R(mgn) != 0
        full, short = ["zero_grad", "backward", "clip", "step"], ["zero_grad", "backward", "step"]
        c.prove("exactly-one-clean-gradient-step-per-minibatch", z3.Or(z3.And(on, z3.BoolVal(names == full)), z3.And(z3.Not(on), z3.BoolVal(names == short))), "post")
        for e in ev:
            if e[0] == "clip":
                c.prove("gradients-clipped-to-the-configured-norm", R(e[1].get("max_norm")) == R(mgn) if mgn is not None else z3.BoolVal(False), "post")
        m = self.batch.cur
        self.log[:] = self.log[:self.mark]

    def want(self, c, m, lp, ent):
        raise NotImplementedError

    def post(self, c, a, old, res):
        same = all(self.batch.fields[k] is v for k, v in self.fields0.items()) and len(self.fields0) == len(self.batch.fields)
        return [("old-log-probabilities-and-data-unchanged", z3.BoolVal(same))]

    def prepare(self, c, a):
        self.fields0 = dict(self.batch.fields)


class PPOLearn(Learn):
    """PPO.learn(): minus mean of min(ratio*A, clip(ratio)*A) (dual clip bound c*A exactly for negative A), value loss (maximum with the clipped error), total = actor + vf_coef*value - ent_coef*entropy; advantages standardised per minibatch on request"""
    target = MF + "ppo:PPOPolicy.learn"
    which = "ppo"
    cases = (("plain", 0, 0, 0), ("dual", 1, 0, 0), ("value", 0, 1, 0), ("norm", 0, 0, 1), ("all", 1, 1, 1), "nobatch", "nograd")

    def flags(self, c, o, case):
        if isinstance(case, tuple):
            o.fields["dual_clip"] = c.Real("dual") if case[1] else None
            o.fields["value_clip"], o.fields["norm_adv"] = bool(case[2]), bool(case[3])
        if o.fields["dual_clip"] is not None:
            c.assume(o.fields["dual_clip"] > 1)

    def want(self, c, m, lp, ent):
        f = self.o.fields
        b = m.n
        adv, lo, ret, vs = (m.fields[k].snap() for k in ("adv", "logp_old", "returns", "v_s"))
        eps = f["eps_clip"]
        if f["norm_adv"]:
            mean, std = npmodel.agg(c, "mean", m.fields["adv"]), npmodel.agg(c, "std", m.fields["adv"])
            A = lambda i: (R(adv(i)) - R(mean)) / (R(std) + R(1e-8))
        else:
            A = adv
        ratio = lambda i: EXPF(R(lp(i)) - R(lo(i)))

        def actor(i):
            r = ratio(i)
            cl = z3.If(r < 1 - eps, 1 - eps, z3.If(r > 1 + eps, 1 + eps, r))
            s1, s2 = r * A(i), cl * A(i)
            mn = z3.If(s1 <= s2, s1, s2)
            if f["dual_clip"] is not None:
                d = f["dual_clip"] * A(i)
                mn = z3.If(A(i) < 0, z3.If(mn >= d, mn, d), mn)
            return mn
        ev = [e for e in self.log[self.mark:] if e[0] == "critic"]
        c.prove("value-of-the-minibatch's-observations", z3.BoolVal(len(ev) == 1 and ev[0][1] is m.fields["obs"]), "post")
        V = ev[0][2].snap()

        def vloss(i):
            v = V(i, 0)
            e1 = (ret(i) - v) * (ret(i) - v)
            if not f["value_clip"]:
                return e1
            d = v - vs(i)
            vc = vs(i) + z3.If(d < -eps, -eps, z3.If(d > eps, eps, d))
            e2 = (ret(i) - vc) * (ret(i) - vc)
            return z3.If(e1 >= e2, e1, e2)
        agg = lambda fn: R(npmodel.agg(c, "mean", c.lam((b,), fn, "real")))
        return -agg(actor) + f["vf_coef"] * agg(vloss) - f["ent_coef"] * R(npmodel.agg(c, "mean", ent))


class A2CLearn(Learn):
    """A2C.learn(): minus mean of log-probability times advantage, mean squared value error, entropy bonus; one step per minibatch"""
    target = MF + "a2c:A2CPolicy.learn"
    which = "a2c"
    cases = (None, "nobatch", "nograd")

    def want(self, c, m, lp, ent):
        f = self.o.fields
        adv, ret = m.fields["adv"].snap(), m.fields["returns"].snap()
        ev = [e for e in self.log[self.mark:] if e[0] == "critic"]
        c.prove("value-of-the-minibatch's-observations", z3.BoolVal(len(ev) == 1 and ev[0][1] is m.fields["obs"]), "post")
        V = ev[0][2].snap()
        agg = lambda fn: R(npmodel.agg(c, "mean", c.lam((m.n,), fn, "real")))
        return -agg(lambda i: lp(i) * adv(i)) + f["vf_coef"] * agg(lambda i: (ret(i) - V(i, 0)) * (ret(i) - V(i, 0))) - f["ent_coef"] * R(npmodel.agg(c, "mean", ent))


class PGLearn(Learn):
    """PG.learn(): minus mean of log-probability times return; one step per minibatch"""
    target = MF + "pg:PGPolicy.learn"
    which = "pg"
    cases = (None, "nobatch")

    def want(self, c, m, lp, ent):
        ret = m.fields["returns"].snap()
        return -R(npmodel.agg(c, "mean", c.lam((m.n,), lambda i: lp(i) * ret(i), "real")))


class Process(Contract):
    """A2C._compute_returns / PPO.process_fn: row-wise values and old log-probabilities over all rows in order, whatever the chunk size"""
    trusted = TRUST + ("network forward passes treat rows independently (no batch statistics)",)
    argorder = ("self", "batch", "buffer", "indices")

    def params(self, c, case):
        m = Module.get(MF + "ppo")
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["PPOPolicy"])), "policy")
        self.log = []
        self.N = n = c.nat("rows")
        flds = dict(obs=c.arr("obs", (n,), "int"), obs_next=c.arr("obs_next", (n,), "int"), act=c.arr("act", (n,), kind="torch"))
        self.extra_fields(c, flds)
        self.batch = SplitBatch(c, "batch", flds, n, self.log)
        self.V, self.LP = z3.Function("V", z3.IntSort(), z3.RealSort()), z3.Function("LP", z3.IntSort(), z3.RealSort(), z3.RealSort())
        V = self.V
        self.rms = Rec(c, "ret_rms", {"mean": c.Real("rms_mean"), "var": c.Real("rms_var")}, extra={"update": Prim("update", self.update)})

        def critic(cc, a, k):
            f = a[0].snap()
            return cc.lam((a[0].shape[0], 1), lambda i, j: V(f(i)), "real", "torch")
        o.fields.update(critic=Fn(c, "critic", critic), max_batchsize=c.nat("mb"), rew_norm=case == "norm", gamma=c.Real("gamma"), gae_lambda=c.Real("lam"), ret_rms=self.rms, _eps=1e-8,
                        recompute_adv=c.Bool("recompute"), _buffer=None, _indices=None)
        self.buffer, self.indices = Tens(c, "buffer"), Tens(c, "indices")
        self.o = o
        return dict(self=o, batch=self.batch, buffer=self.buffer, indices=self.indices)

    def extra_fields(self, c, flds):
        pass

    def pre(self, c, a):
        return [("rows", self.N > 0), ("mb", a["self"].fields["max_batchsize"] > 0), ("var", self.rms.fields["var"] >= 0)]

    def prepare(self, c, a):
        self.var0, self.mean0 = self.rms.fields["var"], self.rms.fields["mean"]
        self.f0 = {k: v.snap() for k, v in self.batch.fields.items()}

    def update(self, c, a, k):
        self.log.append(("update", a[0]))
        self.rms.fields.update(mean=c.Real("new_mean"), var=c.Real("new_var"))

    def havoc_list(self, c, lst):
        w = self.width(c)
        ragged_havoc(c, lst, w)
        return True

    def cat_ragged(self, c, lst):
        return ragged_cat(c, lst, self.batch.splits[-1]["chunks"])

    def lists_inv(self, c, L, pairs, width):
        ch = self.batch.splits[-1]["chunks"]
        out = []
        for nm, lst, fn in pairs:
            m, i = z3.Int(c.fresh_name("?m")), z3.Int(c.fresh_name("?i"))
            out.append((nm + "-length", I(lst.n) == L.k))
            if lst.concrete:
                continue
            e = lst.f_(m)
            idx = (i, 0) if width else (i,)
            out.append((nm + "-shapes", z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < L.k), I(e.shape[0]) == ch.rows(m)))))
            out.append((nm + "-rows", z3.ForAll([m, i], z3.Implies(z3.And(m >= 0, m < L.k, i >= 0, i < ch.rows(m)), e.f(*idx) == fn(ch.off(m) + i)))))
        return out

    def split_ok(self, c):
        sp = self.batch.splits
        return z3.BoolVal(len(sp) == 1 and sp[0]["shuffle"] is False)


class ComputeReturns(Process):
    """A2C._compute_returns: V(s) and V(s') of every row in order go to the GAE routine (unnormalised with the current statistics when requested), and returns and advantages come back row by row"""
    target = MF + "a2c:A2CPolicy._compute_returns"
    cases = (None, "norm")

    @property
    def overrides(self):
        ov = {"tianshou.policy.base:BasePolicy.compute_episodic_return": self.gae}
        ov.update(CONV)
        return ov

    @property
    def loops(self):
        return {0: Loop(lambda c, L: self.lists_inv(c, L, [("v", L.v_s, lambda j: self.V(self.f0["obs"](j))), ("v-next", L.v_s_, lambda j: self.V(self.f0["obs_next"](j)))], True))}

    def width(self, c):
        return (1,)

    def gae(self, c, a, k):
        vals = dict(zip(("batch", "buffer", "indices", "v_s_", "v_s"), a if not isinstance(a[0], (Obj, ClassV)) else a[1:]), **k)
        self.log.append(("gae", vals))
        s = SQRTF(R(self.var0) + R(1e-8)) if c.case == "norm" else R(1)
        c.prove("on-the-sampled-data", z3.BoolVal(vals["batch"] is self.batch and vals["buffer"] is self.buffer and vals["indices"] is self.indices), "pre")
        for nm, f in (("v_s", "obs"), ("v_s_", "obs_next")):
            v = vals.get(nm)
            if not isinstance(v, Arr):
                c.prove("values-passed-" + nm, z3.BoolVal(False), "pre")
                continue
            fn = v.snap()
            c.prove("values-in-row-order-" + nm, z3.And(I(v.shape[0]) == self.N, c.forall(lambda j: R(fn(j)) == self.V(self.f0[f](j)) * s, 0, self.N)), "pre")
        c.prove("configured-discounting", z3.And(R(vals.get("gamma")) == a0(self, "gamma"), R(vals.get("gae_lambda")) == a0(self, "gae_lambda")), "pre")
        self.ret, self.adv = c.arr("ret", (self.N,)), c.arr("advs", (self.N,))
        return (self.ret, self.adv)

    def post(self, c, a, old, res):
        f = self.batch.fields
        s = SQRTF(R(self.var0) + R(1e-8)) if c.case == "norm" else R(1)
        ups = [e for e in self.log if e[0] == "update"]
        g = [e for e in self.log if e[0] == "gae"]
        out = [("the-batch-itself-is-returned", z3.BoolVal(res is self.batch)), ("one-unshuffled-pass", self.split_ok(c)), ("returns-computed-once", z3.BoolVal(len(g) == 1)),
               ("statistics-updated-exactly-when-normalising", z3.BoolVal(len(ups) == (1 if c.case == "norm" else 0)))]
        if len(g) == 1:
            for nm, fn in (("v_s", lambda j: self.V(self.f0["obs"](j))), ("returns", (lambda j: self.ret.f(j) / s) if c.case == "norm" else (lambda j: self.ret.f(j))), ("adv", lambda j: self.adv.f(j))):
                v = f.get(nm)
                out.append((nm + "-per-row", z3.And(I(v.shape[0]) == self.N, c.forall(lambda j: R(v.f(j)) == fn(j), 0, self.N)) if isinstance(v, Arr) else z3.BoolVal(False)))
            if ups:
                u = ups[0][1]
                out.append(("statistics-fed-the-unnormalised-returns", c.forall(lambda j: R(u.f(j)) == self.ret.f(j), 0, self.N) if isinstance(u, Arr) else z3.BoolVal(False)))
        for k, fn in self.f0.items():
            v = f.get(k)
            out.append(("field-kept-" + k, c.forall(lambda j: v.f(j) == fn(j), 0, self.N) if isinstance(v, Arr) else z3.BoolVal(False)))
        return out


def a0(con, n):
    return R(con.o.fields[n])


class PPOProcess(Process):
    """PPO.process_fn: old log-probabilities of every row's stored action, in row order, are attached before learning; buffer and indices are kept for recomputation when requested"""
    target = MF + "ppo:PPOPolicy.process_fn"
    cases = (None,)

    @property
    def overrides(self):
        def compute(c, a, k):
            vals = dict(zip(("self", "batch", "buffer", "indices"), a), **k)
            self.log.append(("returns", vals))
            n = self.N
            vals["batch"].fields.update({x: c.arr(x, (n,), kind="torch") for x in ("v_s", "returns", "adv")})
            return vals["batch"]

        def forward(c, a, k):
            b = a[1]
            obs = b.fields["obs"].snap()

            def log_prob(cc, aa, kk):
                x = aa[0].snap()
                return cc.lam((aa[0].shape[0],), lambda i: self.LP(obs(i), R(x(i))), "real", "torch")
            return Rec(c, "out", {"dist": Rec(c, "dist", {}, extra={"log_prob": Prim("log_prob", log_prob)})})
        ov = {MF + "a2c:A2CPolicy._compute_returns": compute, MF + "pg:PGPolicy.forward": forward}
        ov.update(CONV)
        return ov

    @property
    def loops(self):
        return {0: Loop(lambda c, L: self.lists_inv(c, L, [("logp", L.logp_old, lambda j: self.LP(self.f0["obs"](j), R(self.f0["act"](j))))], False))}

    def width(self, c):
        return ()

    def post(self, c, a, old, res):
        f = self.batch.fields
        o = a["self"].fields
        r = [e[1] for e in self.log if e[0] == "returns"]
        lp = f.get("logp_old")
        kept = z3.BoolVal(o["_buffer"] is self.buffer and o["_indices"] is self.indices)
        return [("the-batch-itself-is-returned", z3.BoolVal(res is self.batch)), ("one-unshuffled-pass", self.split_ok(c)),
                ("returns-computed-once-on-the-sampled-data", z3.BoolVal(len(r) == 1 and r[0]["batch"] is self.batch and r[0]["buffer"] is self.buffer and r[0]["indices"] is self.indices)),
                ("kept-for-recomputation-when-requested", z3.Implies(B(o["recompute_adv"]), kept)),
                ("old-log-probability-per-row", z3.And(I(lp.shape[0]) == self.N, c.forall(lambda j: R(lp.f(j)) == self.LP(self.f0["obs"](j), R(self.f0["act"](j))), 0, self.N)) if isinstance(lp, Arr) and len(lp.shape) == 1 else z3.BoolVal(False))]


PROOFS = {"P28": [PPOLearn, A2CLearn, PGLearn, ComputeReturns, PPOProcess]}
