"""P22: contracts on the trainers: first-maximum bookkeeping over the whole history of tests, stopping, and the counters."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import Rec, Fn

TB = "tianshou.trainer.base"
TU = "tianshou.trainer.utils"
SEQ = "tianshou.data.stats:SequenceSummaryStats.from_sequence"
FROM_SEQ = "tianshou.data.stats:SequenceSummaryStats.from_sequence"
TRUST_COLLECT = ("the collectors' collect/reset (P21), the policy's update (P16), the logger's write methods (P26), the user's hooks (save_best_fn, "
                 "test_fn, train_fn, stop_fn, compute_score_fn, reward_metric) and tqdm are recorded calls; stop_fn is a predicate of the reward; "
                 "numbers are mathematical reals (no NaN)")
ACC = z3.Function("stop_accepts", z3.RealSort(), z3.BoolSort())


class Tally(Rec):
    """ghost record whose numbers may change in loops"""
    def m_havoc(self, c):
        for k, v in self.fields.items():
            if is_int(v) or is_real(v) or is_bool(v):
                self.fields[k] = c.it.fresh_like(v, k)


class Hist(Model):
    """ghost: the scores, epochs, rewards and spreads of the n tests counted so far, and the index of the first highest score"""
    pytype = ()

    def __init__(self, c, n=None):
        self.fresh(c, n)
        c.reg(self, "history")

    def fresh(self, c, n=None):
        self.n = c.nat("tests") if n is None else n
        self.b = c.Int("best")
        self.S, self.R, self.D = (c.arr(x, (self.n,)).snap() for x in ("score", "reward", "std"))
        self.E = c.arr("epoch", (self.n,), "int").snap()

    def m_snap(self, memo):
        r = object.__new__(Hist)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        return r

    def m_havoc(self, c):
        self.fresh(c)

    def plus(self, score, epoch, rew, std, best):
        """the history with one more test; the new best index as the statement says (strictly higher replaces)"""
        r = object.__new__(Hist)
        n = self.n
        ext = lambda f, v: (lambda i: z3.If(I(i) == n, v, f(i)))
        r.n, r.b = n + 1, z3.If(R(best) < R(score), n, self.b)
        r.S, r.E, r.R, r.D = ext(self.S, R(score)), ext(self.E, I(epoch)), ext(self.R, R(rew)), ext(self.D, R(std))
        return r

    def best(self, c, t):
        f = t.fields
        return [("a-test-was-counted", z3.And(0 <= self.b, self.b < self.n)),
                ("best-score-is-that-of-the-best-test", R(f["best_score"]) == self.S(self.b)),
                ("best-epoch-is-that-of-the-best-test", I(f["best_epoch"]) == self.E(self.b)),
                ("best-reward-is-that-of-the-best-test", z3.And(R(f["best_reward"]) == self.R(self.b), R(f["best_reward_std"]) == self.D(self.b))),
                ("no-test-scored-higher", c.forall(lambda j: self.S(j) <= self.S(self.b), 0, self.n)),
                ("no-earlier-test-scored-as-high", c.forall(lambda j: self.S(j) < self.S(self.b), 0, self.b)),
                ("epochs-are-not-negative", c.forall(lambda j: self.E(j) >= 0, 0, self.n))]


def named(args, kw, *names):
    """arguments by name, however they were passed"""
    return {**dict(zip(names, args)), **kw}


def stats(c, name, extra=None):
    f = dict(n_collected_steps=c.nat(name + "_steps"), n_collected_episodes=c.nat(name + "_eps"), returns=Opaque("returns"),
             returns_stat=Rec(c, name + "_rstat", dict(mean=c.Real(name + "_mean"), std=c.Real(name + "_std"))),
             lens_stat=Rec(c, name + "_lstat", dict(mean=c.Real(name + "_len"))))
    f.update(extra or {})
    return Rec(c, name, f, pytype=("CollectStats", "CollectStatsBase"))


class TestEpisode(Contract):
    """a test: collector reset (statistics kept), then the test hook, then exactly n_episode episodes collected once, the metric applied to their
    returns, and the result logged at the given step and returned"""
    target = TU + ":test_episode"
    cases = tuple((h, m, l) for h in (False, True) for m in (False, True) for l in (False, True))
    trusted = (TRUST_COLLECT,)

    @property
    def overrides(self):
        return {FROM_SEQ: self.from_seq}

    @property
    def externals(self):
        return {"dataclasses.asdict": lambda c, a, k: PDict({"of": a[0], "returns": a[0].fields["returns"]})}

    def from_seq(self, c, a, k):
        x = a[-1]
        r = Rec(c, "summary", dict(of=x, mean=c.Real("sm"), std=c.Real("ss")))
        return r

    def params(self, c, case):
        hook, metric, log = case
        ev = c.events
        self.res = stats(c, "test")
        self.metric_res = Opaque("metric-of-returns")
        self.raw = self.res.fields["returns"]

        def collect(cc, a, k):
            ev.append(("collect", list(a), dict(k)))
            cc.assume(I(self.res.fields["n_collected_episodes"]) >= I(k.get("n_episode", 0)))
            return self.res
        coll = Rec(c, "collector", dict(reset=Fn(c, "reset", lambda cc, a, k: ev.append(("reset", list(a), dict(k)))), collect=Fn(c, "collect", collect)))

        def met(cc, a, k):
            ev.append(("metric", list(a), dict(k)))
            return self.metric_res
        lg = Rec(c, "logger", dict(log_test_data=Fn(c, "log", lambda cc, a, k: ev.append(("log", list(a), dict(k))))))
        self.n = c.nat("n_ep")
        c.assume(self.n >= 1)
        return dict(collector=coll, test_fn=Fn(c, "hook", lambda cc, a, k: ev.append(("hook", list(a), dict(k)))) if hook else None, epoch=c.Int("epoch"),
                    n_episode=self.n, logger=lg if log else None, global_step=c.Int("gs"), reward_metric=Fn(c, "metric", met) if metric else None)

    def post(self, c, a, old, res):
        hook, metric, log = c.case
        ev = c.events
        want = ["reset"] + (["hook"] if hook else []) + ["collect"] + (["metric"] if metric else []) + (["log"] if log else [])
        out = [("reset-hook-collect-metric-log-once-each-in-order", z3.BoolVal([e[0] for e in ev] == want)),
               ("result-of-the-collection-returned", z3.BoolVal(res is self.res))]
        for nm, ar, kw in ev:
            if nm == "reset":
                out.append(("collection-statistics-kept", z3.BoolVal(named(ar, kw, "reset_env", "reset_buffer", "reset_stats").get("reset_stats") is False)))
            elif nm == "hook":
                out.append(("hook-gets-epoch-and-step", z3.And(z3.BoolVal(len(ar) == 2), I(ar[0]) == a["epoch"], I(ar[1]) == a["global_step"])))
            elif nm == "collect":
                out.append(("exactly-the-episodes-asked-for", z3.And(z3.BoolVal(named(ar, kw, "n_step", "n_episode").get("n_step") is None),
                                                                       I(named(ar, kw, "n_step", "n_episode").get("n_episode", -1)) == a["n_episode"])))
            elif nm == "metric":
                f = res.fields
                out.append(("metric-of-the-returns-replaces-them", z3.BoolVal(ar == [self.raw] and f["returns"] is self.metric_res and
                                                                             f["returns_stat"].fields.get("of") is self.metric_res)))
            elif nm == "log":
                out.append(("logged-at-the-step", z3.And(z3.BoolVal(isinstance(ar[0], PDict) and ar[0].d["of"] is res and ar[0].d["returns"] is res.fields["returns"]),
                                                         I(ar[1]) == a["global_step"])))
        return out

    def apply(self, c, a):
        r = stats(c, "test")
        c.assume(I(r.fields["n_collected_episodes"]) >= 1)
        c.events.append(("test", dict(a), r, c.ghost.get("within")))
        return r


class TrainerC(Contract):
    trusted = (TRUST_COLLECT,)
    module, cls = TB, "BaseTrainer"
    CLASSES = ("BaseTrainer", "OfflineTrainer", "OffpolicyTrainer", "OnpolicyTrainer")

    @property
    def externals(self):
        def partial(c, a, k):
            return Fn(c, "pbar", lambda cc, aa, kk: aa[0] if aa else Progress(cc))

        def asdict(c, a, k):
            return PDict({"of": a[0]})
        return {"functools.partial": partial, "dataclasses.asdict": asdict, "builtins.print": lambda c, a, k: None, "time.time": lambda c, a, k: c.Real("now"),
                "logging.getLogger": lambda c, a, k: Rec(c, "log", {n: Fn(c, n, lambda cc, aa, kk: None) for n in ("info", "warning", "debug")})}

    @property
    def overrides(self):
        return {FROM_SEQ: lambda c, a, k: Rec(c, "summary", dict(of=a[-1], mean=c.Real("sm"), std=c.Real("ss"))), **self.more(), }

    def more(self):
        return {}

    def trainer(self, c, save=False, stop=None, train=True, test=True, buffer=False, metric=False, score=None, cls=None):
        m = Module.get(TB)
        t = c.reg(Obj(c.it.ver.get_class(m, m.defs[cls or self.cls])), "trainer")
        ev = c.events
        self.t = t
        within = c.Bool("within")
        upd = self.updates = Tally(c, "updates", dict(n=c.nat("updates")))

        def update(cc, a, k):
            ev.append(("update", list(a), dict(k)))
            upd.m_setattr(cc, "n", I(upd.fields["n"]) + 1)
            self.on_update(cc, a, k)
            self.ustats = Rec(cc, "ustats", dict(train_time=cc.Real("tt"), smoothed_loss=PDict({}), get_loss_stats_dict=Fn(cc, "losses", lambda c3, a3, k3: PDict({"loss": c3.Real("loss")}))))
            return self.ustats
        self.policy = Tally(c, "policy", dict(is_within_training_step=within, update=Fn(c, "update", update)))

        def save_fn(cc, a, k):
            f = t.fields
            ev.append(("save", list(a), {x: f[x] for x in ("best_score", "best_reward", "best_epoch")}))

        def score_fn(cc, a, k):
            r = cc.Real("score")
            ev.append(("score", a[0], r))
            return r
        logger = Rec(c, "logger", {n: Fn(c, n, lambda cc, a, k, n=n: ev.append((n, list(a), dict(k)))) for n in
                                   ("log_train_data", "log_test_data", "log_update_data", "log_info_data", "save_data")})
        self.train = train
        mk = lambda nm: Rec(c, nm, dict(reset=Fn(c, nm + ".reset", lambda cc, a, k: ev.append((nm + ".reset", list(a), dict(k)))), policy=self.policy,
                                        collect=Fn(c, nm + ".collect", lambda cc, a, k: self.on_collect(cc, nm, a, k)), buffer=self.mk_buffer(c, nm + "_buffer"),
                                        reset_buffer=Fn(c, nm + ".reset_buffer", lambda cc, a, k: ev.append((nm + ".reset_buffer", list(a), dict(k)))),
                                        collect_time=c.Real("ct"), collect_step=c.nat("cs"), collect_episode=c.nat("ce")), pytype=("Collector",))
        c.case_args = {"self": t}
        H = self.H = Hist(c)
        t.fields.update(policy=self.policy, train_collector=mk("train") if train else None, test_collector=mk("test") if test else None,
                        buffer=self.mk_buffer(c, "given_buffer") if buffer else None, logger=logger, best_score=c.Real("bs"), best_reward=c.Real("br"),
                        best_reward_std=c.Real("bd"), best_epoch=c.Int("be"), start_epoch=c.nat("start"), epoch=c.nat("epoch"), iter_num=c.nat("iter"),
                        _gradient_step=c.nat("gs"), env_step=c.nat("env_step"), env_episode=c.nat("env_eps"), policy_update_time=c.Real("put"),
                        max_epoch=c.nat("max_epoch"), step_per_epoch=c.nat("spe"), step_per_collect=c.Int("spc"), episode_per_collect=None, update_per_step=c.Real("ups"),
                        repeat_per_collect=c.Int("rpc"), episode_per_test=c.nat("ept"), batch_size=c.nat("bsz"), start_time=c.Real("st"),
                        train_fn=Fn(c, "train_fn", lambda cc, a, k: ev.append(("train_fn", list(a), dict(k)))), test_fn=Fn(c, "test_fn", lambda cc, a, k: None),
                        stop_fn=Fn(c, "stop", lambda cc, a, k: self.stop(cc, a)) if stop else None,
                        compute_score_fn=Fn(c, "score_fn", score_fn), save_best_fn=Fn(c, "save_fn", save_fn) if save else None,
                        save_checkpoint_fn=Opaque("ckpt"), resume_from_log=False, reward_metric=Fn(c, "metric", lambda cc, a, k: Opaque("metric")) if metric else None,
                        verbose=False, show_progress=False, test_in_train=c.Bool("tit"), is_run=c.Bool("run"), last_rew=c.Real("lr"), last_len=c.Real("ll"),
                        stop_fn_flag=c.Bool("sff"), stat=Opaque("stat"), _H=H)
        c.assume(t.fields["episode_per_test"] >= 1, t.fields["step_per_epoch"] >= 1)
        return t

    def stop(self, c, a):
        c.events.append(("stop", a[0]))
        return ACC(R(a[0]))

    def mk_buffer(self, c, nm):
        n = c.nat(nm + "_len")
        c.assume(n >= 1)
        return Rec(c, nm, dict(hasnull=Fn(c, "hasnull", lambda cc, a, k: self.hasnull)), n=n, pytype=("ReplayBuffer",))
    hasnull = False

    def on_update(self, c, a, k):
        pass

    def on_collect(self, c, nm, a, k):
        raise Unsupported("collect")

    def counters(self, a, old, but=()):
        f, o = a["self"].fields, old["self"].fields
        out = []
        for x in ("env_step", "env_episode", "_gradient_step", "epoch", "iter_num"):
            if x not in but:
                out.append((f"{x}-untouched", I(f[x]) == I(o[x])))
        return out

    def tested(self, c, e, a, extra=True):
        """one test event ran with the trainer's settings"""
        f = a["self"].fields
        k = e[1]
        same = all(k.get(x) is f[y] for x, y in (("collector", "test_collector"), ("test_fn", "test_fn"), ("logger", "logger"), ("reward_metric", "reward_metric")))
        return [("test-uses-the-test-collector-hook-logger-metric", z3.BoolVal(same)), ("test-reports-the-epoch", I(k["epoch"]) == I(f["epoch"])),
                ("test-runs-the-configured-number-of-episodes", I(k["n_episode"]) == I(f["episode_per_test"])),
                ("test-logged-at-the-environment-step", I(k["global_step"]) == I(f["env_step"]))]

    def scored(self, c, ev, res):
        sc = [e for e in ev if e[0] == "score"]
        return len(sc) >= 1 and all(e[1] is res for e in sc), (sc[0][2] if sc else None)

    def saved(self, c, ev, improved, t):
        sv = [e for e in ev if e[0] == "save"]
        f = t.fields
        out = [("save-best-hook-exactly-on-improvement", z3.And(z3.BoolVal(len(sv) <= 1), B(improved) == z3.BoolVal(len(sv) == 1)))] if f["save_best_fn"] is not None else []
        for e in sv:
            out.append(("save-best-hook-gets-the-policy", z3.BoolVal(len(e[1]) == 1 and e[1][0] is f["policy"])))
            out.append(("save-best-hook-after-the-update-of-the-best", z3.And(R(e[2]["best_score"]) == R(f["best_score"]), R(e[2]["best_reward"]) == R(f["best_reward"]),
                                                                              I(e[2]["best_epoch"]) == I(f["best_epoch"]))))
        return out


class Progress(Rec):
    def __init__(self, c):
        super().__init__(c, "progress", dict(update=Fn(c, "update", lambda cc, a, k: None), set_postfix=Fn(c, "set_postfix", lambda cc, a, k: None)))

    def m_with(self, c, run_body):
        run_body(self)


class TestStep(TrainerC):
    """after an epoch: one test; the best epoch/score/reward are those of the first test with the highest score so far, the save hook runs exactly on strict
    improvement, and the flag is set exactly when the stop condition accepts the best reward"""
    target = TB + ":BaseTrainer.test_step"
    cases = tuple((s, p) for s in (False, True) for p in (False, True))
    uses = (TestEpisode,)

    def params(self, c, case):
        return dict(self=self.trainer(c, save=case[0], stop=case[1]))

    def pre(self, c, a):
        t = a["self"]
        return t.fields["_H"].best(c, t) + [("epoch-not-negative", I(t.fields["epoch"]) >= 0)]

    def post(self, c, a, old, res):
        t, f, o = a["self"], a["self"].fields, old["self"].fields
        ev = c.events
        te = [e for e in ev if e[0] == "test"]
        out = [("exactly-one-test", z3.BoolVal(len(te) == 1))]
        if len(te) != 1:
            return out
        out += self.tested(c, te[0], a)
        st = te[0][2]
        ok, score = self.scored(c, ev, st)
        out.append(("score-is-that-of-this-test", z3.BoolVal(ok)))
        if not ok:
            return out
        mean, std = st.fields["returns_stat"].fields["mean"], st.fields["returns_stat"].fields["std"]
        out += old["self"].fields["_H"].plus(score, f["epoch"], mean, std, o["best_score"]).best(c, t)
        out += self.saved(c, ev, R(o["best_score"]) < R(score), t)
        stat, flag = res
        out.append(("statistics-of-the-test-returned", z3.BoolVal(stat is st)))
        out.append(("stops-exactly-when-the-condition-accepts-the-best-reward", B(flag) == (ACC(R(f["best_reward"])) if c.case[1] else z3.BoolVal(False))))
        return out + self.counters(a, old)

    def apply(self, c, a):
        t = a["self"]
        for nm, g in self.pre(c, a):
            c.prove(f"call:test_step:pre:{nm}", g, "pre")
        o = dict(t.fields)
        H, st, score, rew, std = t.fields["_H"], stats(c, "test"), c.Real("score"), c.Real("rew"), c.Real("std")
        for x in ("best_score", "best_reward", "best_reward_std", "best_epoch"):
            c.set_field(t, x, c.it.fresh_like(o[x], x))
        H2 = H.plus(score, o["epoch"], rew, std, o["best_score"])
        for nm, g in H2.best(c, t):
            c.assume(g)
        H2.label = None
        c.reg(H2, "history")
        c.set_field(t, "_H", H2)
        c.events.append(("test_step", st, score))
        flag = ACC(R(t.fields["best_reward"])) if t.fields["stop_fn"] is not None else False
        return (st, flag)


class UpdateBest(TrainerC):
    """during training: a test is run exactly when episodes finished, testing in training is on and the stop condition accepts the training reward; training
    stops exactly when it accepts the test reward too, and then (only) that test counts for the best; the policy is outside its training step meanwhile"""
    target = TB + ":BaseTrainer._update_best_reward_and_return_should_stop_training"
    cases = tuple((s, p) for s in (False, True) for p in (False, True))

    @property
    def uses(self):
        class T(TestEpisode):
            def apply(s2, c, a):
                c.prove("policy-outside-its-training-step-while-testing", z3.Not(B(self.policy.fields["is_within_training_step"])))
                return TestEpisode.apply(s2, c, a)
        return (T,)

    def params(self, c, case):
        t = self.trainer(c, save=case[0], stop=case[1])
        return dict(self=t, collect_stats=stats(c, "collected"))

    def pre(self, c, a):
        t = a["self"]
        return t.fields["_H"].best(c, t) + [("epoch-not-negative", I(t.fields["epoch"]) >= 0)]

    def facts(self, c, t, o, flag, tested, score, rew, std):
        """the history after: extended by the test exactly when it was accepted"""
        H = o["_H"]
        Hp = H.plus(score, t.fields["epoch"], rew, std, o["best_score"])
        return Hp

    def post(self, c, a, old, res):
        t, f, o = a["self"], a["self"].fields, old["self"].fields
        ev, cs = c.events, a["collect_stats"].fields
        te = [e for e in ev if e[0] == "test"]
        want = z3.And(I(cs["n_collected_episodes"]) > 0, B(f["test_in_train"]), ACC(R(cs["returns_stat"].fields["mean"]))) if c.case[1] else z3.BoolVal(False)
        out = [("tests-exactly-when-the-training-reward-is-accepted", z3.And(z3.BoolVal(len(te) <= 1), want == z3.BoolVal(len(te) == 1)))]
        out += self.counters(a, old)
        out += [("training-step-flag-restored", B(self.policy.fields["is_within_training_step"]) == B(o["policy"].fields["is_within_training_step"])),
                ("test-in-train-untouched", B(f["test_in_train"]) == B(o["test_in_train"]))]
        same = z3.And(*[R(f[x]) == R(o[x]) for x in ("best_score", "best_reward", "best_reward_std")], I(f["best_epoch"]) == I(o["best_epoch"]))
        if len(te) != 1:
            return out + [("no-stop-without-a-test", z3.Not(B(res))), ("best-unchanged-without-a-test", same), ("nothing-saved", z3.BoolVal(not [e for e in ev if e[0] == "save"]))]
        out += self.tested(c, te[0], a)
        st = te[0][2]
        mean, std = st.fields["returns_stat"].fields["mean"], st.fields["returns_stat"].fields["std"]
        acc = ACC(R(mean))
        out.append(("stops-exactly-when-the-test-reward-is-accepted-too", B(res) == acc))
        ok, score = self.scored(c, ev, st)
        if score is None:
            return out + [("best-unchanged-by-a-test-that-is-not-accepted", z3.And(same, z3.Not(acc))), ("nothing-saved", z3.BoolVal(not [e for e in ev if e[0] == "save"]))]
        out.append(("score-is-that-of-this-test", z3.BoolVal(ok)))
        for nm, g in old["self"].fields["_H"].plus(score, f["epoch"], mean, std, o["best_score"]).best(c, t):
            out.append((nm, z3.Implies(acc, g)))
        out.append(("best-unchanged-by-a-test-that-is-not-accepted", z3.Implies(z3.Not(acc), same)))
        out += self.saved(c, ev, z3.And(acc, R(o["best_score"]) < R(score)), t)
        return out

    def apply(self, c, a):
        t = a["self"]
        for nm, g in self.pre(c, a):
            c.prove(f"call:update_best:pre:{nm}", g, "pre")
        flag = c.Bool("stop_in_train")
        if t.fields["stop_fn"] is None:
            c.assume(z3.Not(flag))
        o = dict(t.fields)
        if c.branch(flag):
            score, rew, std = c.Real("score"), c.Real("rew"), c.Real("std")
            for x in ("best_score", "best_reward", "best_reward_std", "best_epoch"):
                c.set_field(t, x, c.it.fresh_like(o[x], x))
            H2 = o["_H"].plus(score, o["epoch"], rew, std, o["best_score"])
            for nm, g in H2.best(c, t):
                c.assume(g)
            H2.label = None
            c.reg(H2, "history")
            c.set_field(t, "_H", H2)
        c.events.append(("update_best", a["collect_stats"], flag))
        return flag


class Collect(TrainerC):
    """one collection with the configured amounts (train hook first); both counters grow by exactly what was collected; data with NaNs is refused"""
    target = TB + ":BaseTrainer._collect_training_data"
    cases = (False, True)

    def params(self, c, case):
        self.hasnull = c.Bool("hasnull")
        return dict(self=self.trainer(c, metric=case))

    def on_collect(self, c, nm, a, k):
        r = stats(c, "collected")
        self.got = r
        c.events.append(("collect", nm, list(a), dict(k), r))
        return r

    def raises(self, c, a, old):
        return [("MalformedBufferError", self.hasnull)]

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        ev = c.events
        co = [e for e in ev if e[0] == "collect"]
        out = [("exactly-one-collection", z3.BoolVal(len(co) == 1 and co[0][1] == "train"))]
        if len(co) != 1:
            return out
        k = named(co[0][2], co[0][3], "n_step", "n_episode")
        out += [("configured-amounts", z3.And(z3.BoolVal(k.get("n_episode", 0) is f["episode_per_collect"]), I(k.get("n_step", -7)) == I(f["step_per_collect"]))),
                ("statistics-of-the-collection-returned", z3.BoolVal(res is co[0][4])),
                ("steps-counted", I(f["env_step"]) == I(o["env_step"]) + I(res.fields["n_collected_steps"])),
                ("episodes-counted", I(f["env_episode"]) == I(o["env_episode"]) + I(res.fields["n_collected_episodes"]))]
        tf = [(i, e) for i, e in enumerate(ev) if e[0] == "train_fn"]
        out.append(("train-hook-once-before-the-collection", z3.BoolVal(len(tf) == 1 and tf[0][0] < ev.index(co[0]))))
        for _, e in tf:
            out.append(("train-hook-gets-epoch-and-step", z3.And(I(e[1][0]) == I(o["epoch"]), I(e[1][1]) == I(o["env_step"]))))
        lg = [e for e in ev if e[0] == "log_train_data"]
        out.append(("logged-when-an-episode-finished", z3.BoolVal(len(lg) <= 1) if len(lg) else z3.Not(I(res.fields["n_collected_episodes"]) > 0)))
        for e in lg:
            out.append(("logged-at-the-new-environment-step", I(e[1][1]) == I(f["env_step"])))
        return out + self.counters(a, old, but=("env_step", "env_episode"))

    def post_exc(self, c, a, old, exc):
        return self.counters(a, old)

    def apply(self, c, a):
        t = a["self"]
        r = stats(c, "collected")
        if self.malformed is not None and c.branch(self.malformed):
            raise PyRaise("MalformedBufferError")
        for x, y in (("env_step", "n_collected_steps"), ("env_episode", "n_collected_episodes")):
            c.set_field(t, x, I(t.fields[x]) + I(r.fields[y]))
        for x in ("last_rew", "last_len"):
            c.set_field(t, x, c.Real(x))
        c.events.append(("collected", r))
        return r
    malformed = None


class TrainingStep(TrainerC):
    """one training iteration: within the policy's training step, collect once (or take the given buffer), decide whether to stop, update the policy exactly
    when not stopping; the flag is restored on every exit"""
    target = TB + ":BaseTrainer.training_step"
    cases = tuple((tr, st) for tr in (True, False) for st in (False, True))

    @property
    def uses(self):
        me = self

        class C2(Collect):
            def apply(s2, c, a):
                c.prove("within-the-training-step-while-collecting", B(me.policy.fields["is_within_training_step"]))
                s2.malformed = me.malformed
                return Collect.apply(s2, c, a)
        return (C2, UpdateBest)

    def more(self):
        return {TB + ":BaseTrainer.policy_update_fn": self.upd}

    def upd(self, c, a, k):
        c.prove("within-the-training-step-while-updating", B(self.policy.fields["is_within_training_step"]))
        self.res = Rec(c, "ustats", dict(train_time=c.Real("tt")))
        c.events.append(("policy_update", a[1], self.res))
        c.set_field(self.t, "_gradient_step", I(self.t.fields["_gradient_step"]) + c.nat("dg"))
        return self.res

    def params(self, c, case):
        self.malformed = c.Bool("malformed")
        return dict(self=self.trainer(c, train=case[0], buffer=not case[0], stop=case[1]))

    def pre(self, c, a):
        t = a["self"]
        return t.fields["_H"].best(c, t) + [("epoch-not-negative", I(t.fields["epoch"]) >= 0)]

    def raises(self, c, a, old):
        return [("MalformedBufferError", self.malformed)] if c.case[0] else []

    def post(self, c, a, old, res):
        t, f, o = a["self"], a["self"].fields, old["self"].fields
        ev = c.events
        stat, ust, flag = res
        names = [e[0] for e in ev if e[0] in ("collected", "update_best", "policy_update")]
        out = []
        if c.case[0]:
            co = [e for e in ev if e[0] == "collected"]
            out.append(("collected-once-and-judged-then-updated", z3.BoolVal(names in (["collected", "update_best"], ["collected", "update_best", "policy_update"]))))
            if len(co) == 1:
                out += [("statistics-of-this-collection", z3.BoolVal(stat is co[0][1] and all(e[1] is stat for e in ev if e[0] in ("update_best", "policy_update")))),
                        ("steps-counted", I(f["env_step"]) == I(o["env_step"]) + I(stat.fields["n_collected_steps"])),
                        ("episodes-counted", I(f["env_episode"]) == I(o["env_episode"]) + I(stat.fields["n_collected_episodes"]))]
            ub = [e for e in ev if e[0] == "update_best"]
            if len(ub) == 1:
                out.append(("stops-exactly-as-judged", B(flag) == B(ub[0][2])))
        else:
            out.append(("updated-without-collecting", z3.BoolVal(names == ["policy_update"])))
            out.append(("never-stops-without-collecting", z3.Not(B(flag))))
            out += self.counters(a, old, but=("_gradient_step",))
        up = [e for e in ev if e[0] == "policy_update"]
        out.append(("updated-exactly-when-not-stopping", z3.BoolVal(len(up) == 1) == z3.Not(B(flag))))
        out.append(("statistics-of-the-update-returned", z3.BoolVal(ust is up[0][2] if up else ust is None)))
        out.append(("training-step-flag-restored", B(self.policy.fields["is_within_training_step"]) == B(o["policy"].fields["is_within_training_step"])))
        out += self.counters(a, old, but=("env_step", "env_episode", "_gradient_step"))
        return out + f["_H"].best(c, t)

    def post_exc(self, c, a, old, exc):
        return [("training-step-flag-restored-after-an-error", B(self.policy.fields["is_within_training_step"]) == B(old["self"].fields["policy"].fields["is_within_training_step"])),
                ("no-update-on-malformed-data", z3.BoolVal(not [e for e in c.events if e[0] == "policy_update"]))]

    def apply(self, c, a):
        t = a["self"]
        for nm, g in self.pre(c, a):
            c.prove(f"call:training_step:pre:{nm}", g, "pre")
        o = dict(t.fields)
        online = t.fields["train_collector"] is not None
        flag = c.Bool("stop")
        if not online or t.fields["stop_fn"] is None:
            c.assume(z3.Not(flag))
        for x in ("best_score", "best_reward", "best_reward_std", "best_epoch", "last_rew", "last_len", "_gradient_step", "policy_update_time"):
            c.set_field(t, x, c.it.fresh_like(o[x], x))
        H2 = Hist(c)
        c.assume(H2.n >= o["_H"].n)
        for nm, g in H2.best(c, t):
            c.assume(g)
        c.set_field(t, "_H", H2)
        if online:
            st = stats(c, "collected")
            # the collector never returns without having taken a step (P21)
            c.assume(I(st.fields["n_collected_steps"]) >= 1)
            c.set_field(t, "env_step", I(o["env_step"]) + I(st.fields["n_collected_steps"]))
            c.set_field(t, "env_episode", I(o["env_episode"]) + I(st.fields["n_collected_episodes"]))
        else:
            st = Rec(c, "base_stats", dict(n_collected_episodes=c.nat("e")), pytype=("CollectStatsBase",))
        self.on_apply(c, t, st, flag)
        return (st, Rec(c, "ustats", dict(train_time=c.Real("tt"))), flag)

    def on_apply(self, c, t, st, flag):
        pass


class SampleAndUpdate(TrainerC):
    """one gradient step: the counter grows by one and the policy is updated once from a batch_size sample of the given buffer"""
    target = TB + ":BaseTrainer._sample_and_update"

    def more(self):
        return {TB + ":BaseTrainer._update_moving_avg_stats_and_log_update_data": lambda c, a, k: c.events.append(("moving", a[1]))}

    def params(self, c, case):
        t = self.trainer(c)
        return dict(self=t, buffer=self.mk_buffer(c, "buf"))

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        up = [e for e in c.events if e[0] == "update"]
        out = [("exactly-one-update", z3.BoolVal(len(up) == 1)), ("gradient-steps-counted", I(f["_gradient_step"]) == I(o["_gradient_step"]) + 1)]
        if len(up) == 1:
            k = named(up[0][1], up[0][2], "sample_size", "buffer")
            out += [("from-the-given-buffer", z3.BoolVal(k.get("buffer") is a["buffer"])), ("sample-of-batch-size", I(k.get("sample_size", -1)) == I(f["batch_size"])),
                    ("statistics-of-the-update-returned", z3.BoolVal(res is self.ustats))]
        return out + self.counters(a, old, but=("_gradient_step",))

    def apply(self, c, a):
        t = a["self"]
        c.set_field(t, "_gradient_step", I(t.fields["_gradient_step"]) + 1)
        u = self.outer.updates
        u.m_setattr(c, "n", I(u.fields["n"]) + 1)
        c.prove("updates-from-the-right-buffer", z3.BoolVal(a["buffer"] is self.outer.source()))
        self.outer.last = r = Rec(c, "ustats", dict(train_time=c.Real("tt")))
        return r


def off_inv(c, L):
    t, u = c.case_args["self"].fields, c.ghost["updates"]
    o, u0 = c.ghost["t0"], c.ghost["u0"]
    return [("one-gradient-step-per-iteration", I(t["_gradient_step"]) == I(o["_gradient_step"]) + L.k), ("one-update-per-iteration", I(u.fields["n"]) == I(u0) + L.k)]


class OffUpdate(TrainerC):
    """off-policy: round(update ratio x collected steps) updates from the training buffer, each counted (refused when that is zero)"""
    target = TB + ":OffpolicyTrainer.policy_update_fn"
    cls = "OffpolicyTrainer"
    loops = {0: Loop(off_inv, born={"update_stat": (lambda c, L: Rec(c, "ustats", dict(train_time=c.Real("tt"))), lambda c, L, v: [])})}

    @property
    def uses(self):
        me = self

        class S(SampleAndUpdate):
            outer = me
        return (S,)

    def source(self):
        return self.t.fields["train_collector"].fields["buffer"]

    def params(self, c, case):
        t = self.trainer(c)
        c.ghost.update(updates=self.updates, t0=dict(t.fields), u0=self.updates.fields["n"])
        self.cs = stats(c, "collected")
        x = R(t.fields["update_per_step"]) * z3.ToReal(I(self.cs.fields["n_collected_steps"]))
        lo = z3.ToInt(x)
        d = x - z3.ToReal(lo)
        h = z3.RealVal("1/2")
        self.n = z3.If(d < h, lo, z3.If(d > h, lo + 1, z3.If(lo % 2 == 0, lo, lo + 1)))
        return dict(self=t, collect_stats=self.cs)

    def pre(self, c, a):
        return [("ratio-not-negative", R(a["self"].fields["update_per_step"]) >= 0)]

    def raises(self, c, a, old):
        return [("ValueError", self.n == 0)]

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        return [("updates-performed-as-configured", I(self.updates.fields["n"]) == I(c.ghost["u0"]) + self.n),
                ("gradient-steps-counted", I(f["_gradient_step"]) == I(o["_gradient_step"]) + self.n)] + self.counters(a, old, but=("_gradient_step",))


class OfflineUpdate(TrainerC):
    """offline: exactly one update from the given buffer, counted"""
    target = TB + ":OfflineTrainer.policy_update_fn"
    cls = "OfflineTrainer"
    uses = OffUpdate.uses

    def source(self):
        return self.t.fields["buffer"]

    def params(self, c, case):
        t = self.trainer(c, train=False, buffer=True)
        c.ghost.update(u0=self.updates.fields["n"])
        return dict(self=t, collect_stats=None)

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        return [("one-update", I(self.updates.fields["n"]) == I(c.ghost["u0"]) + 1), ("gradient-steps-counted", I(f["_gradient_step"]) == I(o["_gradient_step"]) + 1),
                ("its-statistics-returned", z3.BoolVal(res is self.last))] + self.counters(a, old, but=("_gradient_step",))


class OnUpdate(TrainerC):
    """on-policy: the policy learns once from the whole buffer of this collection, which is discarded afterwards (statistics kept)"""
    target = TB + ":OnpolicyTrainer.policy_update_fn"
    cls = "OnpolicyTrainer"
    cases = ("batch", "whole")

    def more(self):
        return {TB + ":BaseTrainer._update_moving_avg_stats_and_log_update_data": lambda c, a, k: c.events.append(("moving", a[1]))}

    def params(self, c, case):
        t = self.trainer(c)
        if case == "whole":
            t.fields["batch_size"] = None
        return dict(self=t, result=None)

    def post(self, c, a, old, res):
        f = a["self"].fields
        ev = [e for e in c.events if e[0] in ("update", "train.reset_buffer", "test.reset_buffer")]
        out = [("learns-once-then-discards", z3.BoolVal([e[0] for e in ev] == ["update", "train.reset_buffer"]))]
        if len(ev) == 2:
            k = named(ev[0][1], ev[0][2], "sample_size", "buffer")
            bs = f["batch_size"]
            out += [("from-the-collected-data", z3.BoolVal(k.get("buffer") is f["train_collector"].fields["buffer"])), ("all-of-it", I(k.get("sample_size", -1)) == 0),
                    ("in-minibatches-as-configured", z3.BoolVal(k.get("batch_size", 0) is None) if bs is None else I(k.get("batch_size", -1)) == I(bs)),
                    ("repeated-as-configured", I(k.get("repeat", -1)) == I(f["repeat_per_collect"])),
                    ("running-episodes-kept", z3.BoolVal(named(ev[1][1], ev[1][2], "keep_statistics").get("keep_statistics") is True))]
        return out + [("statistics-of-the-update-returned", z3.BoolVal(res is self.ustats))] + self.counters(a, old, but=("_gradient_step",))


def next_inv(c, L):
    a = c.case_args["self"]
    f, g, o = a.fields, c.ghost["tally"].fields, c.ghost["t0"]
    return [("environment-steps-counted", I(f["env_step"]) == I(o["env_step"]) + I(g["steps"])), ("episodes-counted", I(f["env_episode"]) == I(o["env_episode"]) + I(g["eps"])),
            ("epoch-steps", I(L.steps_done_in_this_epoch) == (I(g["steps"]) if o["train_collector"] is not None else I(g["calls"]))), ("calls", z3.And(I(g["calls"]) >= 0, I(g["steps"]) >= I(g["calls"]) if o["train_collector"] is not None else True, I(g["eps"]) >= 0)),
            ("stop-flag-is-that-of-the-last-iteration", B(f["stop_fn_flag"]) == B(g["stopped"])),
            ("iterations-so-far", z3.Implies(I(g["calls"]) == 0, z3.And(I(g["steps"]) == 0, z3.Not(B(g["stopped"]))))), ("enough-before-the-last", z3.Or(I(g["calls"]) == 0, I(g["before_last"]) < I(o["step_per_epoch"]))),
            ("history-grows", f["_H"].n >= o["_H"].n)] + f["_H"].best(c, a)


class Next(TrainerC):
    """one epoch: refused when the epochs are used up or the stop flag is set (never in the first epoch after a reset); otherwise training iterations until
    step_per_epoch steps or a stop; then exactly one test unless training stopped; all counters equal the totals; the reported figures are the trainer's"""
    target = TB + ":BaseTrainer.__next__"
    cases = tuple((tr, te, st) for tr in (True, False) for te, st in ((True, True), (True, False), (False, True)))
    loops = {0: Loop(next_inv, ran=lambda c, L: I(c.ghost["tally"].fields["calls"]) >= 1, havoc={"_H": lambda c, L: Hist(c)},
                     born={"train_stat": (lambda c, L: Opaque("train_stat"), lambda c, L, v: []), "update_stat": (lambda c, L: Opaque("update_stat"), lambda c, L, v: [])})}

    @property
    def uses(self):
        me = self

        class TS(TrainingStep):
            def on_apply(s2, c, t, st, flag):
                g = me.tally
                gs = g.fields
                c.prove("trains-only-while-steps-are-missing", I(gs["steps"] if me.online else gs["calls"]) < I(t.fields["step_per_epoch"]))
                c.prove("trains-only-while-not-stopped", z3.Not(B(t.fields["stop_fn_flag"])))
                g.m_setattr(c, "before_last", I(gs["steps"]) if me.online else I(gs["calls"]))
                g.m_setattr(c, "calls", I(gs["calls"]) + 1)
                if me.online:
                    g.m_setattr(c, "steps", I(gs["steps"]) + I(st.fields["n_collected_steps"]))
                    g.m_setattr(c, "eps", I(gs["eps"]) + I(st.fields["n_collected_episodes"]))
                g.m_setattr(c, "stopped", flag)
        return (TS, TestStep)

    def more(self):
        return {TU + ":gather_info": self.gather, "tianshou.utils.logging:set_numerical_fields_to_precision": lambda c, a, k: a[0],
                "tianshou.data.stats:EpochStats": lambda c, a, k: Rec(c, "epoch_stats", k), "tianshou.data.collector:CollectStatsBase": lambda c, a, k: Rec(c, "csb", k, pytype=("CollectStatsBase",))}

    def gather(self, c, a, k):
        c.events.append(("gather", dict(k)))
        self.info = Rec(c, "info", {})
        return self.info

    def params(self, c, case):
        self.online = case[0]
        t = self.trainer(c, train=case[0], test=case[1], stop=case[2], buffer=not case[0])
        self.tally = Tally(c, "tally", dict(steps=z3.IntVal(0), eps=z3.IntVal(0), calls=z3.IntVal(0), before_last=z3.IntVal(0), stopped=z3.BoolVal(False)))
        c.ghost.update(tally=self.tally, t0=dict(t.fields))
        return dict(self=t)

    def pre(self, c, a):
        t = a["self"]
        f = t.fields
        return f["_H"].best(c, t) + [("epoch-not-negative", I(f["epoch"]) >= 0), ("not-stopped-before-the-first-epoch", z3.Implies(I(f["iter_num"]) == 0, z3.Not(B(f["stop_fn_flag"]))))]

    def raises(self, c, a, old):
        o = old["self"].fields
        return [("StopIteration", z3.And(I(o["iter_num"]) >= 1, z3.Or(I(o["epoch"]) + 1 > I(o["max_epoch"]), B(o["stop_fn_flag"]))))]

    def post_exc(self, c, a, old, exc):
        f, o = a["self"].fields, old["self"].fields
        return [("nothing-counted-or-tested-when-refused", z3.And(I(f["env_step"]) == I(o["env_step"]), I(f["env_episode"]) == I(o["env_episode"]), z3.BoolVal(not c.events and f["_H"] is o["_H"] or f["_H"].n is o["_H"].n)))]

    def post(self, c, a, old, res):
        t, f, o = a["self"], a["self"].fields, old["self"].fields
        g, ev = self.tally.fields, c.events
        out = [("epoch-advances-by-one", z3.And(I(f["epoch"]) == I(o["epoch"]) + 1, I(f["iter_num"]) == I(o["iter_num"]) + 1))]
        out += f["_H"].best(c, t)
        done = I(g["steps"]) if self.online else I(g["calls"])
        te = [e for e in ev if e[0] == "test_step"]
        trained_to_stop = g["stopped"]
        out.append(("epoch-complete-unless-stopped", z3.Or(done >= I(o["step_per_epoch"]), B(trained_to_stop))))
        if self.online:
            out += [("environment-steps-counted", I(f["env_step"]) == I(o["env_step"]) + I(g["steps"])), ("episodes-counted", I(f["env_episode"]) == I(o["env_episode"]) + I(g["eps"]))]
        want = z3.And(z3.BoolVal(c.case[1]), z3.Not(B(trained_to_stop)))
        out.append(("tested-exactly-once-unless-stopped", z3.And(z3.BoolVal(len(te) <= 1), want == z3.BoolVal(len(te) == 1))))
        acc = ACC(R(f["best_reward"])) if c.case[2] and te else z3.BoolVal(False)
        out.append(("stop-flag-exactly-as-decided", B(f["stop_fn_flag"]) == z3.Or(B(trained_to_stop), acc)))
        k = [e for e in ev if e[0] == "gather"]
        out.append(("information-gathered-once", z3.BoolVal(len(k) == 1)))
        if len(k) == 1:
            kk = k[0][1]
            for n in ("best_score", "best_reward", "best_reward_std"):
                out.append((f"reports-the-current-{n}", R(kk[n]) == R(f[n])))
            out.append(("reports-the-gradient-steps", I(kk["gradient_step"]) == I(f["_gradient_step"])))
            out.append(("reports-the-collectors", z3.BoolVal(kk["train_collector"] is f["train_collector"] and kk["test_collector"] is f["test_collector"])))
        e = res.fields
        out.append(("epoch-statistics-of-this-epoch", z3.And(I(e["epoch"]) == I(f["epoch"]), z3.BoolVal(e["info_stat"] is self.info and (e["test_collect_stat"] is (te[0][1] if te else None))))))
        return out


class GatherInfo(TrainerC):
    """the reported figures are the trainer's best score/reward/std and gradient steps and the collectors' own step and episode counts"""
    target = TU + ":gather_info"
    cases = tuple((x, y) for x in (True, False) for y in (True, False))

    def more(self):
        return {"tianshou.data.stats:InfoStats": lambda c, a, k: Rec(c, "info", k), "tianshou.data.stats:TimingStats": lambda c, a, k: Rec(c, "timing", k)}

    @property
    def externals(self):
        return {"time.time": lambda c, a, k: c.Real("now")}

    def params(self, c, case):
        mk = lambda n: Rec(c, n, dict(collect_time=c.Real("ct"), collect_step=c.nat("cs"), collect_episode=c.nat("ce")))
        self.tr, self.te = mk("train") if case[0] else None, mk("test") if case[1] else None
        return dict(start_time=c.Real("st"), policy_update_time=c.Real("put"), gradient_step=c.nat("gs"), best_score=c.Real("bs"), best_reward=c.Real("br"),
                    best_reward_std=c.Real("bd"), train_collector=self.tr, test_collector=self.te)

    def prepare(self, c, a):
        # positive time spent outside the tests (the code divides by it)
        pass

    def raises(self, c, a, old):
        return []

    def post(self, c, a, old, res):
        f = res.fields
        out = [(n, R(f[n]) == R(a[n])) for n in ("best_score", "best_reward", "best_reward_std")] + [("gradient_step", I(f["gradient_step"]) == I(a["gradient_step"]))]
        for col, p in ((self.tr, "train"), (self.te, "test")):
            for x, y in ((p + "_step", "collect_step"), (p + "_episode", "collect_episode")):
                out.append((x, I(f[x]) == (I(col.fields[y]) if col is not None else 0)))
        return out


class Reset(TrainerC):
    """a reset starts a new history: the initial test (when there is a test collector) is the first and best, the save hook runs once, the step counter
    starts at zero (or at the logged value), the stop flag is cleared"""
    target = TB + ":BaseTrainer.reset"
    cases = tuple((tr, te, sv, rs) for tr in (True, False) for te in (True, False) for sv in (True, False) for rs in (True, False))
    uses = (TestEpisode,)

    def params(self, c, case):
        tr, te, sv, rs = case
        t = self.trainer(c, train=tr, test=te, save=sv, buffer=not tr)
        t.fields["resume_from_log"] = rs
        self.logged = (c.nat("r_epoch"), c.nat("r_env"), c.nat("r_gs"))
        t.fields["logger"].fields["restore_data"] = Fn(c, "restore_data", lambda cc, a, k: self.logged)
        return dict(self=t, reset_collectors=c.Bool("rc"), reset_buffer=c.Bool("rb"))

    def post(self, c, a, old, res):
        tr, te, sv, rs = c.case
        t, f, o = a["self"], a["self"].fields, old["self"].fields
        ev = c.events
        out = [("steps-start-from-zero-or-the-log", I(f["env_step"]) == (self.logged[1] if rs else 0)), ("start-epoch", I(f["start_epoch"]) == (self.logged[0] if rs else I(o["start_epoch"]))),
               ("gradient-steps-kept-or-from-the-log", I(f["_gradient_step"]) == (self.logged[2] if rs else I(o["_gradient_step"]))),
               ("starts-at-the-start-epoch", z3.And(I(f["epoch"]) == I(f["start_epoch"]), I(f["iter_num"]) == 0)), ("not-stopped", z3.Not(B(f["stop_fn_flag"]))), ("not-running", z3.Not(B(f["is_run"]))),
               ("training-tests-only-with-a-test-collector", B(f["test_in_train"]) == z3.And(B(o["test_in_train"]), z3.BoolVal(te or not tr)))]
        want = [n for n, on in (("train.reset", tr), ("test.reset", te)) if on]
        got = [e for e in ev if e[0] in ("train.reset", "test.reset")]
        out.append(("collectors-reset-exactly-when-asked", z3.And(z3.BoolVal(sorted(e[0] for e in got) in (sorted(want), [])), z3.BoolVal(len(got) == len(want)) == z3.Or(B(a["reset_collectors"]), z3.BoolVal(not want)))))
        for e in got:
            out.append(("buffers-cleared-only-when-asked", B(e[2]["reset_buffer"]) == B(a["reset_buffer"])))
        tests = [e for e in ev if e[0] == "test"]
        out.append(("initial-test-exactly-with-a-test-collector", z3.BoolVal(len(tests) == (1 if te else 0))))
        if tests and te:
            out += self.tested(c, tests[0], a)
            if got:
                out.append(("tested-after-the-reset", z3.BoolVal(ev.index(tests[0]) > max(ev.index(e) for e in got))))
            st = tests[0][2]
            ok, score = self.scored(c, ev, st)
            out.append(("score-is-that-of-the-initial-test", z3.BoolVal(ok)))
            if ok:
                h = Hist(c, z3.IntVal(0))
                h = h.plus(score, f["epoch"], st.fields["returns_stat"].fields["mean"], st.fields["returns_stat"].fields["std"], 0)
                h.b = z3.IntVal(0)
                out += h.best(c, t)
        s = [e for e in ev if e[0] == "save"]
        out.append(("saved-once-for-the-initial-test", z3.BoolVal(len(s) == (1 if sv else 0) and all(e[1] == [f["policy"]] for e in s))))
        return out


PROOFS = {"P22": [TestEpisode, TestStep, UpdateBest, Collect, TrainingStep, SampleAndUpdate, OffUpdate, OfflineUpdate, OnUpdate, Next, GatherInfo, Reset]}
