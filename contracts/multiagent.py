"""P25: contracts on MultiAgentPolicyManager: dispatch by tag, combination of the actions, restoration of the buffer's rewards.
Number of rows, the tags of the rows and all values arbitrary; one, two and three agents (structure cases)."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc import npmodel
from pyvc.models import Rec, Fn

MP = "tianshou.policy.multiagent.mapolicy"
AGENTS = ("agent_1", "agent_2", "agent_3")
CODE = {n: k for k, n in enumerate(AGENTS)}
# ghost: number of the first k rows tagged a
CNT = [z3.Function(f"rows_of_{n}", z3.IntSort(), z3.IntSort()) for n in AGENTS]
TRUST = ("the agents' policies are recorded calls; batch[index array] selects those rows of every field and Batch.cat appends rows in order (P18); "
         "len(np.nonzero(mask)[0]) is the number of true entries; agent ids compare equal exactly when they are the same id")


class Tags(Model):
    """an array of agent ids"""
    pytype = ("ndarray",)

    def __init__(self, c, n, f):
        self.n, self.f = n, f
        c.reg(self, "tags")

    def m_cmp(self, c, op, b):
        if op not in ("==", "!=") or b not in CODE:
            raise Unsupported("comparison of agent ids")
        r = c.lam((self.n,), (lambda i: self.f(i) == CODE[b]) if op == "==" else (lambda i: self.f(i) != CODE[b]), "bool")
        r.meta["agent"] = (self, b) if op == "==" else None
        return r

    def m_len(self, c):
        return self.n

    def m_getitem(self, c, idx):
        j = idx.snap()
        return Tags(c, idx.shape[0], lambda k: self.f(j(k)))


class Rows(Rec):
    """a batch: an index array applies to every field"""
    def __init__(self, c, name, fields, n=None):
        super().__init__(c, name, fields, n=n, pytype=("Batch", "BatchProtocol"))

    def m_getitem(self, c, idx):
        if isinstance(idx, Arr) and len(idx.shape) == 1:
            if idx.dtype == "bool":
                (idx,) = c.it.con.nonzero(c, [idx], {})
            sel = lambda v: v.m_getitem(c, idx) if isinstance(v, (Rows, Tags)) else c.it.getitem(v, idx) if isinstance(v, Arr) else v
            r = Rows(c, self.name + "_rows", {k: sel(v) for k, v in self.fields.items()}, n=idx.shape[0])
            r.src, r.idx = self, idx
            return r
        return super().m_getitem(c, idx)


class Pol(Rec):
    def m_call(self, c, args, kw):
        return self.fields["__call__"].fn(c, args, kw)


class Buf(Rec):
    """the replay buffer as far as its rewards go: buffer.rew reads buffer._meta.rew"""
    def m_getattr(self, c, name):
        if name == "rew":
            return self.fields["_meta"].fields["rew"]
        return super().m_getattr(c, name)


def lemma_partition(ver):
    """the numbers of rows of the agents add up to the number of rows (every row carries the id of one of the agents)"""
    for na in (1, 2, 3):
        tag = z3.Function("tag", z3.IntSort(), z3.IntSort())
        k, n = z3.Ints("k n")
        step = [z3.ForAll([k], z3.Implies(k >= 0, CNT[a](k + 1) == CNT[a](k) + z3.If(tag(k) == a, 1, 0)), patterns=[CNT[a](k + 1)]) for a in range(na)]
        base = [CNT[a](0) == 0 for a in range(na)]
        known = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= tag(k), tag(k) < na)), patterns=[tag(k)])
        tot = lambda m: sum([CNT[a](m) for a in range(na)])
        ver.lemma("agent_rows", f"{na}-agents-base", base, tot(z3.IntVal(0)) == 0)
        q = z3.Int("q")
        ver.lemma("agent_rows", f"{na}-agents-step", base + step + [known, 0 <= q, q < n, tot(q) == q, z3.And([CNT[a](q + 1) == CNT[a](q) + z3.If(tag(q) == a, 1, 0) for a in range(na)]),
                                                                    z3.And(0 <= tag(q), tag(q) < na)], tot(q + 1) == q + 1)


class Manager(Contract):
    trusted = (TRUST,)

    @property
    def externals(self):
        return {"numpy.nonzero": self.nonzero}

    @property
    def overrides(self):
        return {"tianshou.data.batch:Batch": self.mkbatch, "tianshou.data.batch:Batch.cat": self.cat, MP + ":MapTrainingStats": lambda c, a, k: Rec(c, "mapstats", dict(of=a[0] if a else list(k.values())[0]))}

    def all2(self, c, fn, n, m):
        return c.forall(lambda p: c.forall(lambda q: fn(p, q), 0, m), 0, n)

    def mkbatch(self, c, a, k):
        f = dict(a[0].d) if a and isinstance(a[0], PDict) else {}
        f.update(k)
        return Rows(c, "Batch", f)

    def nonzero(self, c, a, k):
        v = a[0]
        r = npmodel.nonzero(c, v)
        tg = v.meta.get("agent")
        if tg and tg[0] is self.tags:
            c.assume(I(r.shape[0]) == CNT[CODE[tg[1]]](self.n))     # by induction: lemma_partition
            self.rows[tg[1]] = r
        return (r,)

    def cat(self, c, a, k):
        lst = a[-1]
        items = c.it.concrete_iter(lst)
        parts = []
        for x in items:
            f = x.d if isinstance(x, PDict) else x.fields
            if set(f) != {"act"}:
                raise Unsupported("concatenation of something else than the actions")
            parts.append(f["act"])
        if not parts:
            return Rows(c, "holder", {})
        return Rows(c, "holder", {"act": REG_CAT(c, [parts], {})})

    def setup(self, c, na, mask=False, nested=True, rew=True):
        m = Module.get(MP)
        t = c.reg(Obj(c.it.ver.get_class(m, m.defs["MultiAgentPolicyManager"])), "manager")
        self.na, self.names = na, AGENTS[:na]
        self.n = c.nat("rows")
        tf = z3.Function(c.fresh_name("tag"), z3.IntSort(), z3.IntSort())
        self.tag, self.rows, self.calls = tf, {}, []
        self.tags = Tags(c, self.n, lambda i: tf(i))
        # every row carries one agent's id; the number of rows of each agent then adds up (lemma_partition)
        c.assume(c.forall(lambda i: z3.And(0 <= tf(i), tf(i) < na), 0, self.n))
        c.assume(sum([CNT[a](self.n) for a in range(na)]) == self.n)
        d = c.nat("feat")
        of = dict(agent_id=self.tags)
        self.o = c.arr("obs", (self.n, d))
        if nested:
            of["obs"] = self.o
        else:
            of["other"] = self.o
        if mask:
            of["mask"] = c.arr("mask", (self.n, c.nat("acts")), "bool")
        self.on = c.arr("obs_next", (self.n, d))
        self.extra = c.arr("extra", (self.n,))
        f = dict(obs=Rows(c, "obs", of, n=self.n), extra=self.extra)
        f["obs_next"] = Rows(c, "obs_next", {("obs" if nested else "other"): self.on, "agent_id": Tags(c, self.n, lambda i: z3.Function("next_tag", z3.IntSort(), z3.IntSort())(i))}, n=self.n)
        self.R = c.arr("rew", (self.n, na))
        f["rew"] = self.R if rew else Rows(c, "norew", {})
        self.batch = Rows(c, "batch", f, n=self.n)
        # the column of an agent is whatever the environment says
        cols = [c.Int(f"col_{x}") for x in self.names]
        for q in cols:
            c.assume(0 <= q, q < na)
        self.col = dict(zip(self.names, cols))
        t.fields["agent_idx"] = c.reg(PDict({x: q for x, q in self.col.items()}), "agent_idx")
        t.fields["policies"] = c.reg(PDict({x: self.policy(c, x) for x in self.names}), "policies")
        return t

    def policy(self, c, name):
        rec = lambda what: (lambda cc, a, k: self.called(cc, name, what, a, k))
        return Pol(c, name, {"__call__": Fn(c, "call", rec("forward")), "forward": Fn(c, "forward", rec("forward")), "process_fn": Fn(c, "process_fn", rec("process_fn")),
                             "learn": Fn(c, "learn", rec("learn")), "exploration_noise": Fn(c, "noise", rec("noise"))}, pytype=("BasePolicy",))

    def own_rows(self, c, name, b, obs=None):
        """b is exactly the rows of that agent, in order, with its own reward column: positions are an increasing complete enumeration of its rows"""
        if not isinstance(b, Rows) or not isinstance(getattr(b, "idx", None), Arr) or getattr(b, "src", None) is not self.batch:
            return [("gets-a-selection-of-the-batch", z3.BoolVal(False))]
        j, m, code = b.idx.snap(), I(b.idx.shape[0]), CODE[name]
        r = self.rows.get(name)
        inv = (r.meta["inv"] if r is not None and r.meta.get("inv") is not None else None)
        out = [("only-its-own-rows", c.forall(lambda k: z3.And(0 <= j(k), j(k) < self.n, self.tag(j(k)) == code), 0, m)),
               ("in-order", c.forall(lambda k: z3.Implies(k + 1 < m, j(k) < j(k + 1)), 0, m))]
        if inv is not None:
            out.append(("all-its-rows", c.forall(lambda i: z3.Implies(self.tag(i) == code, z3.And(0 <= inv(i), inv(i) < m, j(inv(i)) == i)), 0, self.n)))
        f = b.fields
        want = {"extra": self.extra}
        ob, nx = f["obs"], f["obs_next"]
        if "mask" in self.batch.fields["obs"].fields:
            out.append(("masked-observation-kept-whole", z3.BoolVal(isinstance(ob, Rows) and set(ob.fields) == set(self.batch.fields["obs"].fields))))
            ob, nx = (x.fields.get("obs", x.fields.get("other")) if isinstance(x, Rows) else x for x in (ob, nx))
        elif isinstance(ob, Rows):
            out.append(("observation-kept", z3.BoolVal("obs" not in ob.fields and set(ob.fields) == set(self.batch.fields["obs"].fields))))
            ob, nx = ob.fields.get("other"), nx.fields.get("other") if isinstance(nx, Rows) else nx
        for nm, got, src in (("observation", ob, self.o), ("next-observation", nx, self.on), ("other-fields", f["extra"], self.extra)):
            if not isinstance(got, Arr):
                raise Unsupported(nm)
            g, s = got.snap(), src.snap()
            if len(src.shape) == 2:
                out.append((f"{nm}-of-its-rows", self.all2(c, lambda k, q: g(k, q) == s(j(k), q), m, src.shape[1])))
            else:
                out.append((f"{nm}-of-its-rows", c.forall(lambda k: g(k) == s(j(k)), 0, m)))
        if isinstance(self.batch.fields["rew"], Arr):
            if not isinstance(f["rew"], Arr):
                raise Unsupported("reward")
            g, s = f["rew"].snap(), self.R.snap()
            ok = len(f["rew"].shape) == 1
            out.append(("its-own-reward-column", c.forall(lambda k: g(k) == s(j(k), self.col[name]), 0, m) if ok else z3.BoolVal(False)))
        return out

    def dispatched(self, c, what):
        """every agent with rows was called exactly once, agents without rows were not"""
        out = []
        for x in self.names:
            n = len([e for e in self.calls if e[:2] == (x, what)])
            has = c.exists(lambda i: self.tag(i) == CODE[x], 0, self.n)
            out.append((f"{what}-of-{x}-exactly-when-it-has-rows", z3.And(z3.BoolVal(n <= 1), has == z3.BoolVal(n == 1))))
        return out

    def unchanged(self, c):
        b = self.batch.fields
        return [("given-batch-untouched", z3.BoolVal((b["rew"] is self.R or not isinstance(b["rew"], Arr)) and isinstance(b["obs"], Rows) and
                                                     b["obs"].fields["agent_id"] is self.tags and b["extra"] is self.extra))]


REG_CAT = npmodel.REG["np.concatenate"]


class Forward(Manager):
    """every agent's policy gets exactly its own rows (with its own state); the combined actions hold for every row the action chosen by that row's agent"""
    target = MP + ":MultiAgentPolicyManager.forward"
    cases = tuple((na, "plain", st, True) for na in (1, 2, 3) for st in (True, False)) + ((2, "mask", False, False), (2, "flat", False, True))

    def params(self, c, case):
        na, kind, st, rew = case
        t = self.setup(c, na, mask=kind == "mask", nested=kind != "flat", rew=rew)
        self.state = c.reg(PDict({x: Rec(c, "state_" + x, {}) for x in self.names}), "state") if st else None
        self.kw = Opaque("kwarg")
        return dict(self=t, batch=self.batch, state=self.state, _kw=self.kw)

    def run(self, it, fn, a):
        return it.call_function(fn, [a["self"], a["batch"], a["state"]], {"extra_kw": self.kw}, top=True)

    def called(self, c, name, what, a, k):
        b = k.get("batch", a[0] if a else None)
        st = k.get("state", a[1] if len(a) > 1 else None)
        for nm, g in self.own_rows(c, name, b):
            c.prove(f"{name}-{nm}", g)
        c.prove(f"{name}-gets-its-own-state", z3.BoolVal(st is (self.state.d[name] if self.state is not None else None)))
        c.prove(f"{name}-gets-the-keyword-arguments", z3.BoolVal(k.get("extra_kw") is self.kw))
        act = c.arr("act_" + name, (b.n,))
        out = Rows(c, "out_" + name, dict(act=act, state=Rec(c, "newstate_" + name, {})), n=b.n)
        self.calls.append((name, what, b, out))
        return out

    def post(self, c, a, old, res):
        out = self.dispatched(c, "forward") + self.unchanged(c)
        by = {e[0]: e for e in self.calls}
        f = res.fields
        if by:
            act = f["act"].snap()
            out.append(("one-action-per-row", I(f["act"].shape[0]) == self.n))
            for x, (_, _, b, o) in by.items():
                j, av = b.idx.snap(), o.fields["act"].snap()
                out.append((f"action-of-{x}-for-its-rows", c.forall(lambda k: act(j(k)) == av(k), 0, b.n)))
        for x in self.names:
            e = by.get(x)
            od, sd = f["out"], f["state"]
            od, sd = (v.d if isinstance(v, PDict) else v.fields for v in (od, sd))
            out.append((f"output-and-state-of-{x}", z3.BoolVal(set(od) == set(self.names) == set(sd) and (od[x] is e[3] and sd[x] is e[3].fields["state"] if e else
                                                                                                     not od[x].fields and not sd[x].fields))))
        return out


class ProcessFn(Manager):
    """every agent's process_fn gets its own rows and positions while the buffer shows that agent's rewards; afterwards the buffer's rewards are the original ones"""
    target = MP + ":MultiAgentPolicyManager.process_fn"
    cases = tuple((na, kind, True) for na in (1, 2, 3) for kind in ("plain",)) + ((2, "mask", True), (2, "flat", True), (2, "plain", False))

    def params(self, c, case):
        na, kind, rew = case
        t = self.setup(c, na, mask=kind == "mask", nested=kind != "flat", rew=rew)
        self.brew = c.arr("buffer_rew", (c.nat("cap"), na)) if rew else Rows(c, "norew", {})
        self.buf = Buf(c, "buffer", dict(_meta=Rec(c, "meta", dict(rew=self.brew))))
        self.ind = c.arr("indices", (self.n,), "int")
        return dict(self=t, batch=self.batch, buffer=self.buf, indice=self.ind)

    def called(self, c, name, what, a, k):
        kk = {**dict(zip(("batch", "buffer", "indices"), a)), **k}
        b, buf, ind = kk["batch"], kk["buffer"], kk["indices"]
        for nm, g in self.own_rows(c, name, b):
            c.prove(f"{name}-{nm}", g)
        c.prove(f"{name}-gets-the-buffer", z3.BoolVal(buf is self.buf))
        j, i, s = b.idx.snap(), ind.snap(), self.ind.snap()
        c.prove(f"{name}-gets-the-positions-of-its-rows", z3.And(I(ind.shape[0]) == I(b.n), c.forall(lambda k: i(k) == s(j(k)), 0, b.n)))
        if isinstance(self.brew, Arr):
            r = self.buf.fields["_meta"].fields["rew"]
            ok = isinstance(r, Arr) and len(r.shape) == 1
            g, w = (r.snap() if ok else None), self.brew.snap()
            c.prove(f"buffer-shows-the-rewards-of-{name}", z3.And(I(r.shape[0]) == I(self.brew.shape[0]), c.forall(lambda q: g(q) == w(q, self.col[name]), 0, self.brew.shape[0])) if ok else z3.BoolVal(False))
        out = Rows(c, "processed_" + name, {}, n=b.n)
        self.calls.append((name, what, b, out))
        return out

    def post(self, c, a, old, res):
        out = self.dispatched(c, "process_fn") + self.unchanged(c)
        now = self.buf.fields["_meta"].fields["rew"]
        if isinstance(self.brew, Arr):
            was = old["buffer"].fields["_meta"].fields["rew"].snap()
            g = now.snap() if isinstance(now, Arr) and len(now.shape) == 2 else None
            out.append(("rewards-of-the-buffer-restored", self.all2(c, lambda p, q: g(p, q) == was(p, q), self.brew.shape[0], self.na) if g else z3.BoolVal(False)))
        else:
            out.append(("absent-rewards-untouched", z3.BoolVal(now is self.brew)))
        by = {e[0]: e for e in self.calls}
        for x in self.names:
            e = by.get(x)
            v = res.fields.get(x)
            out.append((f"result-of-{x}", z3.BoolVal(v is e[3] if e else isinstance(v, Rows) and not v.fields)))
        return out


class Noise(Manager):
    """exploration noise of every agent's policy is applied to exactly its own rows of the actions"""
    target = MP + ":MultiAgentPolicyManager.exploration_noise"
    cases = (1, 2, 3)

    def params(self, c, case):
        t = self.setup(c, case)
        self.act = c.arr("act", (self.n,))
        self.act0 = self.act.snap()
        return dict(self=t, act=self.act, batch=self.batch)

    def called(self, c, name, what, a, k):
        kk = {**dict(zip(("act", "batch"), a)), **k}
        x, b = kk["act"], kk["batch"]
        if getattr(b, "src", None) is not self.batch or not isinstance(x, Arr):
            c.prove(f"{name}-gets-a-selection-of-the-batch", z3.BoolVal(False))
            raise EndPath()
        j = b.idx.snap()
        g = x.snap()
        c.prove(f"{name}-only-its-own-rows", c.forall(lambda q: self.tag(j(q)) == CODE[name], 0, b.n))
        c.prove(f"{name}-gets-the-actions-of-its-rows", z3.And(I(x.shape[0]) == I(b.n), c.forall(lambda q: g(q) == self.act0(j(q)), 0, b.n)))
        r = c.arr("noisy_" + name, (b.n,))
        self.calls.append((name, what, b, r))
        return r

    def post(self, c, a, old, res):
        out = self.dispatched(c, "noise") + self.unchanged(c)
        r = res.snap()
        out.append(("one-action-per-row", I(res.shape[0]) == self.n))
        for x, _, b, v in self.calls:
            j, w = b.idx.snap(), v.snap()
            out.append((f"actions-of-{x}-are-its-noisy-ones", c.forall(lambda k: r(j(k)) == w(k), 0, b.n)))
        return out


class Learn(Manager):
    """every agent with data learns exactly once from its own data; the others are skipped"""
    target = MP + ":MultiAgentPolicyManager.learn"
    cases = tuple((na, tuple(bool(m >> k & 1) for k in range(na))) for na in (1, 2, 3) for m in range(2 ** na))

    def params(self, c, case):
        na, has = case
        t = self.setup(c, na)
        self.data = {x: Rows(c, "data_" + x, dict(obs=c.arr("o", (c.nat("k"),))) if h else {}) for x, h in zip(self.names, has)}
        self.kw = Opaque("kwarg")
        return dict(self=t, batch=Rows(c, "per_agent", dict(self.data)))

    def run(self, it, fn, a):
        return it.call_function(fn, [a["self"], a["batch"]], {"extra_kw": self.kw}, top=True)

    def called(self, c, name, what, a, k):
        b = k.get("batch", a[0] if a else None)
        c.prove(f"{name}-learns-from-its-own-data", z3.BoolVal(b is self.data[name]))
        c.prove(f"{name}-gets-the-keyword-arguments", z3.BoolVal(k.get("extra_kw") is self.kw))
        r = Opaque("stats_" + name)
        self.calls.append((name, what, b, r))
        return r

    def post(self, c, a, old, res):
        want = [x for x, h in zip(self.names, c.case[1]) if h]
        d = res.fields["of"]
        return [("each-agent-with-data-learns-once", z3.BoolVal([e[0] for e in self.calls] == want)),
                ("statistics-per-agent", z3.BoolVal(isinstance(d, PDict) and d.d == {e[0]: e[3] for e in self.calls}))]


PROOFS = {"P25": [Forward, ProcessFn, Noise, Learn]}
LEMMAS = {"P25": [lemma_partition]}
