"""P09: prioritised replay.  SegmentTree is used through its contracts (proved under P01/P02); x ** alpha is the real power function."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.npmodel import REG, scatter, write_elems, fancy_norm
from contracts.ring import *

PRIO = "tianshou.data.buffer.prio"
EPS = "_PrioritizedReplayBuffer__eps"


def power(x, y):
    return binop("**", x, y)


class Weights(Model):
    """a SegmentTree seen through its contracts: leaves w(0..n-1), prefix sums P"""

    def __init__(self, c, n, label="w"):
        self.c, self.n = c, n
        self.arr = c.arr(label, (n,), "real")
        self.queries = []

    def in_range(self, c, idx):
        n = I(self.n)
        f = idx.snap() if isinstance(idx, Arr) else None
        return c.forall(lambda k: z3.And(0 <= f(k), f(k) < n), 0, idx.shape[0]) if f else z3.And(0 <= I(idx), I(idx) < n)

    def m_setitem(self, c, idx, v):
        c.prove("tree:index-in-range", self.in_range(c, idx), "safety")
        if isinstance(idx, Arr):
            scatter(c, self.arr, idx, v)
        else:
            write_elems(c, self.arr, lambda j: I(j) == I(idx), lambda j: R(v))

    def m_getitem(self, c, idx):
        c.prove("tree:index-in-range", self.in_range(c, idx), "safety")
        f = self.arr.snap()
        if isinstance(idx, Arr):
            g = idx.snap()
            return c.lam(idx.shape, lambda k: f(g(k)), "real")
        return f(I(idx))

    def total(self, c):
        return REG["np.sum"](c, [self.arr], {})

    def m_getattr(self, c, name):
        if name == "reduce":
            def red(cc, a, k):
                if a or k:
                    raise Unsupported("partial reduce")
                return self.total(cc)
            return Prim("tree.reduce", red)
        if name == "get_prefix_sum_idx":
            def pre(cc, a, k):
                q = a[0]
                f = q.snap()
                cc.prove("tree:query-in-[0,total)", cc.forall(lambda i: z3.And(0 <= f(i), f(i) < R(self.total(cc))), 0, q.shape[0]), "safety")
                r = cc.arr("leaf", q.shape, "int")
                self.queries.append((f, r))
                P = self.P = z3.Function(cc.fresh_name("P"), z3.IntSort(), z3.RealSort())
                g, w = r.snap(), self.arr.snap()
                B_ = self.bound = cc.Int("bound")
                cc.assume(P(0) == 0, I(self.n) <= B_, cc.forall(lambda i: P(i + 1) == P(i) + w(i), 0, self.n))
                # contract TreePrefix: the leaf whose prefix-sum interval holds the query
                cc.assume(cc.forall(lambda i: z3.And(0 <= g(i), g(i) < B_, z3.Implies(f(i) > 0, g(i) < I(self.n)), f(i) <= P(g(i) + 1), z3.Or(g(i) == 0, P(g(i)) < f(i))), 0, q.shape[0],
                                    pats=[lambda i: g(i)]))
                return r
            return Prim("tree.get_prefix_sum_idx", pre)
        raise Unsupported("SegmentTree." + name)


TRUST = ("SegmentTree operations through their contracts (proved under P01 and P02)", "x ** y as an uninterpreted real power that is positive for positive x")


class _Prio(Contract):
    trusted = TRUST

    def buffer(self, c, norm=None, **kw):
        self.r = r = Ring(c, cls=(PRIO, "PrioritizedReplayBuffer"), **kw)
        self.W = Weights(c, r.cap)
        self.alpha, self.beta, self.mx, self.mn, self.eps = (c.Real(n) for n in ("alpha", "beta", "max_prio", "min_prio", "eps"))
        r.o.fields.update(weight=self.W, _alpha=self.alpha, _beta=self.beta, _max_prio=self.mx, _min_prio=self.mn, _weight_norm=c.Bool("norm") if norm is None else norm, **{EPS: self.eps})
        self.w0 = self.W.arr.snap()
        return r.o

    def pre(self, c, a):
        x, y = z3.Reals("?x ?y")
        return buf_inv(self.r.o) + [("exponents", z3.And(self.alpha > 0, self.beta >= 0)), ("priorities", z3.And(self.mx >= 1, 0 < self.mn, self.mn <= 1, self.eps > 0)),
                                    ("powers-positive", z3.ForAll([x, y], z3.Implies(x > 0, POWF(x, y) > 0), patterns=[POWF(x, y)])),
                                    ("stored-have-positive-priority-others-none", self.inv(c))]

    def stored(self, j):
        return z3.And(0 <= j, j < self.r.s)

    def inv(self, c, w=None, stored=None):
        w, stored = w or self.w0, stored or self.stored
        return c.forall(lambda j: z3.If(stored(j), w(j) > 0, w(j) == 0), 0, self.r.cap)

    def w(self):
        return self.W.arr.snap()


class InitWeight(_Prio):
    """init_weight: the given transitions get (highest priority so far) ** alpha, no other priority changes"""
    target = PRIO + ":PrioritizedReplayBuffer.init_weight"
    cases = ("array", "scalar")

    def params(self, c, case):
        o = self.buffer(c)
        self.ix = c.arr("ix", (c.nat("n"),), "int") if case == "array" else c.Int("i")
        return dict(self=o, index=self.ix)

    def has(self, c, j):
        if isinstance(self.ix, Arr):
            f = self.ix.snap()
            return c.exists(lambda k: f(k) == j, 0, self.ix.shape[0])
        return self.ix == j

    def pre(self, c, a):
        return super().pre(c, a) + [("indices", self.W.in_range(c, self.ix))]

    def post(self, c, a, old, res):
        w = self.w()
        new = power(self.mx, self.alpha)
        if isinstance(self.ix, Arr):
            f = self.ix.snap()
            got = c.forall(lambda k: w(f(k)) == new, 0, self.ix.shape[0])
        else:
            got = w(self.ix) == new
        return [("highest-so-far-to-the-alpha", got), ("others-kept", c.forall(lambda j: z3.Or(self.has(c, j), w(j) == self.w0(j)), 0, self.r.cap)),
                ("positive", new > 0)]


class UpdateWeight(_Prio):
    """update_weight: each updated transition gets (|new weight| + eps) ** alpha (last wins), no other changes; highest/smallest seen are kept exactly"""
    target = PRIO + ":PrioritizedReplayBuffer.update_weight"
    cases = ("np", "torch")

    def params(self, c, case):
        o = self.buffer(c)
        self.n = c.Int("n")
        self.ix, self.nw = c.arr("ix", (self.n,), "int"), c.arr("nw", (self.n,), "real", kind=case)
        return dict(self=o, index=self.ix, new_weight=self.nw)

    def pre(self, c, a):
        f = self.ix.snap()
        return super().pre(c, a) + [("some", self.n >= 1), ("stored", c.forall(lambda k: self.stored(f(k)), 0, self.n))]

    def post(self, c, a, old, res):
        w, f = self.w(), self.ix.snap()
        g = old["new_weight"].snap()
        p = lambda k: z3.If(g(k) >= 0, g(k), -g(k)) + self.eps
        mx, mn = R(a["self"].fields["_max_prio"]), R(a["self"].fields["_min_prio"])
        ex = lambda v: c.exists(lambda k: p(k) == v, 0, self.n)
        return [("new-priority", c.forall(lambda k: z3.Implies(c.forall(lambda m: f(m) != f(k), k + 1, self.n), w(f(k)) == power(p(k), self.alpha)), 0, self.n)),
                ("others-kept", c.forall(lambda j: z3.Or(c.exists(lambda k: f(k) == j, 0, self.n), w(j) == self.w0(j)), 0, self.r.cap)),
                ("highest-seen", z3.And(mx >= self.mx, c.forall(lambda k: mx >= p(k), 0, self.n), z3.Or(mx == self.mx, ex(mx)))),
                ("smallest-seen", z3.And(mn <= self.mn, c.forall(lambda k: mn <= p(k), 0, self.n), z3.Or(mn == self.mn, ex(mn)))),
                ("still-positive-exactly-where-stored", self.inv(c, w)),
                ("exponents-kept", z3.And(R(a["self"].fields["_alpha"]) == self.alpha, R(a["self"].fields["_beta"]) == self.beta)),
                ("caller's weights untouched", c.forall(lambda k: self.nw.snap()(k) == g(k), 0, self.n))]


class GetWeight(_Prio):
    """get_weight: (priority / smallest priority ever seen) ** -beta, with the beta in force"""
    target = PRIO + ":PrioritizedReplayBuffer.get_weight"
    cases = ("array", "scalar")

    def params(self, c, case):
        o = self.buffer(c)
        self.ix = c.arr("ix", (c.nat("n"),), "int") if case == "array" else c.Int("i")
        return dict(self=o, index=self.ix)

    def pre(self, c, a):
        f = self.ix.snap() if isinstance(self.ix, Arr) else None
        return super().pre(c, a) + [("stored", c.forall(lambda k: self.stored(f(k)), 0, self.ix.shape[0]) if f else self.stored(self.ix))]

    def is_weight(self, i):
        return power(self.w0(i) / power(self.mn, self.alpha), -self.beta)

    def post(self, c, a, old, res):
        if isinstance(self.ix, Arr):
            f = self.ix.snap()
            return [("importance-weight", z3.And(I(res.shape[0]) == I(self.ix.shape[0]), c.forall(lambda k: res.snap()(k) == self.is_weight(f(k)), 0, self.ix.shape[0])))]
        return [("importance-weight", R(res) == self.is_weight(self.ix))]


class SetBeta(_Prio):
    """set_beta puts the given beta in force and changes nothing else"""
    target = PRIO + ":PrioritizedReplayBuffer.set_beta"

    def params(self, c, case):
        return dict(self=self.buffer(c), beta=c.Real("new_beta"))

    def post(self, c, a, old, res):
        f = a["self"].fields
        return [("beta-in-force", R(f["_beta"]) == a["beta"]), ("nothing-else", z3.And(R(f["_alpha"]) == self.alpha, R(f["_max_prio"]) == self.mx, R(f["_min_prio"]) == self.mn))]


class PrioSample(_Prio):
    """sample_indices: a draw u * total (u uniform in [0,1)) lands on the leaf whose prefix-sum interval holds it, so a transition's chance is its share of the
    total priority and only stored transitions are drawn; without a positive size it answers like the plain buffer"""
    target = PRIO + ":PrioritizedReplayBuffer.sample_indices"
    argorder = ("self", "batch_size")
    uses = (SampleIndices,)
    cases = ("n", "0", "None", "negative")
    trusted = TRUST + ("numpy.random.rand draws from [0, 1); the total of non-negative priorities, one of them positive, is positive, and prefix sums of zeros are constant (PriorityLemmas)",)

    def params(self, c, case):
        o = self.buffer(c, meta=done_meta)
        n = {"n": c.Int("n"), "0": 0, "None": None, "negative": c.Int("n")}[case]
        self.tot = REG["np.sum"](c, [self.W.arr], {})
        return dict(self=o, batch_size=n)

    def pre(self, c, a):
        return super().pre(c, a) + [("size", {"n": a["batch_size"] > 0, "negative": a["batch_size"] < 0}.get(c.case, z3.BoolVal(True)) if c.case in ("n", "negative") else z3.BoolVal(True)),
                                    ("non-empty", self.r.s >= 1), ("total-positive", R(self.tot) > 0)]

    @property
    def externals(self):
        def rand(c, a, k):
            r = REG["np.random.rand"](c, a, k)
            self.u = r.snap()
            return r
        return {"numpy.random.rand": rand}

    def post(self, c, a, old, res):
        n, s = old["batch_size"], self.r.s
        h = res.snap()
        if c.case != "n":
            return [("like-the-plain-buffer", I(res.shape[0]) == (0 if c.case == "negative" else s)), ("only-stored", c.forall(lambda j: self.stored(h(j)), 0, res.shape[0]))]
        if len(self.W.queries) != 1:
            return [("one-look-up-per-draw", z3.BoolVal(False))]
        q, _ = self.W.queries[0]
        P, T = self.W.P, R(self.tot)
        # PriorityLemmas: prefix sums never decrease and are constant from the first unstored slot on
        i, j = z3.Int("?pi"), z3.Int("?pj")
        c.assume(z3.ForAll([i], z3.Implies(z3.And(s <= i, i <= self.W.bound), P(i) == P(s)), patterns=[P(i)]), P(s) == T,
                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= self.W.bound), P(i) >= 0), patterns=[P(i)]))
        return [("size", I(res.shape[0]) == n),
                ("drawn-in-proportion", c.forall(lambda k: z3.And(q(k) == self.u(k) * T, z3.Or(h(k) == 0, P(h(k)) < q(k)), q(k) <= P(h(k) + 1)), 0, n)),
                ("only-stored", c.forall(lambda k: self.stored(h(k)), 0, n)),
                ("positive-priority", c.forall(lambda k: self.w0(h(k)) > 0, 0, n))]


def priority_lemmas(ver):
    """PriorityLemmas: prefix sums of zero priorities are constant (induction step); totals of non-negative priorities with a positive one are positive"""
    P, w = z3.Function("P", z3.IntSort(), z3.RealSort()), z3.Function("w", z3.IntSort(), z3.RealSort())
    s, i, k = z3.Ints("s i k")
    ok = ver.lemma("PriorityLemmas", "constant-step", [i >= s, P(i) == P(s), P(i + 1) == P(i) + w(i), w(i) == 0], P(i + 1) == P(s))
    ok = ver.lemma("PriorityLemmas", "non-negative-step", [P(i) >= 0, P(i + 1) == P(i) + w(i), w(i) >= 0], P(i + 1) >= 0) and ok
    return ver.lemma("PriorityLemmas", "positive-step", [z3.Implies(k < i, P(i) >= w(k)), P(i) >= 0, P(i + 1) == P(i) + w(i), w(i) >= 0, k <= i], P(i + 1) >= w(k)) and ok


class _NewIndices(_Prio):
    """shared: the parent method stores data at some slots (its own contract, P03); those slots then get the highest priority"""
    sup = ""

    def pre(self, c, a):
        return super().pre(c, a)

    def parent(self, c, args, kw, res_of):
        r = self.r
        f = r.o.fields
        self.ix = ix = c.arr("slots", (c.nat("moved"),), "int")
        g = ix.snap()
        s2, p2 = c.Int("size"), c.Int("ins")
        self.s2 = s2
        # contracts Add / Update: the new slots are stored afterwards, and every other stored slot was stored before
        c.assume(c.forall(lambda k: z3.And(0 <= g(k), g(k) < s2), 0, ix.shape[0]), r.s <= s2, s2 <= r.cap,
                 c.forall(lambda j: c.exists(lambda k: g(k) == j, 0, ix.shape[0]), r.s, s2))
        c.set_field(r.o, "_size", s2)
        return res_of(c, ix)

    def post(self, c, a, old, res):
        w, g, new = self.w(), self.ix.snap(), power(self.mx, self.alpha)
        return [("new-transitions-get-the-highest-priority", c.forall(lambda k: w(g(k)) == new, 0, self.ix.shape[0])),
                ("others-kept", c.forall(lambda j: z3.Or(c.exists(lambda k: g(k) == j, 0, self.ix.shape[0]), w(j) == self.w0(j)), 0, self.r.cap)),
                ("positive-exactly-where-stored", self.inv(c, w, lambda j: z3.And(0 <= j, j < self.s2))),
                ("reports-as-the-plain-buffer", z3.BoolVal(self.same(res)))]


class PrioAdd(_NewIndices):
    """add: the stored transition gets the highest priority seen so far, no other priority changes; what is reported is what the plain buffer reports"""
    target = PRIO + ":PrioritizedReplayBuffer.add"
    trusted = TRUST + ("ReplayBuffer.add through its contract (P03)",)

    @property
    def overrides(self):
        def add(c, args, kw):
            def out(c, ix):
                self.rep = (ix, Opaque("ret"), Opaque("len"), Opaque("start"))
                return self.rep
            return self.parent(c, args, kw, out)
        return {BASE + ":ReplayBuffer.add": add}

    def params(self, c, case):
        return dict(self=self.buffer(c), batch=Opaque("batch"), buffer_ids=None)

    def same(self, res):
        return isinstance(res, tuple) and len(res) == 4 and all(x is y for x, y in zip(res, self.rep))


class PrioUpdate(_NewIndices):
    """update: every moved transition gets the highest priority seen so far, no other priority changes; the slots written are reported"""
    target = PRIO + ":PrioritizedReplayBuffer.update"
    trusted = TRUST + ("ReplayBuffer.update through its contract (P03)",)

    @property
    def overrides(self):
        return {BASE + ":ReplayBuffer.update": lambda c, args, kw: self.parent(c, args, kw, lambda c, ix: ix)}

    def params(self, c, case):
        return dict(self=self.buffer(c), buffer=Opaque("buffer"))

    def same(self, res):
        return res is self.ix


class PrioReset(_Prio):
    """reset forgets every priority: all leaves zero, so nothing that was discarded can be drawn"""
    target = PRIO + ":PrioritizedReplayBuffer.reset"
    argorder = ("self", "keep_statistics")

    @property
    def overrides(self):
        def tree(c, args, kw):
            W = Weights(c, args[0], "w_new")
            f = W.arr.snap()
            c.assume(c.forall(lambda j: f(j) == 0, 0, W.n))       # contract TreeInit
            return W
        return {"tianshou.data.utils.segtree:SegmentTree": tree}

    def params(self, c, case):
        return dict(self=self.buffer(c), keep_statistics=c.Bool("keep"))

    def post(self, c, a, old, res):
        W = a["self"].fields["weight"]
        f = W.arr.snap()
        return [("no-priority-left", z3.And(I(W.n) == self.r.cap, c.forall(lambda j: f(j) == 0, 0, self.r.cap))), ("empty", I(a["self"].fields["_size"]) == 0)]


PROOFS = {"P09": [InitWeight, UpdateWeight, GetWeight, SetBeta, PrioSample, PrioAdd, PrioUpdate, PrioReset]}
LEMMAS = {"P09": [priority_lemmas]}
