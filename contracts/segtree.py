"""P01/P02: contracts on tianshou/data/utils/segtree.py (all sizes, all index arrays, all iterations)."""
import z3
from pyvc.values import *
from pyvc.engine import *

MOD = "tianshou.data.utils.segtree"
P2 = z3.Function("p2", z3.IntSort(), z3.IntSort())


def p2_at(*ks):
    """ground instances of the definition of 2^k (definitional: P2(0)=1, P2(k)=2*P2(k-1) for k>=1) and of P2>=1"""
    r = [P2(0) == 1]
    for k in ks:
        k = I(k)
        r += [z3.Implies(k >= 1, P2(k) == 2 * P2(k - 1)), z3.Implies(k >= 0, P2(k) >= 1),
              z3.Implies(k >= 1, P2(k - 1) >= 1)]
    return r


FIRST = z3.Function("first", z3.IntSort(), z3.IntSort(), z3.IntSort())


def first_at(b, *ls):
    """FIRST(l, q) = q * 2^l - b, the first leaf under node q at height l, through its linear recursion (definitional)"""
    q = z3.Int("q?first")
    r = [z3.ForAll([q], FIRST(0, q) == q - b, patterns=[FIRST(0, q)])]
    for l in ls:
        l1 = z3.simplify(I(l) + 1)
        r.append(z3.Implies(I(l) >= 0, z3.ForAll([q], FIRST(l1, q) == FIRST(l, 2 * q))))
    return r


class Tree:
    """ghost description of a well formed tree: bound = 2^H, prefix sums P of the leaves"""
    def __init__(self, c, nm="tree"):
        self.H = c.nat("H")
        self.bound = c.Int("bound")
        self.arr = c.arr(nm, (2 * self.bound,), "real")
        self.P = z3.Function(c.fresh_name("P"), z3.IntSort(), z3.RealSort())
        self.arr.meta["T"] = self

    def wf(self, c, leaves=True):
        t, P, b = self.arr.snap(), self.P, self.bound
        r = [("bound-is-power-of-two", z3.And(b == P2(self.H), b >= 1, *p2_at(self.H))),
             ("heap", c.forall(lambda i: t(i) == t(2 * i) + t(2 * i + 1), 1, b))]
        if leaves:
            r += [("prefix-sums", z3.And(P(0) == 0, c.forall(lambda i: P(i + 1) == P(i) + t(b + i), 0, b)))]
        return r

    def node_lemma(self, c, V, l):
        """instance at height l of the node-sum lemma (proved by induction in `lemmas`): V = 2^(H-l) is the first node"""
        t, P = self.arr.snap(), self.P
        q = z3.Int(c.fresh_name("?q"))
        return z3.ForAll([q], z3.Implies(z3.And(V <= q, q < 2 * V), t(q) == P(FIRST(l, q + 1)) - P(FIRST(l, q))),
                         patterns=[t(q)])


def lemmas(ver):
    """node-sum lemma by induction on the height; monotone powers; monotone prefix sums"""
    I_, R_ = z3.IntSort(), z3.RealSort()
    t = z3.Function("t", I_, R_)
    P = z3.Function("P", I_, R_)
    b, H, l, V, q, i, V2 = z3.Ints("b H l V q i V2")
    base = [z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < b), t(i) == t(2 * i) + t(2 * i + 1))),
            P(0) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b), P(i + 1) == P(i) + t(b + i)))]
    ok = ver.lemma("NodeSumLemma", "base: height-0 nodes are leaves", base + [b <= q, q < 2 * b, b >= 1,
                   FIRST(0, q) == q - b, FIRST(0, q + 1) == q + 1 - b],
                   t(q) == P(FIRST(0, q + 1)) - P(FIRST(0, q)))
    ih = z3.ForAll([i], z3.Implies(z3.And(V <= i, i < 2 * V), t(i) == P(FIRST(l, i + 1)) - P(FIRST(l, i))))
    ok &= ver.lemma("NodeSumLemma", "step: a parent spans its two children",
                    base + [ih, V == 2 * V2, V2 >= 1, V <= b, V2 <= q, q < 2 * V2,
                            FIRST(l + 1, q) == FIRST(l, 2 * q), FIRST(l + 1, q + 1) == FIRST(l, 2 * (q + 1))],
                    t(q) == P(FIRST(l + 1, q + 1)) - P(FIRST(l + 1, q)))
    ok &= ver.lemma("FirstIsLinear", "FIRST(l,q) = q*2^l - b: step", [P2(l + 1) == 2 * P2(l),
                    FIRST(l + 1, q) == FIRST(l, 2 * q), FIRST(l, 2 * q) == 2 * q * P2(l) - b],
                    FIRST(l + 1, q) == q * (2 * P2(l)) - b)
    x = z3.Int("x")
    ok &= ver.lemma("PowerMonotone", "step", [P2(l) <= P2(H), P2(H + 1) == 2 * P2(H), P2(H) >= 1], P2(l) <= P2(H + 1))
    ok &= ver.lemma("PrefixMonotone", "step", [P(q) <= P(i), i >= q, P(i + 1) == P(i) + t(b + i), t(b + i) >= 0],
                    P(q) <= P(i + 1))
    return ok


class SetItem(Contract):
    """whole-tree repair after a scatter into the leaves"""
    target = MOD + ":_setitem"
    cases = ("array", "scalar")
    argorder = ("tree", "index", "value")

    def params(self, c, case):
        T = Tree(c)
        n = c.nat("n")
        idx = c.arr("index", (n,), "int")
        v = c.arr("value", (n,), "real") if case == "array" else c.Real("value")
        return dict(tree=T.arr, index=idx, value=v, _T=T, _n=n)

    def pre(self, c, a):
        T, n = a["_T"], a["_n"]
        idx = a["index"].snap()
        return T.wf(c, leaves=False) + [
            ("n", n >= 0),
            ("index-in-leaves", c.forall(lambda k: z3.And(T.bound <= idx(k), idx(k) < 2 * T.bound), 0, n))]

    def _inv(c, L):
        a = c.case_args
        T, n = a["_T"], a["_n"]
        t, b = L.tree.snap(), T.bound
        old = c.old["tree"].snap()
        first = L.pre.tree.snap()
        idx = L.index.snap()
        V, l = L.g["V"], L.g["l"]
        return [
            ("level", z3.And(V == P2(T.H - l), 0 <= l, l <= T.H, V >= 1, V <= b)),
            ("index-level", c.forall(lambda k: z3.And(V <= idx(k), idx(k) < 2 * V), 0, n)),
            ("below-untouched", c.forall(lambda j: t(j) == old(j), 1, V)),
            ("heap-above", c.forall(lambda i: t(i) == t(2 * i) + t(2 * i + 1), V, b)),
            ("leaves", c.forall(lambda j: t(j) == first(j), b, 2 * b)),
            ("level-others-untouched", c.forall(
                lambda j: z3.Or(t(j) == old(j), c.exists(lambda k: idx(k) == j, 0, n)), V, 2 * V)),
        ]

    loops = {0: Loop(_inv, ghost=lambda c, L: {"V": c.case_args["_T"].bound, "l": z3.IntVal(0)},
                     step=lambda c, L: (L.g.update(V=L.g["V"] / 2, l=L.g["l"] + 1)),
                     hint=lambda c, L: p2_at(c.case_args["_T"].H - L.g["l"]),
                     variant=lambda c, L: L.g["V"])}

    def prepare(self, c, a):
        c.case_args = a
        c.old = snapshot(a)

    def post(self, c, a, old, res):
        T, n = a["_T"], a["_n"]
        t, o, idx = a["tree"].snap(), old["tree"].snap(), old["index"].snap()
        val = old["value"].snap() if isinstance(old["value"], Arr) else (lambda k: old["value"])
        b = T.bound
        q = z3.Int(c.fresh_name("?k"))
        return [("heap", c.forall(lambda i: t(i) == t(2 * i) + t(2 * i + 1), 1, b)),
                ("written-leaves", c.forall(lambda k: z3.Implies(
                    c.forall(lambda m: idx(m) != idx(k), k + 1, n), t(idx(k)) == val(k)), 0, n)),
                ("other-leaves", c.forall(lambda j: z3.Or(t(j) == o(j), c.exists(lambda k: idx(k) == j, 0, n)), b, 2 * b))]

    # used as a callee
    def bind_ghost(self, c, a):
        a["_T"], a["_n"] = a["tree"].meta["T"], I(a["index"].shape[0])

    def modifies(self, c, a):
        return [a["tree"], a["index"]]


class Reduce(Contract):
    """two-cursor aggregation over (start, end) exclusive"""
    target = MOD + ":_reduce"
    argorder = ("tree", "start", "end")

    def params(self, c, case):
        T = Tree(c)
        return dict(tree=T.arr, start=c.Int("start"), end=c.Int("end"), _T=T)

    def bind_ghost(self, c, a):
        """as a callee: the ghost tree is attached to the array"""
        a["_T"] = a["tree"].meta["T"]

    def pre(self, c, a):
        T = a["_T"]
        return T.wf(c) + [("range", z3.And(T.bound - 1 <= a["start"], a["start"] < a["end"], a["end"] <= 2 * T.bound))]

    def prepare(self, c, a):
        c.case_args = a

    def _inv(c, L):
        T = c.case_args["_T"]
        b, P = T.bound, T.P
        V, l, r = L.g["V"], L.g["l"], R(L.result)
        s0, e0 = I(L.pre.start), I(L.pre.end)
        s, e = I(L.start), I(L.end)
        total = P(e0 - b) - P(s0 + 1 - b)
        # the root itself may be consumed, which leaves the cursors at (0, 1) one level above it
        above = z3.And(l == T.H + 1, V == 0, s == 0, e == 1)
        return [("level", z3.Or(above, z3.And(V == P2(T.H - l), 0 <= l, l <= T.H, V >= 1, V <= b))),
                ("cursor-range", z3.Or(above, z3.And(V - 1 <= s, s < e, e <= 2 * V))),
                ("partial-sum", r + P(FIRST(l, e)) - P(FIRST(l, s + 1)) == total)]

    def _step(c, L):
        L.g.update(V=L.g["V"] / 2, l=L.g["l"] + 1)

    def _hint(c, L):
        T = c.case_args["_T"]
        V, l = L.g["V"], L.g["l"]
        return p2_at(T.H - l) + first_at(T.bound, l) + [T.node_lemma(c, V, l)]

    loops = {0: Loop(_inv, ghost=lambda c, L: {"V": c.case_args["_T"].bound, "l": z3.IntVal(0)},
                     setup=lambda c, L: c.assume(*first_at(c.case_args["_T"].bound)),
                     step=_step, hint=_hint, variant=lambda c, L: I(L.end) - I(L.start))}

    def post(self, c, a, old, res):
        T = a["_T"]
        return [("sum-of-the-interval", R(res) == T.P(I(a["end"]) - T.bound) - T.P(I(a["start"]) + 1 - T.bound))]

    def result(self, c, a):
        return c.Real("red")


class PrefixSumIdx(Contract):
    """descending walk: smallest leaf whose inclusive prefix sum reaches the query"""
    target = MOD + ":_get_prefix_sum_idx"
    argorder = ("value", "bound", "sums")

    def params(self, c, case):
        T = Tree(c, "sums")
        n = c.Int("n")
        return dict(value=c.arr("value", (n,), "real"), bound=T.bound, sums=T.arr, _T=T, _n=n)

    def pre(self, c, a):
        T, n = a["_T"], a["_n"]
        v, t = a["value"].snap(), T.arr.snap()
        return T.wf(c) + [("n", n >= 1),
                          ("leaves-non-negative", c.forall(lambda j: t(T.bound + j) >= 0, 0, T.bound)),
                          ("query-range", c.forall(lambda k: z3.And(v(k) >= 0, v(k) < T.P(T.bound)), 0, n))]

    def bind_ghost(self, c, a):
        a["_T"], a["_n"] = a["sums"].meta["T"], I(a["value"].shape[0])

    def modifies(self, c, a):
        return [a["value"]]

    def result(self, c, a):
        return c.arr("leaf", (a["_n"],), "int")

    def prepare(self, c, a):
        c.case_args = a

    def _inv(c, L):
        a = c.case_args
        T, n = a["_T"], a["_n"]
        b, P = T.bound, T.P
        V, l = L.g["V"], L.g["l"]
        v0, v, idx = L.pre.value.snap(), L.value.snap(), L.index.snap()
        return [("level", z3.And(V == P2(T.H - l), 0 <= l, l <= T.H, V >= 1, V <= b, FIRST(l, V) == 0)),
                ("index-level", c.forall(lambda k: z3.And(V <= idx(k), idx(k) < 2 * V), 0, n)),
                ("remaining-mass", c.forall(lambda k: v(k) == v0(k) - P(FIRST(l, idx(k))), 0, n)),
                ("lower", c.forall(lambda k: z3.Or(idx(k) == V, P(FIRST(l, idx(k))) < v0(k)), 0, n)),
                ("upper", c.forall(lambda k: v0(k) <= P(FIRST(l, idx(k) + 1)), 0, n))]

    def _step(c, L):
        L.g.update(V=2 * L.g["V"], l=L.g["l"] - 1)

    def _setup(c, L):
        T = c.case_args["_T"]
        # FIRST(H, q) = q*2^H - b (FirstIsLinear) at q = 1, 2
        c.assume(P2(0) == 1, FIRST(T.H, 1) == 0, FIRST(T.H, 2) == T.bound)

    def _hint(c, L):
        T = c.case_args["_T"]
        V, l = L.g["V"], L.g["l"]
        q = z3.Int(c.fresh_name("?q"))
        return [T.node_lemma(c, V, l), z3.Implies(l >= 1, T.node_lemma(c, 2 * V, l - 1)),
                z3.ForAll([q], z3.Implies(l >= 1, FIRST(l, q) == FIRST(l - 1, 2 * q)), patterns=[FIRST(l, q)]),
                z3.Implies(l >= 1, P2(T.H - l + 1) == 2 * P2(T.H - l)),
                z3.Implies(l >= 1, P2(T.H - l + 1) <= P2(T.H))] + first_at(T.bound)      # PowerMonotone

    loops = {0: Loop(_inv, ghost=lambda c, L: {"V": z3.IntVal(1), "l": c.case_args["_T"].H},
                     setup=_setup, step=_step, hint=_hint, variant=lambda c, L: L.g["l"])}

    def post(self, c, a, old, res):
        T, n = a["_T"], a["_n"]
        v0, r = old["value"].snap(), res.snap()
        return [("length", I(res.shape[0]) == n),
                ("is-a-leaf", c.forall(lambda k: z3.And(0 <= r(k), r(k) < T.bound), 0, n)),
                ("prefix-reaches-query", c.forall(lambda k: v0(k) <= T.P(r(k) + 1), 0, n)),
                ("no-earlier-leaf-reaches-query", c.forall(lambda k: z3.Or(r(k) == 0, T.P(r(k)) < v0(k)), 0, n))]


# ------------------------------------------------------------------------------------------------ the class
def tree_obj(c, it):
    """a SegmentTree in an arbitrary well-formed state (what __init__ establishes and every method preserves)"""
    cls = it.ver.get_class(Module.get(MOD), Module.get(MOD).defs["SegmentTree"])
    T = Tree(c, "_value")
    size = c.Int("size")
    o = c.reg(Obj(cls, dict(_size=size, _bound=T.bound, _value=T.arr)), "tree")
    return o, T, size


def size_inv(c, T, size):
    # bound = smallest power of two >= size, and padding leaves are zero
    t = T.arr.snap()
    return [("size", z3.And(size >= 1, size <= T.bound)),
            ("padding-is-zero", c.forall(lambda j: t(T.bound + j) == 0, size, T.bound))]


class TreeInit(Contract):
    target = MOD + ":SegmentTree.__init__"

    def params(self, c, case):
        cls = c.it.ver.get_class(Module.get(MOD), Module.get(MOD).defs["SegmentTree"])
        return dict(self=c.reg(Obj(cls), "tree"), size=c.Int("size"))

    def pre(self, c, a):
        return [("size", a["size"] >= 1)]

    # _compile only warms the JIT on throw-away arrays
    overrides = {MOD + ":SegmentTree._compile": lambda c, args, kw: None}

    def _inv(c, L):
        return [("power", z3.And(I(L.bound) == P2(L.g["h"]), L.g["h"] >= 0, I(L.bound) >= 1)),
                ("smallest", z3.Or(I(L.bound) == 1, I(L.bound) < 2 * I(L.size)))]
    loops = {0: Loop(_inv, ghost=lambda c, L: {"h": z3.IntVal(0)}, step=lambda c, L: L.g.update(h=L.g["h"] + 1),
                     setup=lambda c, L: c.assume(*p2_at(0)), hint=lambda c, L: p2_at(L.g["h"], L.g["h"] + 1),
                     variant=lambda c, L: 2 * I(L.size) - I(L.bound))}

    def post(self, c, a, old, res):
        o = a["self"]
        b, t, size = I(o.fields["_bound"]), o.fields["_value"].snap(), a["size"]
        return [("size", I(o.fields["_size"]) == size), ("room", b >= size),
                ("power-of-two", c.exists(lambda h: z3.And(h >= 0, b == P2(h)))),
                ("array-size", I(o.fields["_value"].shape[0]) == 2 * b),
                ("all-zero", c.forall(lambda j: t(j) == 0, 0, 2 * b)),
                ("heap", c.forall(lambda i: t(i) == t(2 * i) + t(2 * i + 1), 1, b))]


class TreeSetItem(Contract):
    """SegmentTree[index] = value"""
    target = MOD + ":SegmentTree.__setitem__"
    cases = ("scalar", "array", "array-scalar")
    uses = (SetItem,)
    argorder = ("self", "index", "value")

    def params(self, c, case):
        o, T, size = tree_obj(c, c.it)
        n = c.nat("n")
        if case == "scalar":
            idx, v = c.Int("index"), c.Real("value")
        else:
            idx = c.arr("index", (n,), "int")
            v = c.arr("value", (n,), "real") if case == "array" else c.Real("value")
        return dict(self=o, index=idx, value=v, _T=T, _size=size, _n=n)

    def pre(self, c, a):
        return a["_T"].wf(c, leaves=False) + size_inv(c, a["_T"], a["_size"])

    def in_range(self, c, old):
        i, size = old["index"], old["_size"]
        if isinstance(i, Arr):
            f = i.snap()
            return c.forall(lambda k: z3.And(0 <= f(k), f(k) < size), 0, old["_n"])
        return z3.And(0 <= i, i < size)

    def raises(self, c, a, old):
        return [("AssertionError", z3.Not(self.in_range(c, old)))]

    def post_exc(self, c, a, old, exc):
        t, o, b = a["_T"].arr.snap(), old["self"].fields["_value"].snap(), a["_T"].bound
        return [("nothing-changed", c.forall(lambda j: t(j) == o(j), 0, 2 * b))]

    def post(self, c, a, old, res):
        T = a["_T"]
        b, t, o = T.bound, a["self"].fields["_value"].snap(), old["self"].fields["_value"].snap()
        r = [("heap", c.forall(lambda i: t(i) == t(2 * i) + t(2 * i + 1), 1, b)),
             ("padding-is-zero", c.forall(lambda j: t(b + j) == 0, old["_size"], b)),
             ("same-shape", z3.And(I(a["self"].fields["_size"]) == old["_size"], I(a["self"].fields["_bound"]) == b))]
        if isinstance(old["index"], Arr):
            idx, n = old["index"].snap(), old["_n"]
            val = old["value"].snap() if isinstance(old["value"], Arr) else (lambda k: old["value"])
            now = a["index"].snap()
            return r + [
                ("last-value-wins", c.forall(lambda k: z3.Implies(
                    c.forall(lambda m: idx(m) != idx(k), k + 1, n), t(b + idx(k)) == val(k)), 0, n)),
                ("other-leaves", c.forall(lambda j: z3.Or(t(b + j) == o(b + j), c.exists(lambda k: idx(k) == j, 0, n)), 0, b)),
                ("caller's index array untouched", c.forall(lambda k: now(k) == idx(k), 0, n))]
        return r + [("written", t(b + old["index"]) == old["value"]),
                    ("other-leaves", c.forall(lambda j: z3.Implies(j != old["index"], t(b + j) == o(b + j)), 0, b))]


class TreeGetItem(Contract):
    target = MOD + ":SegmentTree.__getitem__"
    cases = ("scalar", "array")

    def params(self, c, case):
        o, T, size = tree_obj(c, c.it)
        n = c.nat("n")
        idx = c.Int("index") if case == "scalar" else c.arr("index", (n,), "int")
        return dict(self=o, index=idx, _T=T, _size=size, _n=n)

    def pre(self, c, a):
        i = a["index"]
        inr = c.forall(lambda k: z3.And(0 <= i(k), i(k) < a["_size"]), 0, a["_n"]) if isinstance(i, Arr) else \
            z3.And(0 <= i, i < a["_size"])
        return [("size", z3.And(a["_size"] >= 1, a["_size"] <= a["_T"].bound)), ("index", inr)]

    def post(self, c, a, old, res):
        t, b = old["self"].fields["_value"].snap(), a["_T"].bound
        if isinstance(a["index"], Arr):
            i = a["index"].snap()
            return [("length", I(res.shape[0]) == a["_n"]),
                    ("leaf-values", c.forall(lambda k: res(k) == t(b + i(k)), 0, a["_n"]))]
        return [("leaf-value", R(res) == t(b + a["index"]))]


class TreeReduce(Contract):
    """reduce(start, end): sum of the leaves in [start, end); negative ends count from the size, omitted = size"""
    target = MOD + ":SegmentTree.reduce"
    cases = ("all", "start", "interval")
    uses = (Reduce,)

    def params(self, c, case):
        o, T, size = tree_obj(c, c.it)
        a = dict(self=o, _T=T, _size=size)
        if case != "all":
            a["start"] = c.Int("start")
        if case == "interval":
            a["end"] = c.Int("end")
        return a

    def pre(self, c, a):
        T, size = a["_T"], a["_size"]
        r = T.wf(c) + size_inv(c, T, size)
        s = a.get("start", z3.IntVal(0))
        e = self.eff_end(a)
        return r + [("interval", z3.And(0 <= s, s <= e, e <= size)),
                    # NodeSumLemma at the root (height H): V = 1, FIRST(H,1) = 0, FIRST(H,2) = bound
                    ("node-lemma-at-root", z3.And(FIRST(T.H, 1) == 0, FIRST(T.H, 2) == T.bound,
                                                  T.node_lemma(c, z3.IntVal(1), T.H))),
                    # prefix sums over zero padding are constant (induction; PaddingLemma)
                    ("padding-lemma", c.forall(lambda j: T.P(j) == T.P(size), size, T.bound + 1))]

    def eff_end(self, a):
        e = a.get("end")
        return a["_size"] if e is None else z3.If(e < 0, e + a["_size"], e)

    def post(self, c, a, old, res):
        T = a["_T"]
        s = a.get("start", z3.IntVal(0))
        return [("interval-sum", R(res) == T.P(self.eff_end(a)) - T.P(s))]


class TreePrefix(Contract):
    target = MOD + ":SegmentTree.get_prefix_sum_idx"
    cases = ("scalar", "array")
    uses = (PrefixSumIdx,)

    def params(self, c, case):
        o, T, size = tree_obj(c, c.it)
        n = c.Int("n")
        v = c.Real("value") if case == "scalar" else c.arr("value", (n,), "real")
        return dict(self=o, value=v, _T=T, _size=size, _n=n)

    def pre(self, c, a):
        T, size = a["_T"], a["_size"]
        t = T.arr.snap()
        return T.wf(c) + size_inv(c, T, size) + [
            ("n", a["_n"] >= 1),
            ("leaves-non-negative", c.forall(lambda j: t(T.bound + j) >= 0, 0, T.bound)),
            ("node-lemma-at-root", z3.And(FIRST(T.H, 1) == 0, FIRST(T.H, 2) == T.bound,
                                          T.node_lemma(c, z3.IntVal(1), T.H))),
            ("padding-lemma", c.forall(lambda j: T.P(j) == T.P(size), size, T.bound + 1))]

    def in_range(self, c, old):
        T = old["_T"]
        v = old["value"]
        tot = T.P(T.bound)
        if isinstance(v, Arr):
            f = v.snap()
            return c.forall(lambda k: z3.And(0 <= f(k), f(k) < tot), 0, old["_n"])
        return z3.And(0 <= v, v < tot)

    def raises(self, c, a, old):
        return [("AssertionError", z3.Not(self.in_range(c, old)))]

    def post(self, c, a, old, res):
        T, size = a["_T"], a["_size"]
        P = T.P

        def ok(r, v):
            return z3.And(0 <= r, r < T.bound, z3.Implies(v > 0, r < size), v <= P(r + 1), z3.Or(r == 0, P(r) < v))
        if isinstance(a["value"], Arr):
            v, r = old["value"].snap(), res.snap()
            return [("smallest-leaf-whose-prefix-sum-reaches-the-query", c.forall(lambda k: ok(r(k), v(k)), 0, a["_n"]))]
        return [("smallest-leaf-whose-prefix-sum-reaches-the-query", ok(I(res), R(old["value"])))]


PROOFS = {"P01": [SetItem, Reduce, TreeInit, TreeSetItem, TreeGetItem, TreeReduce],
          "P02": [PrefixSumIdx, TreePrefix, SetItem, TreeInit]}
LEMMAS = {"P01": [lemmas], "P02": [lemmas]}
