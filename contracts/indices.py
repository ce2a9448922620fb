"""P27: contracts on ReplayBuffer.get_buffer_indices and its edge helper (any sub-buffer layout)."""
import z3
from pyvc.values import *
from pyvc.engine import *

BASE = "tianshou.data.buffer.base"


def buf(c, cls="ReplayBuffer"):
    """a buffer of which only the sub-buffer edges matter; edges are given by the real subbuffer_edges property of the
    plain buffer, or by an arbitrary strictly increasing edge array (what the manager's property returns: Edges below)"""
    m = Module.get(BASE)
    return c.reg(Obj(c.it.ver.get_class(m, m.defs["ReplayBuffer"])), "buffer")


def layout(c, a):
    e, m = a["_e"].snap(), a["_m"]
    return [("layout", z3.And(m >= 1, e(0) == 0)),
            ("edges-increase", c.forall(lambda i: e(i) < e(i + 1), 0, m)),
            # consequence by induction (EdgesMonotone lemma), given to the solver directly
            ("edges-monotone", z3.ForAll([z3.Int("?p"), z3.Int("?q")], z3.Implies(
                z3.And(0 <= z3.Int("?p"), z3.Int("?p") < z3.Int("?q"), z3.Int("?q") <= m), e(z3.Int("?p")) < e(z3.Int("?q"))),
                patterns=[z3.MultiPattern(e(z3.Int("?p")), e(z3.Int("?q")))]))]


def edge_override(c, args, kw):
    return c.case_args["_e"]


class EdgeCrossing(Contract):
    """the two slices of an interval that wraps around its sub-buffer"""
    target = BASE + ":ReplayBuffer._get_start_stop_tuples_for_edge_crossing_interval"
    argorder = ("self", "start", "stop")
    overrides = {BASE + ":ReplayBuffer.subbuffer_edges": edge_override}

    def params(self, c, case):
        m = c.Int("m")
        a = dict(self=buf(c), start=c.Int("start"), stop=c.Int("stop"), _m=m, _e=c.arr("edges", (m + 1,), "int"), _s=c.Int("sub"))
        c.case_args = a
        return a

    def bind_ghost(self, c, a):
        a.update({k: c.case_args[k] for k in ("_m", "_e", "_s")})

    def pre(self, c, a):
        e, s = a["_e"].snap(), a["_s"]
        st, sp = I(a["start"]), I(a["stop"])
        # the caller has checked that start and stop-1 lie in the same sub-buffer s
        return layout(c, a) + [("same-subbuffer", z3.And(0 <= s, s < a["_m"], e(s) <= st, st < e(s + 1), e(s) <= sp - 1, sp - 1 < e(s + 1)))]

    def raises(self, c, a, old):
        return [("ValueError", I(a["stop"]) > I(a["start"]))]

    def post(self, c, a, old, res):
        e, s = a["_e"].snap(), a["_s"]
        (p, q), (r, t) = res
        return [("first-slice", z3.And(I(p) == I(a["start"]), I(q) == e(s + 1))), ("second-slice", z3.And(I(r) == e(s), I(t) == I(a["stop"])))]

    def result(self, c, a):
        return ((c.Int("p"), c.Int("q")), (c.Int("r"), c.Int("t")))


class GetBufferIndices(Contract):
    """exactly the positions start..stop-1 of one sub-buffer, wrapping at its end; different sub-buffers rejected"""
    target = BASE + ":ReplayBuffer.get_buffer_indices"
    argorder = ("self", "start", "stop")
    uses = (EdgeCrossing,)
    overrides = {BASE + ":ReplayBuffer.subbuffer_edges": edge_override}

    def params(self, c, case):
        return EdgeCrossing.params(self, c, case)

    def pre(self, c, a):
        e, s, m = a["_e"].snap(), a["_s"], a["_m"]
        st, sp = a["start"], a["stop"]
        # s names start's sub-buffer (exists because start is a position of the buffer)
        return layout(c, a) + [("positions", z3.And(0 <= s, s < m, e(s) <= st, st < e(s + 1), 1 <= sp, sp <= e(m)))]

    def same(self, a):
        e, s = a["_e"].snap(), a["_s"]
        return z3.And(e(s) < a["stop"], a["stop"] <= e(s + 1))

    def raises(self, c, a, old):
        return [("ValueError", z3.Not(self.same(a)))]

    def post(self, c, a, old, res):
        e, s = a["_e"].snap(), a["_s"]
        st, sp, r = a["start"], a["stop"], res.snap()
        n = I(res.shape[0])
        cap = e(s + 1) - e(s)
        return [("length", n == z3.If(sp > st, sp - st, sp - st + cap)),
                ("positions-in-order", c.forall(lambda k: r(k) == z3.If(st + k < e(s + 1), st + k, st + k - cap), 0, n)),
                ("inside-the-subbuffer", c.forall(lambda k: z3.And(e(s) <= r(k), r(k) < e(s + 1)), 0, n)),
                ("each-once", c.forall2(lambda p, q: z3.Implies(z3.And(0 <= p, p < q, q < n), r(p) != r(q))))]


class PlainEdges(Contract):
    """the plain buffer's layout is one sub-buffer [0, maxsize)"""
    target = BASE + ":ReplayBuffer.subbuffer_edges"

    def params(self, c, case):
        o = buf(c)
        o.fields["maxsize"] = c.Int("maxsize")
        return dict(self=o, _n=o.fields["maxsize"])

    def pre(self, c, a):
        return [("size", a["_n"] >= 1)]

    def post(self, c, a, old, res):
        return [("edges", z3.And(I(res.shape[0]) == 2, res.f(0) == 0, res.f(1) == a["_n"]))]


class ManagerEdges(Contract):
    """the manager answers with the layout its constructor computed (offsets and total: P07)"""
    target = "tianshou.data.buffer.manager:ReplayBufferManager.subbuffer_edges"

    def params(self, c, case):
        m = Module.get("tianshou.data.buffer.manager")
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["ReplayBufferManager"])), "manager")
        n = c.nat("m")
        o.fields.update(_extend_offset=c.arr("ext", (n + 1,), "int"))
        return dict(self=o, _n=n)

    def post(self, c, a, old, res):
        n, f = a["_n"], old["self"].fields["_extend_offset"].snap()
        r = res.snap()
        return [("length", I(res.shape[0]) == n + 1), ("edges", c.forall(lambda i: r(i) == f(i), 0, n + 1))]


def lemmas(ver):
    e = z3.Function("e", z3.IntSort(), z3.IntSort())
    p, q = z3.Ints("p q")
    return ver.lemma("EdgesMonotone", "step", [e(p) < e(q), e(q) < e(q + 1)], e(p) < e(q + 1))


PROOFS = {"P27": [EdgeCrossing, GetBufferIndices, PlainEdges, ManagerEdges]}
LEMMAS = {"P27": [lemmas]}
