"""P14: BasePolicy.map_action / map_action_inverse on symbolic bounds and actions of any dimension (real arithmetic)."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import *

PB = "tianshou.policy.base"
EPS = Fraction(2) ** -23     # np.finfo(np.float32).eps


class Space(Model):
    """gymnasium space: Box carries low/high arrays; any other space carries nothing the mapping may look at"""
    def __init__(self, c, kind, low=None, high=None):
        self.pytype = (kind, "Space")
        self.low, self.high = low, high
        c.reg(self, "space")

    def m_snap(self, memo):
        r = object.__new__(Space)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        for n in ("low", "high"):
            if isinstance(getattr(self, n), Arr):
                setattr(r, n, snapshot(getattr(self, n), memo))
        return r

    def m_getattr(self, c, name):
        if name in ("low", "high") and getattr(self, name) is not None:
            return getattr(self, name)
        raise PyRaise("AttributeError", name)


class Base(Contract):
    shape = "vector"

    def make(self, c, kind, scaling, bound, shape):
        m = Module.get(PB)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["BasePolicy"])), "policy")
        self.d = d = c.Int("d")
        self.B = b = c.Int("B")
        c.assume(d >= 1, b >= 1)
        lo, hi = (c.arr("low", (d,), "real"), c.arr("high", (d,), "real")) if kind == "Box" else (None, None)
        act = c.arr("act", (d,) if shape == "vector" else (b, d), "real" if kind == "Box" else "int")
        o.fields.update(action_space=Space(c, kind, lo, hi), action_scaling=scaling, action_bound_method=bound)
        return dict(self=o, act=act)

    def all_entries(self, c, fn):
        """for every component (and row): fn(indices of the entry, component)"""
        if self.sh == "vector":
            return c.forall(lambda i: fn((i,), i), 0, self.d)
        i, j = z3.Int(c.fresh_name("?r")), z3.Int(c.fresh_name("?c"))
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.B, 0 <= j, j < self.d), B(fn((i, j), j))))

    def unaltered(self, c, a, old):
        x, y = a["act"].snap(), old["act"].snap()
        out = [("the-action-itself-is-not-altered", self.all_entries(c, lambda ix, j: x(*ix) == y(*ix)))]
        sp, osp = a["self"].fields["action_space"], old["self"].fields["action_space"]
        if sp.low is not None:
            for n in ("low", "high"):
                f, g = getattr(sp, n).snap(), getattr(osp, n).snap()
                out.append((f"{n}-not-altered", c.forall(lambda i: f(i) == g(i), 0, self.d)))
        return out


TANH_AXIOMS = "tanh maps into (-1, 1) and is inverted by (log(1+y) - log(1-y))/2 on (-1, 1) (real analysis)"


def tanh_facts(c):
    y = z3.Real("?y")
    x = z3.Real("?x")
    return [z3.ForAll([x], z3.And(TANHF(x) > -1, TANHF(x) < 1), patterns=[TANHF(x)]),
            z3.ForAll([y], z3.Implies(z3.And(y > -1, y < 1), TANHF((LOGF(1 + y) - LOGF(1 - y)) / 2) == y), patterns=[z3.MultiPattern(LOGF(1 + y), LOGF(1 - y))])]


class MapAction(Base):
    """bounded first (clip or tanh), then affinely scaled to the bounds; always inside them; the input stays as it was"""
    target = PB + ":BasePolicy.map_action"
    cases = tuple((k, sc, b, sh) for k in ("Box", "Discrete") for sc in ((True, False) if k == "Box" else (False,))
                  for b in (("clip", "tanh", None) if k == "Box" else ("clip", None)) for sh in ("vector", "batch"))
    trusted = (TANH_AXIOMS, "to_numpy of an array is that array")
    overrides = {"tianshou.data.utils.converter:to_numpy": lambda c, a, k: a[0]}

    def params(self, c, case):
        self.sh = case[3]
        return self.make(c, *case)

    def pre(self, c, a):
        self.f0 = a["act"].snap()
        sp = a["self"].fields["action_space"]
        out = [("tanh", x) for x in tanh_facts(c)] if c.case[2] == "tanh" else []
        if sp.low is not None:
            lo, hi = sp.low.snap(), sp.high.snap()
            out.append(("bounds-ordered", c.forall(lambda j: lo(j) <= hi(j), 0, self.d)))
        return out

    def raises(self, c, a, old):
        kind, sc, bound, sh = c.case
        if kind == "Box" and sc and bound is None:
            # an unbounded raw action is refused, not silently sent outside the bounds
            f = old["act"].snap()
            return [("AssertionError", z3.Not(self.all_entries(c, lambda ix, j: z3.And(f(*ix) >= -1, f(*ix) <= 1))))]
        return []

    def post(self, c, a, old, res):
        kind, sc, bound, sh = c.case
        r, f = res.snap(), old["act"].snap()
        out = self.unaltered(c, a, old)
        out.append(("same-shape", z3.And(*[I(x) == I(y) for x, y in zip(res.shape, old["act"].shape)]) if len(res.shape) == len(old["act"].shape) else z3.BoolVal(False)))
        if kind != "Box":
            return out + [("discrete-actions-pass-through", self.all_entries(c, lambda ix, j: r(*ix) == f(*ix)))]
        b = {"clip": lambda x: z3.If(x < -1, z3.RealVal(-1), z3.If(x > 1, z3.RealVal(1), x)), "tanh": TANHF, None: lambda x: x}[bound]
        if not sc:
            return out + [("bounded-only", self.all_entries(c, lambda ix, j: r(*ix) == b(f(*ix))))]
        sp = old["self"].fields["action_space"]
        lo, hi = sp.low.snap(), sp.high.snap()
        out.append(("affine-in-the-bounded-action", self.all_entries(c, lambda ix, j: r(*ix) == lo(j) + (hi(j) - lo(j)) * (b(f(*ix)) + 1) / 2)))
        out.append(("within-the-bounds", self.all_entries(c, lambda ix, j: z3.And(lo(j) <= r(*ix), r(*ix) <= hi(j)))))
        return out


def finfo(c, a, k):
    e = Rec(c, "finfo", dict(), pytype=("finfo",))
    e.fields["eps"] = Rec(c, "eps", dict(item=Prim("item", lambda cc, aa, kk: EPS)), pytype=("floating",))
    return e


class MapInverse(Base):
    """inverse(a) is a model-side action that map_action sends back to a, for every a strictly inside bounds at least eps apart"""
    target = PB + ":BasePolicy.map_action_inverse"
    cases = tuple((k, sc, b, sh) for k in ("Box", "Discrete") for sc in ((True, False) if k == "Box" else (False,))
                  for b in (("clip", "tanh", None) if k == "Box" else (None,)) for sh in ("vector", "batch"))
    trusted = (TANH_AXIOMS, "to_numpy of an array is that array", "np.finfo(float32).eps is 2**-23")
    overrides = {"tianshou.data.utils.converter:to_numpy": lambda c, a, k: a[0]}
    externals = {"numpy.finfo": finfo}

    def params(self, c, case):
        self.sh = case[3]
        return self.make(c, *case)

    def pre(self, c, a):
        kind, sc, bound, sh = c.case
        f = a["act"].snap()
        out = [("tanh", x) for x in tanh_facts(c)] if bound == "tanh" else []
        if kind == "Box":
            sp = a["self"].fields["action_space"]
            lo, hi = sp.low.snap(), sp.high.snap()
            out.append(("bounds-apart", c.forall(lambda j: hi(j) - lo(j) >= z3.RealVal(EPS), 0, self.d)))
            if sc:
                out.append(("strictly-inside", self.all_entries(c, lambda ix, j: z3.And(lo(j) < f(*ix), f(*ix) < hi(j)))))
            elif bound == "tanh":
                out.append(("inside-tanh-range", self.all_entries(c, lambda ix, j: z3.And(-1 < f(*ix), f(*ix) < 1))))
        return out

    def post(self, c, a, old, res):
        kind, sc, bound, sh = c.case
        r, f = res.snap(), old["act"].snap()
        out = self.unaltered(c, a, old)
        if kind != "Box":
            return out + [("discrete-actions-pass-through", self.all_entries(c, lambda ix, j: r(*ix) == f(*ix)))]
        sp = old["self"].fields["action_space"]
        lo, hi = sp.low.snap(), sp.high.snap()
        norm = (lambda ix, j: (f(*ix) - lo(j)) * 2 / (hi(j) - lo(j)) - 1) if sc else (lambda ix, j: f(*ix))
        if bound == "tanh":
            out.append(("atanh-of-the-normalised-action", self.all_entries(c, lambda ix, j: r(*ix) == (LOGF(1 + norm(ix, j)) - LOGF(1 - norm(ix, j))) / 2)))
        else:
            out.append(("normalised-action", self.all_entries(c, lambda ix, j: r(*ix) == norm(ix, j))))
        return out


def lemmas(ver):
    """map(inverse(a)) == a from the two contracts, and the three anchor points; all for arbitrary bounds"""
    lo, hi, a, x = z3.Reals("lo hi a x")
    n = (a - lo) * 2 / (hi - lo) - 1
    back = lambda u: lo + (hi - lo) * (u + 1) / 2
    clip = z3.If(n < -1, z3.RealVal(-1), z3.If(n > 1, z3.RealVal(1), n))
    at = (LOGF(1 + n) - LOGF(1 - n)) / 2
    ok = ver.lemma("RoundTrip", "normalised-action-inside-minus-one-one", [lo < a, a < hi], z3.And(n > -1, n < 1))
    ok &= ver.lemma("RoundTrip", "clip", [lo < a, a < hi, n > -1, n < 1], back(clip) == a)
    ok &= ver.lemma("RoundTrip", "tanh", [lo < a, a < hi, z3.Implies(z3.And(n > -1, n < 1), TANHF(at) == n), n > -1, n < 1], back(TANHF(at)) == a)
    ok &= ver.lemma("Anchors", "minus-one-zero-one", [], z3.And(back(z3.RealVal(-1)) == lo, back(z3.RealVal(0)) == (lo + hi) / 2, back(z3.RealVal(1)) == hi))
    return ok


PROOFS = {"P14": [MapAction, MapInverse]}
LEMMAS = {"P14": [lemmas]}
