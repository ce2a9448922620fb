"""P19: contracts on RunningMeanStd, MovAvg, SequenceSummaryStats."""
import z3
from pyvc.values import *
from pyvc.engine import *

MOD = "tianshou.utils.statistics"


def obj(c, name, **f):
    m = Module.get(MOD)
    return c.reg(Obj(c.it.ver.get_class(m, m.defs[name]), dict(f)), name)


# ------------------------------------------------------------------------------------------------ running mean / std
class RmsUpdate(Contract):
    """count*mean and count*(var+mean^2) stay the exact sums of all rows and of their squares, for any split into batches"""
    target = MOD + ":RunningMeanStd.update"
    cases = ("scalar statistic", "vector statistic")
    trusted = ("np.mean/np.var(axis=0): n*mean = sum, n*(var+mean^2) = sum of squares (definition)", "real arithmetic for float64")

    def params(self, c, case):
        n, d = c.Int("rows"), c.Int("d")
        cnt = c.Int("count")
        sh = () if case == "scalar statistic" else (d,)
        data = c.arr("data", (n,) + sh)
        if sh:
            mk = lambda nm: c.arr(nm, sh)
            g = lambda nm: z3.Function(c.fresh_name(nm), z3.IntSort(), z3.RealSort())
        else:
            mk = lambda nm: c.Real(nm)

            def g(nm):
                k = c.Real(nm)
                return lambda i=None: k
        a = dict(self=obj(c, "RunningMeanStd", mean=mk("mean"), var=mk("var"), count=cnt, clip_max=10.0, eps=c.Real("eps")), data_array=data,
                 _n=n, _d=d, _S=g("S1"), _Q=g("S2"), _B=g("B1"), _C=g("B2"), _bm=mk("bm"), _bv=mk("bv"), _sh=sh)
        return a

    @staticmethod
    def el(x, i):
        return R(x.f(i)) if isinstance(x, Arr) else R(x)

    def rel(self, c, a, mean, var, n, S, Q):
        """n*mean == S and n*(var + mean^2) == Q, componentwise"""
        f = lambda i: z3.And(R(n) * self.el(mean, i) == S(i), R(n) * (self.el(var, i) + self.el(mean, i) * self.el(mean, i)) == Q(i))
        return c.forall(f, 0, a["_d"]) if a["_sh"] else f(None)

    def pre(self, c, a):
        f = a["self"].fields
        n = a["_n"]
        i = None
        return [("sizes", z3.And(n >= 1, f["count"] >= 0, a["_d"] >= 1)),
                ("seen-so-far", self.rel(c, a, f["mean"], f["var"], f["count"], a["_S"], a["_Q"])),
                ("batch", self.rel(c, a, a["_bm"], a["_bv"], n, a["_B"], a["_C"]))]

    def prepare(self, c, a):
        def m(which):
            def f(cc, args, kw):
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                if args[0] is not a["data_array"] or ax != 0:
                    raise Unsupported(f"np.{which} of something else than the rows of the batch")
                return a["_bm"] if which == "mean" else a["_bv"]
            return f
        type(self).externals = self.externals = {"np.mean": m("mean"), "np.var": m("var"), "numpy.mean": m("mean"), "numpy.var": m("var")}

    def post(self, c, a, old, res):
        f, o = a["self"].fields, old["self"].fields
        n0, n = o["count"], a["_n"]
        T = R(n0) + R(n)
        out = [("count", I(f["count"]) == n0 + n)]
        j = c.Int("j")
        if a["_sh"]:
            out.append(("shape", z3.And(I(f["mean"].shape[0]) == a["_d"], I(f["var"].shape[0]) == a["_d"])))
            c.assume(0 <= j, j < a["_d"])
        # every quantity at the (arbitrary) component j
        m0, v0, bm, bv = (self.el(x, j) for x in (o["mean"], o["var"], a["_bm"], a["_bv"]))
        m1, v1 = self.el(f["mean"], j), self.el(f["var"], j)
        S = lambda F: F(j)
        c.assume(R(n0) * m0 == S(a["_S"]), R(n0) * (v0 + m0 * m0) == S(a["_Q"]), R(n) * bm == S(a["_B"]), R(n) * (bv + bm * bm) == S(a["_C"]))
        d = bm - m0
        out += [("mean-update", T * m1 == R(n0) * m0 + R(n) * bm),
                ("variance-update", T * v1 == R(n0) * v0 + R(n) * bv + d * (R(n) * (bm - m1))),
                ("sum-of-all-rows", T * m1 == S(a["_S"]) + S(a["_B"])),
                ("sum-of-squares-of-all-rows", T * (v1 + m1 * m1) == S(a["_Q"]) + S(a["_C"]))]
        return out


class RmsNorm(Contract):
    """(x - mean) / sqrt(var + eps), clipped to [-clip_max, clip_max]; statistics untouched"""
    target = MOD + ":RunningMeanStd.norm"
    cases = ("clip", "no clip", "clip array", "no clip array")
    trusted = ("sqrt uninterpreted (only equality of its argument matters)",)

    def params(self, c, case):
        n = c.nat("n")
        x = c.arr("x", (n,)) if "array" in case else c.Real("x")
        cm = c.Real("clip_max") if case.startswith("clip") else None
        return dict(self=obj(c, "RunningMeanStd", mean=c.Real("mean"), var=c.Real("var"), count=c.Int("count"), clip_max=cm, eps=c.Real("eps")),
                    data_array=x, _cm=cm, _n=n)

    def pre(self, c, a):
        f = a["self"].fields
        return [("variance", z3.And(f["var"] >= 0, f["eps"] > 0))] + ([("clip", a["_cm"] > 0)] if a["_cm"] is not None else [])

    def post(self, c, a, old, res):
        f = old["self"].fields
        s = SQRTF(f["var"] + f["eps"])
        cm = a["_cm"]

        def one(x, r):
            z = (R(x) - f["mean"]) / s
            if cm is not None:
                z = z3.If(z < -cm, -cm, z3.If(z > cm, cm, z))
            return R(r) == z
        g = a["self"].fields
        same = z3.And(*[g[k] == f[k] for k in ("mean", "var", "count", "eps")])
        x = a["data_array"]
        if isinstance(x, Arr):
            o = old["data_array"].snap()
            return [("normalised", c.forall(lambda i: one(o(i), res.f(i)), 0, a["_n"])), ("statistics-untouched", same),
                    ("input-untouched", c.forall(lambda i: x.f(i) == o(i), 0, a["_n"]))]
        return [("normalised", one(x, res)), ("statistics-untouched", same)]


# ------------------------------------------------------------------------------------------------ moving average
FIN = z3.Function("isfinite", z3.RealSort(), z3.BoolSort())


class MovAvgAdd(Contract):
    """the cache is the last `size` finite values of everything fed, in order"""
    target = MOD + ":MovAvg.add"
    cases = ("list", "array", "scalar")
    externals = {"np.isfinite": lambda c, a, k: FIN(R(a[0])), "numpy.isfinite": lambda c, a, k: FIN(R(a[0]))}
    overrides = {MOD + ":MovAvg.get": lambda c, a, k: c.ghost.setdefault("avg", c.Real("avg"))}
    trusted = ("np.isfinite as an uninterpreted test of the value",)

    def params(self, c, case):
        n0, n = c.nat("n0"), c.nat("n")
        cf = z3.Function(c.fresh_name("cache0"), z3.IntSort(), z3.RealSort())
        cache = c.reg(PList(None, n0, lambda i: cf(i), "real"), "cache")
        df = z3.Function(c.fresh_name("data"), z3.IntSort(), z3.RealSort())
        if case == "list":
            data = c.reg(PList(None, n, lambda i: df(i), "real"), "data")
        elif case == "array":
            data = c.lam((n,), lambda i: df(i), "real")
        else:
            n = z3.IntVal(1)
            data = c.Real("x")
            df = lambda i: data
        # rank of the k-th value among the accepted ones, and the accepted sequence (definitional)
        rk = z3.Function(c.fresh_name("RK"), z3.IntSort(), z3.IntSort())
        size = c.Int("size")
        a = dict(self=obj(c, "MovAvg", size=size, cache=cache), data_array=data, _n0=n0, _n=n, _cf=cf, _df=df, _rk=rk, _size=size)
        c.case_args = a
        return a

    def pre(self, c, a):
        r = [("size", a["_n0"] >= 0), ("rank0", a["_rk"](0) == 0)]
        if c.case == "scalar":
            r.append(("rank1", a["_rk"](1) == z3.If(FIN(a["_df"](0)), 1, 0)))
        return r + [("window", z3.Or(a["_size"] <= 0, a["_n0"] <= a["_size"]))]

    def seq_ok(self, c, a, cache, k):
        """cache == old cache ++ accepted values among the first k"""
        n0, cf, df, rk = a["_n0"], a["_cf"], a["_df"], a["_rk"]
        return [("length", z3.And(I(cache.n) == n0 + rk(k), rk(k) >= 0)),
                ("old-part", c.forall(lambda i: R(cache.f(i)) == cf(i), 0, n0)),
                ("accepted-part", c.forall(lambda j: z3.Implies(FIN(df(j)), z3.And(0 <= rk(j), rk(j) < rk(k), R(cache.f(n0 + rk(j))) == df(j))), 0, k))]

    def _inv(c, L):
        a = c.case_args
        return MovAvgAdd().seq_ok(c, a, a["self"].fields["cache"], L.k)

    def _hint(c, L):
        a = c.case_args
        rk, df = a["_rk"], a["_df"]
        return [rk(L.k + 1) == rk(L.k) + z3.If(FIN(df(L.k)), 1, 0)]

    loops = {0: Loop(_inv, hint=_hint)}

    def post(self, c, a, old, res):
        n0, n, cf, df, rk, size = (a[k] for k in ("_n0", "_n", "_cf", "_df", "_rk", "_size"))
        cache = a["self"].fields["cache"]
        tot = n0 + rk(n)
        ln = z3.If(z3.And(size > 0, tot > size), size, tot)
        off = tot - ln
        return [("window-length", I(cache.n) == ln),
                ("kept-old-values", c.forall(lambda i: z3.Implies(i >= off, R(cache.f(i - off)) == cf(i)), 0, n0)),
                ("kept-new-values", c.forall(lambda j: z3.Implies(z3.And(FIN(df(j)), n0 + rk(j) >= off), R(cache.f(n0 + rk(j) - off)) == df(j)), 0, n)),
                ("reports-the-average", z3.BoolVal(c.ghost.get("avg") is not None and is_z3(res) and z3.eq(res, c.ghost["avg"]))),
                ("size-kept", a["self"].fields["size"] == size)]


class MovAvgGet(Contract):
    """mean of the cache, 0.0 when it is empty"""
    target = MOD + ":MovAvg.get"
    npfn = "mean"

    def params(self, c, case):
        n = c.nat("n")
        cf = z3.Function(c.fresh_name("cache"), z3.IntSort(), z3.RealSort())
        cache = c.reg(PList(None, n, lambda i: cf(i), "real"), "cache")
        m = c.Real("stat")
        seen = []

        def f(cc, args, kw):
            if args[0] is not cache or kw or len(args) > 1:
                raise Unsupported("statistic of something else")
            return m
        type(self).externals = self.externals = {"np." + self.npfn: f, "numpy." + self.npfn: f}
        return dict(self=obj(c, "MovAvg", size=c.Int("size"), cache=cache), _n=n, _m=m)

    def post(self, c, a, old, res):
        return [("statistic-of-the-cache", R(res) == z3.If(a["_n"] == 0, z3.RealVal(0), a["_m"]))]


class MovAvgMean(MovAvgGet):
    """same as get"""
    target = MOD + ":MovAvg.mean"


class MovAvgStd(MovAvgGet):
    """population standard deviation of the cache, 0.0 when it is empty"""
    target = MOD + ":MovAvg.std"
    npfn = "std"


# ------------------------------------------------------------------------------------------------ summaries
class Summary(Contract):
    """mean/std/max/min of the whole sequence; all zero for an empty one"""
    target = "tianshou.data.stats:SequenceSummaryStats.from_sequence"

    def params(self, c, case):
        n = c.nat("n")
        seq = c.arr("seq", (n,))
        vals = {k: c.Real("s_" + k) for k in ("mean", "std", "max", "min")}

        def mk(k):
            def f(cc, args, kw):
                if args[0] is not seq or kw or len(args) > 1:
                    raise Unsupported("statistic of something else")
                return vals[k]
            return f
        ex = {}
        for k in vals:
            ex["np." + k] = ex["numpy." + k] = mk(k)
        type(self).externals = self.externals = ex
        m = Module.get("tianshou.data.stats")
        cls = c.it.ver.get_class(m, m.defs["SequenceSummaryStats"])
        return dict(cls=cls, sequence=seq, _n=n, _v=vals)

    def post(self, c, a, old, res):
        f = res.fields
        return [(k, R(f[k]) == z3.If(a["_n"] == 0, z3.RealVal(0), v)) for k, v in a["_v"].items()]


PROOFS = {"P19": [RmsUpdate, RmsNorm, MovAvgAdd, MovAvgGet, MovAvgMean, MovAvgStd, Summary]}
