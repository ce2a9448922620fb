"""P12/P13: contracts on the return computations of tianshou/policy/base.py (all batch lengths, all n)."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import Rec, Fn

MOD = "tianshou.policy.base"


def nxt(f, i, n):
    return z3.If(i + 1 < n, f(i + 1), z3.RealVal(0))


class GaeReturn(Contract):
    """the backward GAE recursion, cut exactly where end_flag is set"""
    target = MOD + ":_gae_return"
    argorder = ("v_s", "v_s_", "rew", "end_flag", "gamma", "gae_lambda")

    def params(self, c, case):
        n = c.nat("n")
        return dict(v_s=c.arr("v_s", (n,)), v_s_=c.arr("v_s_", (n,)), rew=c.arr("rew", (n,)),
                    end_flag=c.arr("end", (n,), "bool"), gamma=c.Real("gamma"), gae_lambda=c.Real("lam"), _n=n)

    def bind_ghost(self, c, a):
        a["_n"] = I(a["rew"].shape[0])

    def pre(self, c, a):
        n = a["_n"]
        return [("same-length", z3.And(*[I(a[k].shape[0]) == n for k in ("v_s", "v_s_", "rew", "end_flag")])), ("n", n >= 0)]

    def prepare(self, c, a):
        c.case_args = a

    @staticmethod
    def rec(a, r, i, n):
        v, v_, rew, end = (a[k].snap() for k in ("v_s", "v_s_", "rew", "end_flag"))
        delta = rew(i) + v_(i) * R(a["gamma"]) - v(i)
        return r(i) == delta + z3.If(B(end(i)), z3.RealVal(0), R(a["gamma"]) * R(a["gae_lambda"]) * nxt(r, i, n))

    def _inv(c, L):
        a = c.case_args
        n = a["_n"]
        r, k = L.returns.snap(), L.k
        return [("suffix-done", c.forall(lambda i: GaeReturn.rec(a, r, i, n), n - k, n)),
                ("carry", R(L.gae) == z3.If(k == 0, z3.RealVal(0), r(n - k)))]

    loops = {0: Loop(_inv)}

    def result(self, c, a):
        return c.arr("adv", (a["_n"],))

    def post(self, c, a, old, res):
        n = a["_n"]
        return [("length", I(res.shape[0]) == n),
                ("gae-recursion", c.forall(lambda i: GaeReturn.rec(old, res.snap(), i, n), 0, n))]


class McReturn(Contract):
    """Monte-Carlo return-to-go of one episode"""
    target = MOD + ":episode_mc_return_to_go"
    argorder = ("rewards", "gamma")

    def params(self, c, case):
        n = c.Int("n")
        return dict(rewards=c.arr("rewards", (n,)), gamma=c.Real("gamma"), _n=n)

    def pre(self, c, a):
        return [("at-least-one-step", a["_n"] >= 1)]

    def prepare(self, c, a):
        c.case_args = a

    def _inv(c, L):
        n = c.case_args["_n"]
        r, w, g = L.ret2go.snap(), c.case_args["rewards"].snap(), R(c.case_args["gamma"])
        return [("suffix-done", c.forall(lambda i: r(i) == w(i) + g * nxt(r, i, n), n - 1 - L.k, n))]

    loops = {0: Loop(_inv)}

    def post(self, c, a, old, res):
        n = a["_n"]
        r, w, g = res.snap(), old["rewards"].snap(), R(a["gamma"])
        return [("length", I(res.shape[0]) == n),
                ("return-to-go", c.forall(lambda i: r(i) == w(i) + g * nxt(r, i, n), 0, n))]


class NStepReturn(Contract):
    """n-step sums along the stacked indices: stops at the first flagged step, discounts the bootstrap accordingly"""
    target = MOD + ":_nstep_return"
    argorder = ("rew_B", "end_flag_B", "target_q_IA", "stacked_indices_NI", "gamma", "n_step")

    def params(self, c, case):
        B_, I_, A, N = c.nat("B"), c.nat("I"), c.nat("A"), c.Int("N")
        return dict(rew_B=c.arr("rew", (B_,)), end_flag_B=c.arr("end", (B_,), "bool"), target_q_IA=c.arr("q", (I_, A)),
                    stacked_indices_NI=c.arr("idx", (N, I_), "int"), gamma=c.Real("gamma"), n_step=N,
                    _d=(B_, I_, A, N))

    def bind_ghost(self, c, a):
        c.nstep = a
        q = a["target_q_IA"]
        a["_d"] = (I(a["rew_B"].shape[0]), I(q.shape[0]), I(q.shape[1]), I(a["n_step"]))

    def ghosts(self, c, a):
        """spec functions (definitional, linear recursion downwards from N):
        G(m,i) = MC part from step m on, C(m,i) = number of steps summed + m, GP(k) = gamma^k"""
        if "_G" not in a:
            a["_G"] = z3.Function(c.fresh_name("G"), z3.IntSort(), z3.IntSort(), z3.RealSort())
            a["_C"] = z3.Function(c.fresh_name("C"), z3.IntSort(), z3.IntSort(), z3.IntSort())
            a["_GP"] = z3.Function(c.fresh_name("GP"), z3.IntSort(), z3.RealSort())
        return a["_G"], a["_C"], a["_GP"]

    def pre(self, c, a):
        B_, I_, A, N = a["_d"]
        s = a["stacked_indices_NI"].snap()
        n = z3.Int(c.fresh_name("?n"))
        i = z3.Int(c.fresh_name("?i"))
        return [("n-step", z3.And(N >= 1, I_ >= 0, A >= 0, B_ >= 0, I(a["stacked_indices_NI"].shape[0]) == N,
                                  I(a["stacked_indices_NI"].shape[1]) == I_, I(a["end_flag_B"].shape[0]) == B_)),
                ("indices-in-buffer", z3.ForAll([n, i], z3.Implies(
                    z3.And(0 <= n, n < N, 0 <= i, i < I_), z3.And(0 <= s(n, i), s(n, i) < B_)), patterns=[s(n, i)]))]

    def defs(self, c, a, m, i_pat=True):
        """definition of G, C at level m, for all i"""
        G, C, GP = self.ghosts(c, a)
        end, rew, s, g = a["end_flag_B"].snap(), a["rew_B"].snap(), a["stacked_indices_NI"].snap(), R(a["gamma"])
        i = z3.Int(c.fresh_name("?i"))
        e = B(end(s(m, i)))
        return [z3.ForAll([i], z3.And(G(m, i) == rew(s(m, i)) + g * z3.If(e, z3.RealVal(0), G(m + 1, i)),
                                      C(m, i) == z3.If(e, m + 1, C(m + 1, i))), patterns=[G(m, i), C(m, i)])]

    def base(self, c, a):
        G, C, GP = self.ghosts(c, a)
        N = a["_d"][3]
        i = z3.Int(c.fresh_name("?i"))
        return [z3.ForAll([i], z3.And(G(N, i) == 0, C(N, i) == N)), GP(0) == 1]

    def prepare(self, c, a):
        c.case_args = a
        c.assume(*self.base(c, a))

    def _inv_pow(c, L):
        a = c.case_args
        GP, N = NStepReturn().ghosts(c, a)[2], a["_d"][3]
        f = L.gamma_buffer_N.snap()
        return [("powers", c.forall(lambda j: f(j) == GP(j), 0, L.k + 1)),
                ("len", I(L.gamma_buffer_N.shape[0]) == N + 1)]

    def _hint_pow(c, L):
        a = c.case_args
        GP = NStepReturn().ghosts(c, a)[2]
        return [GP(L.k + 1) == GP(L.k) * R(a["gamma"])]

    def _inv(c, L):
        a = c.case_args
        G, C, GP = NStepReturn().ghosts(c, a)
        B_, I_, A, N = a["_d"]
        m = L.g["m"]
        mc, ga = L.n_step_mc_returns_IA.snap(), L.gammas_IN.snap()
        i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?a"))
        return [("level", z3.And(m == N - L.k, m >= 0)),
                ("mc-part", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < I_, 0 <= j, j < A), mc(i, j) == G(m, i)))),
                ("steps", c.forall(lambda i: z3.And(ga(i) == C(m, i), m < ga(i) + 1, ga(i) <= N), 0, I_)),
                ("shapes", z3.And(I(L.n_step_mc_returns_IA.shape[0]) == I_, I(L.n_step_mc_returns_IA.shape[1]) == A,
                                  I(L.gammas_IN.shape[0]) == I_))]

    loops = {0: Loop(_inv_pow, hint=_hint_pow),
             1: Loop(_inv, ghost=lambda c, L: {"m": c.case_args["_d"][3]}, step=lambda c, L: L.g.update(m=L.g["m"] - 1),
                     hint=lambda c, L: NStepReturn().defs(c, c.case_args, L.g["m"] - 1))}

    def result(self, c, a):
        return c.arr("nstep", (a["_d"][1], a["_d"][2]))

    def post(self, c, a, old, res):
        G, C, GP = self.ghosts(c, a)
        B_, I_, A, N = a["_d"]
        q = old["target_q_IA"].snap()
        r = res.snap()
        i, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?a"))
        if "_n" not in a and getattr(c, "nstep", None) is a:
            # applied at a call site: the caller sees the definition of the spec functions through the trigger LV
            LV = a["_LV"] = z3.Function(c.fresh_name("LV"), z3.IntSort(), z3.IntSort(), z3.BoolSort())
            end, rew, s, g = old["end_flag_B"].snap(), old["rew_B"].snap(), old["stacked_indices_NI"].snap(), R(a["gamma"])
            m = z3.Int(c.fresh_name("?m"))
            c.assume(*self.base(c, a))
            c.assume(z3.ForAll([m, i], z3.Implies(z3.And(0 <= m, m < N, 0 <= i, i < I_), z3.And(
                G(m, i) == rew(s(m, i)) + g * z3.If(B(end(s(m, i))), z3.RealVal(0), G(m + 1, i)),
                C(m, i) == z3.If(B(end(s(m, i))), m + 1, C(m + 1, i)))), patterns=[LV(m, i)]))
        return [("shape", z3.And(I(res.shape[0]) == I_, I(res.shape[1]) == A)),
                ("n-step-return", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < I_, 0 <= j, j < A),
                                            r(i, j) == q(i, j) * GP(C(0, i)) + G(0, i))))]


# ------------------------------------------------------------------------------------------------ callers
class BufIface:
    """A buffer as these functions see it: flag/reward arrays of length B, `next` (P05's contract: a function of the index,
    staying inside the stored transitions) and `unfinished_index` (P05's contract: the newest transition of each unfinished
    sub-buffer).  All three are proved for the real buffers under P05; here only their interface is used."""
    def __init__(self, c):
        self.B = c.nat("B")
        self.done = c.arr("b_done", (self.B,), "bool")
        self.term = c.arr("b_term", (self.B,), "bool")
        self.rew = c.arr("b_rew", (self.B,))
        self.NEXT = z3.Function(c.fresh_name("NEXT"), z3.IntSort(), z3.IntSort())
        self.STORED = z3.Function(c.fresh_name("STORED"), z3.IntSort(), z3.BoolSort())
        self.UNF = z3.Function(c.fresh_name("UNF"), z3.IntSort(), z3.BoolSort())
        self.nu = c.nat("nu")
        self.unf = c.arr("unf", (self.nu,), "int")

        def nxt_(cc, a, k):
            x = a[0]
            cc.prove("buffer.next is asked about stored transitions only", cc.forall(lambda i: self.STORED(x(i)), 0, x.shape[0]), "pre")
            f = x.snap()
            return cc.lam(x.shape, lambda i: self.NEXT(f(i)), "int")
        self.obj = Rec(c, "buffer", dict(done=self.done, terminated=self.term, rew=self.rew), pytype=("ReplayBuffer",),
                       extra=dict(next=Fn(c, "next", nxt_), unfinished_index=Fn(c, "unf", lambda cc, a, k: cc.reg(self.unf.copy(), "unf"))))

    def pre(self, c):
        u = self.unf.snap()
        j, i = z3.Int(c.fresh_name("?j")), z3.Int(c.fresh_name("?i"))
        W = self.W = z3.Function(c.fresh_name("W"), z3.IntSort(), z3.IntSort())
        return [("unfinished listing", z3.And(
            c.forall(lambda k: z3.And(0 <= u(k), u(k) < self.B, self.UNF(u(k))), 0, self.nu),
            z3.ForAll([j], z3.Implies(self.UNF(j), z3.And(0 <= W(j), W(j) < self.nu, u(W(j)) == j)), patterns=[self.UNF(j)]))),
            ("stored are positions", z3.ForAll([j], z3.Implies(self.STORED(j), z3.And(0 <= j, j < self.B)), patterns=[self.STORED(j)])),
            ("next stays stored", z3.ForAll([j], z3.Implies(self.STORED(j), self.STORED(self.NEXT(j))), patterns=[self.NEXT(j)]))]


TO_TORCH_AS = {"tianshou.data.utils.converter:to_torch_as": lambda c, a, k: c.lam(a[0].shape, a[0].snap(), a[0].dtype, "torch")}


class ValueMask(Contract):
    """bootstrap values survive exactly where the step did not truly terminate"""
    target = MOD + ":BasePolicy.value_mask"

    def params(self, c, case):
        b = BufIface(c)
        n = c.nat("n")
        return dict(buffer=b.obj, indices=c.arr("indices", (n,), "int"), _b=b, _n=n)

    def pre(self, c, a):
        i = a["indices"].snap()
        return [("in-buffer", c.forall(lambda k: z3.And(0 <= i(k), i(k) < a["_b"].B), 0, a["_n"]))]

    def post(self, c, a, old, res):
        t, i, r = a["_b"].term.snap(), a["indices"].snap(), res.snap()
        return [("length", I(res.shape[0]) == a["_n"]), ("not-terminated", c.forall(lambda k: B(r(k)) == z3.Not(B(t(i(k)))), 0, a["_n"]))]


class EpisodicReturn(Contract):
    """compute_episodic_return: GAE over masked next values, cut at done and at the newest step of unfinished episodes"""
    target = MOD + ":BasePolicy.compute_episodic_return"
    cases = ("v_s and v_s_", "v_s_ only", "no values")
    uses = (GaeReturn,)
    trusted = ("np.roll, np.isin, np.isclose (modelled)", "buffer.unfinished_index by its P05 contract",
               "batch == buffer[indices], as documented for the caller")

    def params(self, c, case):
        b = BufIface(c)
        n = c.nat("n")
        idx = c.arr("indices", (n,), "int")
        fi, t, d = idx.snap(), b.term.snap(), b.done.snap()
        trunc = c.arr("trunc", (n,), "bool")
        batch = Rec(c, "batch", dict(rew=c.arr("rew", (n,)), terminated=c.lam((n,), lambda k: t(fi(k)), "bool"), truncated=trunc), n=n)
        a = dict(batch=batch, buffer=b.obj, indices=idx, gamma=c.Real("gamma"), gae_lambda=c.Real("lam"), _b=b, _n=n, _tr=trunc.snap())
        if case != "no values":
            a["v_s_"] = c.arr("vnext", (n,), kind="torch")
        if case == "v_s and v_s_":
            a["v_s"] = c.arr("v", (n,), kind="torch")
        return a

    def pre(self, c, a):
        i, b = a["indices"].snap(), a["_b"]
        d, t, tr = b.done.snap(), b.term.snap(), a["_tr"]
        r = [("in-buffer", c.forall(lambda k: z3.And(0 <= i(k), i(k) < b.B), 0, a["_n"])), ("n", a["_n"] >= 1)]
        return r + b.pre(c)

    def raises(self, c, a, old):
        # without values only lambda = 1 (up to rounding) is meaningful
        d = a["gae_lambda"] - 1
        return [("AssertionError", z3.If(d < 0, -d, d) > z3.Q(1, 10**8) + z3.Q(1, 10**5))] if c.case == "no values" else []

    def post(self, c, a, old, res):
        n, b, i = a["_n"], a["_b"], old["indices"].snap()
        ret, adv = res
        t, rew = b.term.snap(), old["batch"].fields["rew"].snap()
        vn = old["v_s_"].snap() if "v_s_" in old else (lambda k: z3.RealVal(0))
        vm = lambda k: z3.If(B(t(i(k))), z3.RealVal(0), vn(k))
        if "v_s" in old:
            v = old["v_s"].snap()
        else:
            v = lambda k: z3.If(k == 0, vm(n - 1), vm(k - 1))
        A, Rt = adv.snap(), ret.snap()
        g, l = R(a["gamma"]), R(a["gae_lambda"])

        def cut(k):
            return z3.Or(B(t(i(k))), B(a["_tr"](k)), b.UNF(i(k)))
        def spec(k, v=v):
            return A(k) == rew(k) + g * vm(k) - v(k) + z3.If(cut(k), z3.RealVal(0), g * l * nxt(A, k, n))
        return [("lengths", z3.And(I(adv.shape[0]) == n, I(ret.shape[0]) == n)),
                ("advantage-first", spec(z3.IntVal(0), (lambda k: vm(n - 1)) if "v_s" not in old else v)),
                ("advantage", c.forall(lambda k: spec(k, (lambda k: vm(k - 1)) if "v_s" not in old else v), 1, n)),
                ("return-is-advantage-plus-value", c.forall(lambda k: Rt(k) == A(k) + v(k), 0, n))]


class ComputeNStep(Contract):
    """compute_nstep_return: indices follow buffer.next, flags are done or newest-unfinished, bootstrap masked by terminated"""
    target = MOD + ":BasePolicy.compute_nstep_return"
    cases = ("plain", "weighted")
    uses = (NStepReturn,)
    overrides = TO_TORCH_AS
    trusted = ("buffer.next/unfinished_index by their P05 contracts", "np.stack of n index arrays (list of arrays kept as a 2-d ghost)",
               "to_torch_as keeps the values (bounded: P18)")

    def params(self, c, case):
        b = BufIface(c)
        n, A, N = c.nat("I"), c.Int("A"), c.Int("N")
        idx = c.arr("indices", (n,), "int")
        f = dict(rew=c.arr("r", (n,)))
        if case == "weighted":
            f["weight"] = c.arr("w", (n,))
        batch = Rec(c, "batch", f, n=n)
        q = c.arr("q", (n, A), kind="torch")
        asked = []

        def tq(cc, a, k):
            asked.append(a[1].snap())
            return c.reg(q.copy(), "q")
        return dict(batch=batch, buffer=b.obj, indices=idx, target_q_fn=Fn(c, "target_q_fn", tq), gamma=c.Real("gamma"), n_step=N,
                    _b=b, _n=n, _A=A, _N=N, _q=q, _asked=asked)

    def pre(self, c, a):
        i, b = a["indices"].snap(), a["_b"]
        return [("n", z3.And(a["_N"] >= 1, a["_n"] >= 1, a["_A"] >= 1)),
                ("sampled indices are stored", c.forall(lambda k: b.STORED(i(k)), 0, a["_n"]))] + b.pre(c)

    def prepare(self, c, a):
        c.case_args = a
        # IT(m, i): the index reached after m applications of next (definitional)
        a["_IT"] = z3.Function(c.fresh_name("IT"), z3.IntSort(), z3.IntSort(), z3.IntSort())
        i, m = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?m"))
        idx, IT = a["indices"].snap(), a["_IT"]
        c.assume(z3.ForAll([i], IT(0, i) == idx(i)))
        a["_defs"] = lambda m: [z3.ForAll([i], IT(m + 1, i) == a["_b"].NEXT(IT(m, i)), patterns=[IT(m + 1, i)])]

    def _inv(c, L):
        a = c.case_args
        l = L._indices_to_stack
        IT, n, b = a["_IT"], a["_n"], a["_b"]
        m, i = z3.Int(c.fresh_name("?m")), z3.Int(c.fresh_name("?i"))
        if l.concrete:
            f0 = l.items[0].snap()
            body = z3.And(z3.BoolVal(len(l.items) == 1), c.forall(lambda i: f0(i) == IT(0, i), 0, n))
            st = c.forall(lambda i: b.STORED(IT(0, i)), 0, n)
        else:
            e = l.f_
            body = z3.And(I(l.n_) == L.k + 1, z3.ForAll([m, i], z3.Implies(z3.And(0 <= m, m <= L.k, 0 <= i, i < n), e(m).f(i) == IT(m, i))))
            st = z3.ForAll([m, i], z3.Implies(z3.And(0 <= m, m <= L.k, 0 <= i, i < n), b.STORED(IT(m, i))), patterns=[IT(m, i)])
        return [("stack", body), ("all-stored", st)]

    loops = {0: Loop(_inv, hint=lambda c, L: c.case_args["_defs"](L.k))}

    def post(self, c, a, old, res):
        b, n, N, A = a["_b"], a["_n"], a["_N"], a["_A"]
        IT, q = a["_IT"], a["_q"].snap()
        ns = getattr(c, "nstep", None)
        G, C, GP, LV = ns["_G"], ns["_C"], ns["_GP"], ns["_LV"]
        r = a["batch"].fields.get("returns")
        if r is None:
            return [("returns are stored in the batch", z3.BoolVal(False))]
        rf, t, d, rew = r.snap(), b.term.snap(), b.done.snap(), b.rew.snap()
        i, m, j = z3.Int(c.fresh_name("?i")), z3.Int(c.fresh_name("?m")), z3.Int(c.fresh_name("?a"))
        g = R(a["gamma"])
        out = [("returns-the-batch", z3.BoolVal(res is a["batch"]))]
        # the callee's spec functions, restated over the buffer: summing starts at the index itself and follows next
        stop = lambda x: z3.Or(B(d(x)), b.UNF(x))
        out += [("summed-steps", z3.ForAll([m, i], z3.Implies(z3.And(LV(m, i), 0 <= m, m < N, 0 <= i, i < n), z3.And(
            G(m, i) == rew(IT(m, i)) + g * z3.If(stop(IT(m, i)), z3.RealVal(0), G(m + 1, i)),
            C(m, i) == z3.If(stop(IT(m, i)), m + 1, C(m + 1, i))))))]
        boot = lambda i, j: z3.If(B(t(IT(N - 1, i))), z3.RealVal(0), q(i, j))
        out += [("n-step-return", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < A),
                                            rf(i, j) == boot(i, j) * GP(C(0, i)) + G(0, i)))),
                ("bootstrap-evaluated-at-the-last-step", z3.BoolVal(len(a["_asked"]) == 1))]
        if len(a["_asked"]) == 1:
            out += [("bootstrap-index", c.forall(lambda k: a["_asked"][0](k) == IT(N - 1, k), 0, n))]
        bb = a["buffer"].fields
        out += [("buffer untouched", c.forall(lambda k: z3.And(B(bb["done"](k)) == B(old["buffer"].fields["done"](k)),
                                                               bb["rew"](k) == old["buffer"].fields["rew"](k)), 0, b.B))]
        return out


PROOFS = {"P12": [GaeReturn, McReturn, ValueMask, EpisodicReturn], "P13": [NStepReturn, ValueMask, ComputeNStep]}
