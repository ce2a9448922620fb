"""Shared specification of the circular buffer: the ring invariant and the chronological order of its slots."""
import z3
from pyvc.values import *
from pyvc.engine import *

BASE = "tianshou.data.buffer.base"
BATCHM = "tianshou.data.batch"


def batch_obj(c, label="batch", **fields):
    """an instance of the real Batch class with these fields (its methods are interpreted from the source)"""
    m = Module.get(BATCHM)
    return c.reg(Obj(c.it.ver.get_class(m, m.defs["Batch"]), fields), label)


class Ring:
    """one replay buffer: capacity cap, size s, insertion index p, last index l"""

    def __init__(self, c, tag="", meta=None, cls=("tianshou.data.buffer.base", "ReplayBuffer"), stack_num=1, save_obs_next=True, save_only_last_obs=False,
                 sample_avail=False, cap=None, ep_return=None):
        m = Module.get(cls[0])
        self.o = o = c.reg(Obj(c.it.ver.get_class(m, m.defs[cls[1]])), "buffer" + tag)
        self.c = c
        self.cap = c.Int("cap" + tag) if cap is None else cap
        self.s, self.p = c.Int("size" + tag), c.Int("ins" + tag)
        self.l = c.arr("last" + tag, (1,), "int")
        self.meta = meta(self) if meta else batch_obj(c, "meta" + tag)
        o.fields.update(maxsize=self.cap, _size=self.s, _insertion_idx=self.p, last_index=self.l, _meta=self.meta, stack_num=stack_num,
                        _save_obs_next=save_obs_next, _save_only_last_obs=save_only_last_obs, _sample_avail=sample_avail,
                        _ep_return=c.Real("ep_ret" + tag) if ep_return is None else ep_return, _ep_len=c.Int("ep_len" + tag), _ep_start_idx=c.Int("ep_start" + tag))
        cap_ = self.cap
        o.fields["_indices"] = c.lam((cap_,), lambda i: I(i), "int")
        o.fields["options"] = c.reg(PDict(dict(stack_num=stack_num, ignore_obs_next=not save_obs_next, save_only_last_obs=save_only_last_obs,
                                               sample_avail=sample_avail)), "options")

    def inv(self):
        return ring_inv(self.cap, self.s, self.p, self.l.snap()(0))

    def ep_inv(self):
        f = self.o.fields
        return ep_inv(self.cap, self.s, self.p, I(f["_ep_len"]), I(f["_ep_start_idx"]))


def ring_inv(cap, s, p, l):
    """0 <= s <= cap, 0 <= p < cap; not yet full: slots 0..s-1 in order; the newest transition sits just before p"""
    return z3.And(cap >= 1, 0 <= s, s <= cap, 0 <= p, p < cap, z3.Implies(s < cap, p == s),
                  z3.Implies(s == 0, l == 0), z3.Implies(s > 0, l == z3.If(p == 0, cap - 1, p - 1)))


def ep_inv(cap, s, p, ln, st):
    """the running episode: ln steps long, started at slot st; with no step yet the next insertion starts it"""
    return z3.And(ln >= 0, 0 <= st, st < cap, z3.Implies(s < cap, st <= s), z3.Implies(ln == 0, st == p))


def slot(cap, s, p, k):
    """slot of the k-th oldest stored transition"""
    return z3.If(s < cap, k, z3.If(p + k >= cap, p + k - cap, p + k))


def chrono(cap, s, p, i):
    """age rank of slot i (0 = oldest)"""
    return z3.If(s < cap, i, z3.If(i >= p, i - p, i - p + cap))


def next_of(cap, s, p, done, i):
    r = chrono(cap, s, p, i)
    return z3.If(z3.Or(B(done(i)), r == s - 1), i, slot(cap, s, p, r + 1))


def prev_of(cap, s, p, done, i):
    r = chrono(cap, s, p, i)
    b = slot(cap, s, p, r - 1)
    return z3.If(r == 0, i, z3.If(B(done(b)), i, b))


def done_meta(r):
    return batch_obj(r.c, "meta", done=r.c.arr("done", (r.cap,), "bool"))


class _Step(Contract):
    argorder = ("self", "index")
    cases = ("one index", "index array")

    def params(self, c, case):
        self.r = r = Ring(c, meta=done_meta)
        if case == "one index":
            ix = c.Int("i")
        else:
            ix = c.arr("ix", (c.nat("n"),), "int")
        return dict(self=r.o, index=ix)

    def pre(self, c, a):
        r = self.ring(a)
        ix = a["index"]
        rng = z3.And(0 <= ix, ix < r[1]) if not isinstance(ix, Arr) else \
            c.forall(lambda j: z3.And(0 <= ix.snap()(j), ix.snap()(j) < r[1]), 0, ix.shape[0])
        return [("ring", ring_inv(*r)), ("stored", rng), ("non-empty", r[1] >= 1)]

    def ring(self, a):
        f = a["self"].fields
        return I(f["maxsize"]), I(f["_size"]), I(f["_insertion_idx"]), f["last_index"].snap()(0)

    def post(self, c, a, old, res):
        r = self.ring(old)[:3]
        d = old["self"].fields["_meta"].fields["done"].snap()
        ix = old["index"]
        cl = [("same-buffer", z3.BoolVal(all(a["self"].fields[k] is old["self"].fields[k] or not is_scalar(a["self"].fields[k]) or z3.eq(I(a["self"].fields[k]), I(old["self"].fields[k]))
                                             for k in ("_size", "_insertion_idx"))))]
        if not isinstance(ix, Arr):
            return [(self.claim, I(res) == self.spec(*r, d, I(ix)))] + cl
        g, h = ix.snap(), res.snap()
        return [(self.claim, c.forall(lambda j: h(j) == self.spec(*r, d, g(j)), 0, ix.shape[0])), ("one-each", I(res.shape[0]) == I(ix.shape[0]))] + cl

    def result(self, c, a):
        if not isinstance(a["index"], Arr):
            return c.Int("stepped")
        return c.arr("stepped", a["index"].shape, "int")


class Prev(_Step):
    """prev: the preceding stored transition of the same episode, else the index itself (any size, capacity, pointer and done flags)"""
    target = BASE + ":ReplayBuffer.prev"
    claim = "previous-of-the-same-episode-or-itself"
    spec = staticmethod(prev_of)


class Next(_Step):
    """next: the following stored transition of the same episode, else the index itself"""
    target = BASE + ":ReplayBuffer.next"
    claim = "next-of-the-same-episode-or-itself"
    spec = staticmethod(next_of)


class Unfinished(Contract):
    """unfinished_index: exactly the newest transition when the buffer is non-empty and that transition does not end an episode"""
    target = BASE + ":ReplayBuffer.unfinished_index"
    cases = (None, "never filled")

    def params(self, c, case):
        self.r = Ring(c, meta=(lambda r: batch_obj(c, "meta")) if case else done_meta)
        return dict(self=self.r.o)

    def pre(self, c, a):
        cap, s, p, l = _Step.ring(self, a)
        fresh = [("fresh", z3.And(s == 0, p == 0))] if getattr(self, "r", None) is not None and c.case == "never filled" else []
        return [("ring", ring_inv(cap, s, p, l))] + fresh

    def post(self, c, a, old, res):
        cap, s, p, _ = _Step.ring(self, old)
        if "done" not in old["self"].fields["_meta"].fields:
            return [("none", I(res.shape[0]) == 0)]
        d = old["self"].fields["_meta"].fields["done"].snap()
        newest = slot(cap, s, p, s - 1)
        n = I(res.shape[0])
        return [("newest-iff-unfinished", z3.And(n == z3.If(z3.And(s > 0, z3.Not(B(d(newest)))), 1, 0),
                                                 z3.Implies(n == 1, res.snap()(0) == newest)))]

    def result(self, c, a):
        return c.arr("unfinished", (c.nat("unf_n"),), "int")


class SampleIndices(Contract):
    """sample_indices: all stored slots, oldest first, each once (0); n stored slots (n>0); as many as stored (None); none (<0)"""
    target = BASE + ":ReplayBuffer.sample_indices"
    argorder = ("self", "batch_size")
    cases = (("int", 1, False), ("int", "k", False), ("int", 1, True), ("None", 1, False), ("None", "k", False))
    trusted = ("numpy.random.choice(n, k) draws k values of range(n) (which ones: arbitrary)",)

    def params(self, c, case):
        kind, st, avail = case
        k = c.Int("stack_num") if st == "k" else st
        self.r = Ring(c, meta=done_meta, stack_num=k, sample_avail=avail)
        return dict(self=self.r.o, batch_size=c.Int("n") if kind == "int" else None)

    def ring(self, a):
        return _Step.ring(self, a)

    def pre(self, c, a):
        r = self.ring(a)
        out = [("ring", ring_inv(*r))]
        f = a["self"].fields
        if not isinstance(as_py(f["stack_num"]), int):
            out.append(("stack", I(f["stack_num"]) >= 1))
        return out

    def accepts(self, c, a):
        f = a["self"].fields
        return f["_sample_avail"] is False or as_py(f["stack_num"]) == 1

    def raises(self, c, a, old):
        bs = old["batch_size"]
        s = self.ring(old)[1]
        return [("ValueError", z3.And(I(bs) > 0, s == 0))] if bs is not None else []

    def post(self, c, a, old, res):
        cap, s, p, _ = self.ring(old)
        n = I(old["batch_size"]) if old["batch_size"] is not None else None
        rn, h = I(res.shape[0]), res.snap()
        stored = c.forall(lambda j: z3.And(0 <= h(j), h(j) < s), 0, rn)
        if n is None:
            return [("as-many-as-stored", rn == s), ("only-stored", stored)]
        return [("size", rn == z3.If(n > 0, n, z3.If(n == 0, s, 0))), ("only-stored", stored),
                ("all-oldest-first", z3.Implies(n == 0, c.forall(lambda j: h(j) == slot(cap, s, p, j), 0, rn))),
                ("each-once", z3.Implies(n == 0, c.forall2(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < rn), h(i) != h(j)))))]

    def result(self, c, a):
        bs = a["batch_size"]
        s = self.ring(a)[1]
        n = s if bs is None else z3.If(I(bs) > 0, I(bs), z3.If(I(bs) == 0, s, 0))
        if bs is not None and isinstance(as_py(bs), int):
            n = s if as_py(bs) == 0 else max(as_py(bs), 0)
        return c.arr("drawn", (n,), "int")



class SampleAvail(SampleIndices):
    """sample_indices with 'sample available': exactly the stored slots whose whole stack (stack_num steps back) lies inside their episode"""
    cases = ("int", "None")
    uses = (Prev,)

    def params(self, c, case):
        k = c.Int("stack_num")
        self.r = r = Ring(c, meta=done_meta, stack_num=k, sample_avail=True)
        self.k = k
        # definitions by recursion: PV(x) one step back, PM(m, x) m steps back, MV(m, x) the first m steps back all move
        Z, Bo = z3.IntSort(), z3.BoolSort()
        self.PV, self.PM, self.MV = z3.Function("step_back", Z, Z), z3.Function("steps_back", Z, Z, Z), z3.Function("all_moved", Z, Z, Bo)
        d = r.meta.fields["done"].snap()
        self.pvdef = lambda x: prev_of(r.cap, r.s, r.p, d, x)
        return dict(self=r.o, batch_size=c.Int("n") if case == "int" else None)

    def pre(self, c, a):
        x = z3.Int("?x")
        r = self.r
        return SampleIndices.pre(self, c, a) + [
            ("stack", self.k > 1), ("non-empty", r.s >= 1),
            ("def-step", z3.ForAll([x], self.PV(x) == self.pvdef(x), patterns=[self.PV(x)])),
            ("def-none", z3.ForAll([x], z3.And(self.PM(0, x) == x, self.MV(0, x)), patterns=[self.PM(0, x)])),
            ("def-none2", z3.ForAll([x], self.MV(0, x), patterns=[self.MV(0, x)])),
        ] + [("def-steps-0", f) for f in self.unfold_at(z3.IntVal(0))]

    def moves(self, m, x):
        return self.PV(self.PM(m, x)) != self.PM(m, x)

    def unfold_at(self, m):
        x = z3.Int("?x")
        return [z3.ForAll([x], z3.And(self.PM(m + 1, x) == self.PV(self.PM(m, x)), self.MV(m + 1, x) == z3.And(self.MV(m, x), self.moves(m, x))),
                          patterns=[self.PM(m, x)])]

    def inv(self, c, L):
        r, P = self.r, self.PM
        al, pr = L.all_indices.snap(), L.prev_indices.snap()
        n = I(L.all_indices.shape[0])
        return [("k-steps-back", z3.And(n == r.s, I(L.prev_indices.shape[0]) == n, c.forall(lambda j: pr(j) == P(L.k, al(j)), 0, n))),
                ("steps-stay-stored", c.forall(lambda x: z3.And(0 <= P(L.k, x), P(L.k, x) < r.s), 0, r.s, pats=[lambda x: P(L.k, x)])),
                ("moving-now-means-moved-always", c.forall(lambda x: z3.Implies(self.moves(L.k, x), self.MV(L.k + 1, x)), 0, r.s, pats=[lambda x: P(L.k, x)]))]

    @property
    def loops(self):
        return {0: Loop(self.inv, hint=lambda c, L: self.unfold_at(L.k) + self.unfold_at(L.k + 1))}

    def full(self, x):
        return self.MV(self.k - 1, x)

    def raises(self, c, a, old):
        r = self.r
        bs = I(old["batch_size"]) if old["batch_size"] is not None else r.s
        return [("ValueError", z3.And(bs > 0, c.forall(lambda x: z3.Not(self.full(x)), 0, r.s)))]

    def post(self, c, a, old, res):
        r = self.r
        n = I(old["batch_size"]) if old["batch_size"] is not None else r.s
        h = res.snap()
        if res.dom is None:
            rn = I(res.shape[0])
            return [("size", rn == z3.If(n > 0, n, 0)),
                    ("stored-with-full-stack", c.forall(lambda j: z3.And(0 <= h(j), h(j) < r.s, self.full(h(j))), 0, rn))]
        # all available ones: a compaction of the list of stored slots (oldest first)
        d = res.dom
        return [("listing-only-for-size-0", n == 0), ("source-is-every-stored-slot-oldest-first", z3.And(I(res.shape[0]) == r.s, c.forall(lambda j: h(j) == slot(r.cap, r.s, r.p, j), 0, r.s))),
                ("kept-iff-full-stack", c.forall(lambda j: B(d(j)) == self.full(h(j)), 0, r.s))]


def avail_lemmas(ver):
    """'the first m steps back all move', defined step by step, says what it should: every one of them moves (induction step)"""
    Z, Bo = z3.IntSort(), z3.BoolSort()
    MV, mv = z3.Function("all_moved", Z, Bo), z3.Function("moves", Z, Bo)
    m, q = z3.Ints("m q")
    H = lambda k: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), mv(q)))
    ok = ver.lemma("AllMoved", "base", [MV(0)], MV(0) == H(z3.IntVal(0)))
    return ver.lemma("AllMoved", "step", [m >= 0, MV(m) == H(m), MV(m + 1) == z3.And(MV(m), mv(m))], MV(m + 1) == H(m + 1)) and ok



FIELDS = ("_insertion_idx", "_size", "_ep_return", "_ep_len", "_ep_start_idx", "last_index", "maxsize", "_meta", "stack_num")


def state(o):
    """(cap, size, insertion, last, ep_len, ep_start) of a buffer object"""
    f = o.fields
    return I(f["maxsize"]), I(f["_size"]), I(f["_insertion_idx"]), f["last_index"].snap()(0), I(f["_ep_len"]), I(f["_ep_start_idx"])


def buf_inv(o):
    cap, s, p, l, ln, st = state(o)
    return [("ring", ring_inv(cap, s, p, l)), ("episode", ep_inv(cap, s, p, ln, st))]


def ret_of(o):
    """the running return as element function (a scalar stands for every component)"""
    r = o.fields["_ep_return"]
    return r.snap() if isinstance(r, Arr) else (lambda *i: R(r))


class PreAdd(Contract):
    """_update_state_pre_add: insertion slot, exact return/length/start at an episode end, zeros otherwise, statistics restart; one step of the ring"""
    target = BASE + ":ReplayBuffer._update_state_pre_add"
    argorder = ("self", "rew", "done")
    cases = ("scalar", "vector, first step", "vector, later step")

    def params(self, c, case):
        if case == "scalar":
            self.r = Ring(c)
            rew = c.Real("rew")
        else:
            d = c.nat("agents")
            rew = c.arr("rew", (d,), "real")
            self.r = Ring(c, ep_return=c.arr("ep_ret", (d,), "real") if case == "vector, later step" else 0.0)
        return dict(self=self.r.o, rew=rew, done=c.Bool("done"))

    def pre(self, c, a):
        return buf_inv(a["self"])

    def modifies(self, c, a):
        return []

    def post(self, c, a, old, res):
        cap, s, p, l, ln, st = state(old["self"])
        cap2, s2, p2, l2, ln2, st2 = state(a["self"])
        done = B(old["done"])
        q0, q1, q2, q3 = res
        rew = old["rew"]
        vec = isinstance(rew, Arr)
        r0, r2 = ret_of(old["self"]), ret_of(a["self"])
        total = (lambda i: r0(i) + rew.snap()(i)) if vec else (lambda i: r0(i) + R(rew))
        got = q1.snap() if isinstance(q1, Arr) and q1.shape else (lambda i: R(q1.f() if isinstance(q1, Arr) else q1))
        n = rew.shape[0] if vec else 1
        each = lambda f: c.forall(f, 0, n) if vec else f(z3.IntVal(0))
        return [("slot", I(q0) == p),
                ("return-exact-at-the-end-else-0", z3.If(done, each(lambda i: got(i) == total(i)), each(lambda i: got(i) == 0))),
                ("length-exact-at-the-end-else-0", I(q2) == z3.If(done, ln + 1, 0)),
                ("start-of-the-episode", z3.And(I(q3) == st, z3.Implies(ln == 0, I(q3) == p))),
                ("statistics-go-on", z3.Implies(z3.Not(done), z3.And(each(lambda i: r2(i) == total(i)), ln2 == ln + 1, st2 == st))),
                ("statistics-restart", z3.Implies(done, z3.And(each(lambda i: r2(i) == 0), ln2 == 0, st2 == p2))),
                ("one-step", z3.And(cap2 == cap, l2 == p, p2 == z3.If(p + 1 == cap, 0, p + 1), s2 == z3.If(s < cap, s + 1, cap)))] + \
            [("inv-" + n_, f) for n_, f in buf_inv(a["self"])]

    def apply(self, c, a):
        """call-site use: same obligations and facts, with the new state written into the object"""
        o = a["self"]
        for nm, f in self.pre(c, a):
            c.prove("call:_update_state_pre_add:pre:" + nm, f, "pre")
            c.assume(f)
        old = snapshot(a)
        rew = a["rew"]
        vec = isinstance(rew, Arr) and rew.shape
        if isinstance(rew, Arr) and not rew.shape:
            a["rew"] = old["rew"] = rew.f()
        d = a["done"]
        if isinstance(d, Arr):
            a["done"] = old["done"] = d.f()
        fresh = lambda nm: c.arr(nm, rew.shape, "real") if vec else c.Real(nm)
        la = o.fields["last_index"]
        nl = c.arr("last", (1,), "int")
        c.set_arr(la, nl._f)
        for nm in ("_insertion_idx", "_size", "_ep_len", "_ep_start_idx"):
            c.set_field(o, nm, c.Int(nm))
        c.set_field(o, "_ep_return", fresh("_ep_return"))
        res = (c.Int("slot"), fresh("ret"), c.Int("len"), c.Int("start"))
        for nm, f in self.post(c, a, old, res):
            c.assume(f)
        return res


class Reset(Contract):
    """reset: empty, pointers at the start; the running return and length survive exactly when asked to keep statistics"""
    target = BASE + ":ReplayBuffer.reset"
    argorder = ("self", "keep_statistics")

    def params(self, c, case):
        self.r = Ring(c)
        return dict(self=self.r.o, keep_statistics=c.Bool("keep"))

    def pre(self, c, a):
        return buf_inv(a["self"])

    def post(self, c, a, old, res):
        cap, s, p, l, ln, st = state(a["self"])
        o0, o1 = old["self"].fields, a["self"].fields
        keep = B(old["keep_statistics"])
        return [("empty", z3.And(s == 0, p == 0, l == 0, st == 0)),
                ("statistics", z3.If(keep, z3.And(R(o1["_ep_return"]) == R(o0["_ep_return"]), ln == I(o0["_ep_len"])), z3.And(R(o1["_ep_return"]) == 0, ln == 0))),
                ("capacity-kept", cap == I(o0["maxsize"]))] + [("inv-" + n, f) for n, f in buf_inv(a["self"])]


class Init(Contract):
    """a new buffer is empty with the requested capacity, and satisfies the ring invariant"""
    target = BASE + ":ReplayBuffer.__init__"
    argorder = ("self", "size", "stack_num", "ignore_obs_next", "save_only_last_obs", "sample_avail")
    cases = tuple((i, l, v) for i in (False, True) for l in (False, True) for v in (False, True))

    def params(self, c, case):
        m = Module.get(BASE)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["ReplayBuffer"])), "buffer")
        return dict(self=o, size=c.Int("size"), stack_num=c.Int("stack_num"), ignore_obs_next=case[0], save_only_last_obs=case[1], sample_avail=case[2])

    def pre(self, c, a):
        return [("size", a["size"] >= 1)]

    def raises(self, c, a, old):
        return [("AssertionError", a["stack_num"] <= 0)]

    def post(self, c, a, old, res):
        f = a["self"].fields
        cap, s, p, l, ln, st = state(a["self"])
        return [("capacity", cap == a["size"]), ("empty", z3.And(s == 0, R(f["_ep_return"]) == 0, ln == 0)),
                ("options", z3.And(I(f["stack_num"]) == a["stack_num"], z3.BoolVal((f["_save_obs_next"], f["_save_only_last_obs"], f["_sample_avail"]) == (not c.case[0], c.case[1], c.case[2])))),
                ("no-data", z3.BoolVal(isinstance(f["_meta"], Obj) and not f["_meta"].fields))] + [("inv-" + n, g) for n, g in buf_inv(a["self"])]


PROOFS = {"P05": [Prev, Next, Unfinished], "P06": [SampleIndices, SampleAvail], "P03": [Init, Reset, PreAdd, SampleIndices], "P04": [Init, PreAdd, Reset]}
LEMMAS = {"P06": [avail_lemmas]}
