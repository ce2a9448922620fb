"""Vectorised buffers: any number of sub-buffers laid out back to back."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.npmodel import write_elems
from contracts.ring import *
from contracts.store import Rows, flat, BASIC, DONE, POL, J, forall_idx
from pyvc.interp import IterV

MAN = "tianshou.data.buffer.manager"


class Family:
    """the sub-buffers: K of them, edges E(0)=0 < E(1) < ... < E(K), each with its own ring state (last index global)"""

    def __init__(self, c):
        self.c = c
        self.K = c.Int("buffers")
        self.edges = c.arr("edges", (self.K + 1,), "int")
        self.E = self.edges.snap()
        self.total = self.E(self.K)
        self.lens = c.arr("lens", (self.K,), "int")
        self.last = c.arr("last", (self.K,), "int")
        self.done = c.arr("done", (self.total,), "bool")
        self.ins = z3.Function("ins", z3.IntSort(), z3.IntSort())

    def ring(self, b):
        return self.E(b + 1) - self.E(b), self.lens.snap()(b), self.ins(b), self.last.snap()(b) - self.E(b)

    def local_done(self, b):
        d = self.done.snap()
        return lambda i: d(self.E(b) + i)

    def pre(self):
        c, E = self.c, self.E
        return [("some", self.K >= 1), ("edges", z3.And(E(0) == 0, c.forall2(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= self.K), E(i) < E(j)),
                                                                              pats=[lambda i, j: z3.MultiPattern(E(i), E(j))]))),
                ("rings", c.forall(lambda b: ring_inv(*self.ring(b)), 0, self.K))]

    def inside(self, x, b):
        return z3.And(self.E(b) <= x, x < self.E(b + 1))


class _IStep(Contract):
    argorder = ("index", "offset", "done", "last_index", "lengths")

    def params(self, c, case):
        self.F = F = Family(c)
        self.ix = c.arr("ix", (c.nat("n"),), "int")
        return dict(index=self.ix, offset=F.edges, done=F.done, last_index=F.last, lengths=F.lens)

    def pre(self, c, a):
        x = self.ix.snap()
        return self.F.pre() + [("indices", c.forall(lambda j: z3.And(0 <= x(j), x(j) < self.F.total), 0, self.ix.shape[0]))]

    def right(self, j, b, x, res):
        F = self.F
        r = F.ring(b)
        return z3.Implies(z3.And(F.inside(x(j), b), x(j) - F.E(b) < r[1]), res(j) == F.E(b) + self.spec(*r[:3], F.local_done(b), x(j) - F.E(b)))

    def claim(self, c, x, res, upto):
        n = self.ix.shape[0]
        return c.forall2(lambda j, b: z3.Implies(z3.And(0 <= j, j < n, 0 <= b, b < upto), self.right(j, b, x, res)))

    def inv(self, c, L):
        out = getattr(L, self.out)
        return [("sub-buffers-done", self.claim(c, self.x0, out.snap(), L.k)), ("one-each", I(out.shape[0]) == I(self.ix.shape[0]))]

    @property
    def loops(self):
        return {0: Loop(self.inv)}

    def prepare(self, c, a):
        self.x0 = self.ix.snap()

    def post(self, c, a, old, res):
        return [("answers-as-the-sub-buffer-shifted", self.claim(c, old["index"].snap(), res.snap(), self.F.K)),
                ("one-each", I(res.shape[0]) == I(self.ix.shape[0]))]


class PrevIndex(_IStep):
    """vectorised prev: every stored index gets its sub-buffer's answer shifted by that sub-buffer's offset (any number of sub-buffers)"""
    target = MAN + ":_prev_index"
    out = "prev_index"
    spec = staticmethod(prev_of)


class NextIndex(_IStep):
    """vectorised next: every stored index gets its sub-buffer's answer shifted by that sub-buffer's offset"""
    target = MAN + ":_next_index"
    out = "next_index"
    spec = staticmethod(next_of)



class Elem(Obj):
    """the b-th sub-buffer: an object of the real ReplayBuffer class whose fields are those of the family at b"""


FAM = dict(_size="int", _insertion_idx="int", last_index="int", _ep_len="int", _ep_start_idx="int", _ep_return="real")


class Subs(Model):
    """self.buffers: any number of sub-buffers (an object array); reads and writes go to the family's field arrays"""

    def __init__(self, c, stack_num=1, save_obs_next=True, last_only=False, sample_avail=False):
        self.c = c
        self.K = c.Int("buffers")
        self.edges = c.arr("edges", (self.K + 1,), "int")
        self.E = self.edges.snap()
        self.st = {k: c.arr("sub" + k, (self.K,), t) for k, t in FAM.items()}
        self.opts = dict(stack_num=stack_num, _save_obs_next=save_obs_next, _save_only_last_obs=last_only, _sample_avail=sample_avail)
        m = Module.get("tianshou.data.buffer.base")
        self.cls = c.it.ver.get_class(m, m.defs["ReplayBuffer"])
        self.done = None

    def cap(self, b):
        return self.E(b + 1) - self.E(b)

    def elem(self, b):
        c, b = self.c, I(b)
        st = {k: v.snap() for k, v in self.st.items()}
        f = {k: st[k](b) for k in FAM if k != "last_index"}
        o = Elem(self.cls, dict(f, maxsize=self.cap(b), last_index=c.lam((1,), lambda i, v=st["last_index"](b): v, "int"), **self.opts))
        if self.done is not None:
            d, off = self.done.snap(), self.E(b)
            o.fields["_meta"] = batch_obj(c, "sub_meta", done=c.lam((self.cap(b),), lambda i: d(off + I(i)), "bool"))
        o.fam = (self, b)
        return c.reg(o, "sub-buffer")

    def sync(self, o):
        """write an element's fields back"""
        b = o.fam[1]
        for k, arr in self.st.items():
            v = o.fields[k].snap()(0) if k == "last_index" else o.fields[k]
            write_elems(self.c, arr, lambda j: I(j) == b, lambda j, v=v: v)

    def m_getitem(self, c, idx):
        c.prove("sub-buffer-exists", z3.And(0 <= I(idx), I(idx) < self.K), "safety")
        return self.elem(idx)

    def m_iter(self, c):
        return IterV(self.K, self.elem)

    def m_len(self, c):
        return self.K


def fam_ring(S, st, b):
    return S.cap(b), st["_size"](b), st["_insertion_idx"](b), st["last_index"](b)


class _Manager(Contract):
    """shared set-up: a manager over any number of sub-buffers of any sizes"""
    opts = {}

    def manager(self, c, meta=None, **opts):
        S = self.S = Subs(c, **opts)
        m = Module.get(MAN)
        self.lengths, self.last = c.arr("lengths", (S.K,), "int"), c.arr("last", (S.K,), "int")
        total = S.E(S.K)
        E = S.E
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["ReplayBufferManager"]), dict(
            buffers=S, buffer_num=S.K, _offset=c.lam((S.K,), lambda b: E(I(b)), "int"), _extend_offset=S.edges, _lengths=self.lengths, last_index=self.last,
            maxsize=total, _size=c.Int("own_size"), _insertion_idx=c.Int("own_ins"), _ep_len=0, _ep_start_idx=0, _ep_return=0.0, **S.opts)), "manager")
        o.fields["_meta"] = meta(total) if meta else batch_obj(c, "meta")
        self.o = o
        return o

    def st(self, a=None):
        return {k: v.snap() for k, v in (a["self"].fields["buffers"].st if a else self.S.st).items()}

    def inv_of(self, c, st, lens, last):
        S, E = self.S, self.S.E
        return [("sub-buffers-well-formed", c.forall(lambda b: z3.And(ring_inv(*fam_ring(S, st, b)), ep_inv(S.cap(b), st["_size"](b), st["_insertion_idx"](b), st["_ep_len"](b), st["_ep_start_idx"](b))), 0, S.K)),
                ("lengths-agree", c.forall(lambda b: lens(b) == st["_size"](b), 0, S.K)),
                ("newest-agree", c.forall(lambda b: last(b) == E(b) + st["last_index"](b), 0, S.K))]

    def pre(self, c, a):
        S, E = self.S, self.S.E
        self.st0, self.lens0, self.last0 = self.st(), self.lengths.snap(), self.last.snap()
        return [("some", S.K >= 1), ("edges", z3.And(E(0) == 0, c.forall2(lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j <= S.K), E(i) < E(j)),
                                                                          pats=[lambda i, j: z3.MultiPattern(E(i), E(j))])))] + \
            self.inv_of(c, self.st0, self.lens0, self.last0)

    def inv_now(self, c, a):
        f = self.o.fields
        return [("inv-" + n, g) for n, g in self.inv_of(c, self.st(), f["_lengths"].snap(), f["last_index"].snap())]


def on_elem(contract, argn):
    """override for a sub-buffer method: apply the method's (separately proved) contract and write the fields back"""
    def call(c, args, kw):
        o = args[0]
        if not isinstance(o, Elem):
            raise Unsupported("method of a buffer that is not a sub-buffer")
        con = contract()
        a = dict(zip(argn, args))
        a.update(kw)
        r = con.on_element(c, a) if hasattr(con, "on_element") else con.apply(c, a)
        o.fam[0].sync(o)
        return r
    return call


class ElemReset(Reset):
    def on_element(self, c, a):
        o = a["self"]
        a.setdefault("keep_statistics", False)
        for nm, f in self.pre(c, a):
            c.prove("call:reset:pre:" + nm, f, "pre")
        old = snapshot(a)
        o.fields.update(last_index=c.arr("last", (1,), "int"), _insertion_idx=c.Int("ins"), _size=c.Int("size"), _ep_len=c.Int("ep_len"), _ep_start_idx=c.Int("ep_start"), _ep_return=c.Real("ep_ret"))
        for nm, f in self.post(c, a, old, None):
            c.assume(f)


class ManagerReset(_Manager):
    """manager reset: every sub-buffer is empty (keeping its running return and length exactly when asked), the global books agree"""
    target = MAN + ":ReplayBufferManager.reset"
    argorder = ("self", "keep_statistics")
    overrides = {"tianshou.data.buffer.base:ReplayBuffer.reset": on_elem(ElemReset, ("self", "keep_statistics"))}

    def params(self, c, case):
        return dict(self=self.manager(c), keep_statistics=c.Bool("keep"))

    def one(self, b, st, keep):
        z = self.st0
        return z3.And(st["_size"](b) == 0, st["_insertion_idx"](b) == 0, st["last_index"](b) == 0, st["_ep_start_idx"](b) == 0,
                      z3.If(keep, z3.And(st["_ep_return"](b) == z["_ep_return"](b), st["_ep_len"](b) == z["_ep_len"](b)), z3.And(st["_ep_return"](b) == 0, st["_ep_len"](b) == 0)))

    def inv(self, c, L):
        st = self.st()
        return [("done-so-far", c.forall(lambda b: self.one(b, st, B(L.keep_statistics)), 0, L.k)),
                ("others-kept", c.forall(lambda b: z3.And(*[st[k](b) == self.st0[k](b) for k in FAM]), L.k, self.S.K))]

    @property
    def loops(self):
        return {("reset", 0): Loop(self.inv)}

    def post(self, c, a, old, res):
        st = self.st()
        f = self.o.fields
        l, n = f["last_index"].snap(), f["_lengths"].snap()
        E = self.S.E
        return [("every-sub-buffer-empty", c.forall(lambda b: self.one(b, st, B(old["keep_statistics"])), 0, self.S.K)),
                ("books", z3.And(I(f["last_index"].shape[0]) == self.S.K, I(f["_lengths"].shape[0]) == self.S.K, c.forall(lambda b: z3.And(l(b) == E(b), n(b) == 0), 0, self.S.K))),
                ("offsets-not-shared", z3.BoolVal(f["last_index"] is not f["_offset"]))] + self.inv_now(c, a)



class ManagerAdd(_Manager):
    """manager add: row i goes, unmodified, to the sub-buffer it is addressed to (its next slot); reports global index, return, length, start;
    every other row and every other sub-buffer's state stays (any number of sub-buffers, rows, sizes and states)"""
    target = MAN + ":ReplayBufferManager.add"
    argorder = ("self", "batch", "buffer_ids")
    trusted = ("rewards are scalars", "the field structure ranges over the listed cases; sizes and values are arbitrary", "the addressed sub-buffers are pairwise different")
    FULL = J(BASIC, DONE)
    FORMS = {"same": (BASIC, FULL), "first": (BASIC, None), "new field": (J(BASIC, POL), FULL), "new nested field": (J(BASIC, {("info", "z"): "real"}), FULL),
             "lacking field": (BASIC, J(FULL, POL)), "image": (J(BASIC, {("obs",): "frames", ("obs_next",): "frames"}), J(FULL, {("obs",): "frames", ("obs_next",): "frames"}))}
    cases = tuple((f, ids, on) for f in FORMS for ids in (True, False) for on in (True, False) if (ids and on) or f == "same")
    cases = tuple(x for x in cases if x[0] == "same")

    @property
    def overrides(self):
        return {"tianshou.data.buffer.base:ReplayBuffer._update_state_pre_add": on_elem(PreAdd, ("self", "rew", "done")),
                "tianshou.data.buffer.base:ReplayBuffer.set_batch": self.set_batch}

    def set_batch(self, c, args, kw):
        """sub-buffer.set_batch: its storage is the sub-buffer's own slice of the manager's (shared memory, right length, every field)"""
        o, b = args[0], args[1]
        S, k = o.fam
        top, sub = flat(self.o.fields["_meta"]), flat(b)
        c.prove("child-storage:same-fields", z3.BoolVal(set(top) == set(sub)), "post")
        for path, v in sub.items():
            t = top[path]
            if v is None:
                continue
            nm = ".".join(path)
            c.prove("child-storage:shares:" + nm, z3.BoolVal(v.base is t), "post")
            i = z3.Int("?v")
            idx = v.imap(i, *[z3.IntVal(0) for _ in v.shape[1:]])
            c.prove("child-storage:slice:" + nm, z3.And(I(v.shape[0]) == S.cap(k), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < S.cap(k)), I(idx[0]) == S.E(k) + i))), "post")

    def params(self, c, case):
        form, ids, on = case
        row, store = self.FORMS[form]
        last = form == "image"
        R_ = self.R_ = Rows(c)
        if store is not None and not on:
            store = {k: v for k, v in store.items() if k != ("obs_next",)}
        o = self.manager(c, (lambda n: R_.store(store, n)) if store is not None else None, save_obs_next=on, last_only=last)
        K = self.S.K
        if ids:
            self.n = c.Int("n")
            idv = c.arr("ids", (self.n,), "int")
            self.id = idv.snap()
        else:
            self.n, idv, self.id = K, None, lambda i: I(i)
        self.W = z3.Function("row_of", z3.IntSort(), z3.IntSort())
        return dict(self=o, batch=R_.row(row, (self.n,), frames=last), buffer_ids=idv)

    def pre(self, c, a):
        S, W = self.S, self.W
        i = z3.Int("?i")
        return super().pre(c, a) + [("rows", self.n >= 1), ("frames", z3.And(*[v >= 1 for k, v in self.R_.dims.items() if k[1] == "t"])),
                                    ("ids", c.forall(lambda i: z3.And(0 <= self.id(i), self.id(i) < S.K, W(self.id(i)) == i), 0, self.n))]

    def prepare(self, c, a):
        row = flat(a["batch"])
        self.rew, self.term, self.trunc = (row[(k,)].snap() for k in ("rew", "terminated", "truncated"))

    def dn(self, i):
        return z3.Or(B(self.term(i)), B(self.trunc(i)))

    def touched(self, b, k):
        return z3.And(0 <= self.W(b), self.W(b) < k, self.id(self.W(b)) == b)

    def stepped(self, b, st, lens, last):
        z, S, i = self.st0, self.S, self.W(b)
        cap, s, p, _ = fam_ring(S, z, b)
        d = self.dn(i)
        p2 = z3.If(p + 1 == cap, 0, p + 1)
        return z3.And(st["_size"](b) == z3.If(s < cap, s + 1, cap), st["_insertion_idx"](b) == p2, st["last_index"](b) == p,
                      st["_ep_len"](b) == z3.If(d, 0, z["_ep_len"](b) + 1), st["_ep_return"](b) == z3.If(d, 0, z["_ep_return"](b) + R(self.rew(i))),
                      st["_ep_start_idx"](b) == z3.If(d, p2, z["_ep_start_idx"](b)), lens(b) == st["_size"](b), last(b) == S.E(b) + p)

    def kept(self, b, st, lens, last):
        return z3.And(*[st[k](b) == self.st0[k](b) for k in FAM], lens(b) == self.lens0(b), last(b) == self.last0(b))

    def books(self, c, k):
        st, f = self.st(), self.o.fields
        lens, last = f["_lengths"].snap(), f["last_index"].snap()
        return [("addressed-sub-buffers-advance", c.forall(lambda b: z3.Implies(self.touched(b, k), self.stepped(b, st, lens, last)), 0, self.S.K)),
                ("others-untouched", c.forall(lambda b: z3.Implies(z3.Not(self.touched(b, k)), self.kept(b, st, lens, last)), 0, self.S.K))]

    def reports(self, c, k, idx, ret, ln, start):
        z, E = self.st0, self.S.E

        def one(i):
            b, d = self.id(i), self.dn(i)
            return z3.And(I(idx(i)) == E(b) + z["_insertion_idx"](b), R(ret(i)) == z3.If(d, z["_ep_return"](b) + R(self.rew(i)), 0),
                          I(ln(i)) == z3.If(d, z["_ep_len"](b) + 1, 0), I(start(i)) == E(b) + z["_ep_start_idx"](b))
        return c.forall(one, 0, k)

    def inv(self, c, L):
        lists = [L.insertion_indxS, L.ep_returns, L.ep_lens, L.ep_idxs]
        out = self.books(c, L.k)
        if all(x.concrete and not x.items for x in lists):
            return out + [("reports", L.k == 0)]
        return out + [("lists", z3.And(*[I(x.n) == L.k for x in lists])), ("reports", self.reports(c, L.k, *[x.f for x in lists]))]

    @property
    def loops(self):
        return {("add", 1): Loop(self.inv), ("_set_batch_for_children", 0): Loop(lambda c, L: [], post_hint=self.rebound)}

    def rebound(self, c, L):
        c.ghost["rebound"] = {p: v for p, v in flat(self.o.fields["_meta"]).items()}     # every sub-buffer now views these arrays
        return []

    def post(self, c, a, old, res):
        form, ids, on = c.case
        last = form == "image"
        S, z, E = self.S, self.st0, self.S.E
        out = self.books(c, self.n)
        out.append(("reports", z3.And(*[I(r.shape[0]) == I(self.n) for r in res], self.reports(c, self.n, *[r.snap() for r in (res[0], res[1], res[2], res[3])]))))
        row, row2 = flat(old["batch"]), flat(a["batch"])
        m0, m1 = flat(old["self"].fields["_meta"]), flat(a["self"].fields["_meta"])
        want = {}
        for path, v in row.items():
            if path == ("obs_next",) and not on:
                continue
            if last and path in (("obs",), ("obs_next",)):
                f, t = v.snap(), v.shape[1] - 1
                want[path] = lambda i, *r, f=f, t=t: f(i, t, *r)
            else:
                want[path] = v.snap()
        want[("done",)] = lambda i: self.dn(i)
        out.append(("fields-of-storage", z3.BoolVal(set(m1) == set(want) | set(m0))))
        if set(m1) != set(m0):
            now, seen = flat(a["self"].fields["_meta"]), c.ghost.get("rebound", {})
            out.append(("sub-buffers-share-the-grown-storage", z3.BoolVal(all(seen.get(p) is v for p, v in now.items()))))
        to = lambda b: E(b) + z["_insertion_idx"](b)
        if "last_scatter" in c.ghost:
            hit, w = c.ghost["last_scatter"]     # (proof step) the store puts row i, and no other, at the slot of its sub-buffer
            out.append(("one-slot-per-row", c.forall(lambda i: z3.And(hit(to(self.id(i))), w(to(self.id(i))) == i), 0, self.n)))
            out.append(("no-other-slot", forall_idx(c, (S.K, E(S.K)), lambda b, x: z3.Implies(z3.And(E(b) <= x, x < E(b + 1), hit(x)), z3.And(self.touched(b, self.n), x == to(b))))))
        for path in sorted(set(m1) & (set(want) | set(m0))):
            v, nm = m1[path], ".".join(path)
            f = v.snap()
            zero = z3.BoolVal(False) if v.dtype == "bool" else 0
            w = want.get(path) or (lambda *i: zero)
            g = m0[path].snap() if path in m0 else (lambda *i: zero)
            out.append((nm + ":capacity", I(v.shape[0]) == E(S.K)))
            out.append((nm + ":row-in-its-own-sub-buffer", forall_idx(c, (self.n,) + tuple(v.shape[1:]), lambda i, *r: cmp("==", f(to(self.id(i)), *r), w(i, *r)))))
            out.append((nm + ":all-other-rows-kept", forall_idx(c, (S.K, E(S.K)) + tuple(v.shape[1:]), lambda b, x, *r: z3.Implies(
                z3.And(E(b) <= x, x < E(b + 1), z3.Not(z3.And(self.touched(b, self.n), x == to(b)))), B(cmp("==", f(x, *r), g(x, *r)))))))
        for path, v in row.items():
            out.append((".".join(path) + ":input-untouched", z3.BoolVal(False) if path not in row2 else
                        forall_idx(c, v.shape, lambda *i, v=v, path=path: cmp("==", row2[path].snap()(*i), v.snap()(*i)))))
        return out + self.inv_now(c, a)


class ManagerAddStructures(ManagerAdd):
    """manager add when the storage has to grow (first data, new fields), lacks nothing, or keeps only the last frame: rows land in their own sub-buffers,
    sub-buffers keep sharing the manager's memory"""
    cases = tuple((f, True, True) for f in ManagerAdd.FORMS if f != "same")



class _ManagerStep(_Manager):
    argorder = ("self", "index")
    cases = ("index array", "one index")

    def params(self, c, case):
        o = self.manager(c, lambda n: batch_obj(c, "meta", done=c.arr("done", (n,), "bool")))
        self.ix = c.arr("ix", (c.nat("n"),), "int") if case == "index array" else c.Int("i")
        return dict(self=o, index=self.ix)

    def indices(self):
        return (self.ix.snap(), self.ix.shape[0]) if isinstance(self.ix, Arr) else (lambda j: self.ix, 1)

    def pre(self, c, a):
        x, n = self.indices()
        self.done0 = self.o.fields["_meta"].fields["done"].snap()
        return super().pre(c, a) + [("indices", c.forall(lambda j: z3.And(0 <= x(j), x(j) < self.S.E(self.S.K)), 0, n))]

    def claim(self, c, res, upto):
        S, E, d = self.S, self.S.E, self.done0
        x, n = self.indices()

        def right(j, b):
            r = fam_ring(S, self.st0, b)
            return z3.Implies(z3.And(0 <= j, j < n, 0 <= b, b < upto, E(b) <= x(j), x(j) - E(b) < r[1]),
                              res(j) == E(b) + self.spec(*r[:3], lambda i: d(E(b) + i), x(j) - E(b)))
        return c.forall2(right)

    def inv(self, c, L):
        out = getattr(L, self.out)
        return [("sub-buffers-done", self.claim(c, out.snap(), L.k)), ("one-each", I(out.shape[0]) == I(self.indices()[1]))]

    @property
    def loops(self):
        return {("_prev_index", 0): Loop(self.inv), ("_next_index", 0): Loop(self.inv)}

    def post(self, c, a, old, res):
        n = self.indices()[1]
        get = res.snap() if isinstance(res, Arr) else lambda j: I(res)
        return [("answers-as-the-sub-buffer-shifted", self.claim(c, get, self.S.K)), ("one-each", I(res.shape[0]) == I(n) if isinstance(res, Arr) and res.shape else z3.BoolVal(c.case == "one index"))] + self.inv_now(c, a)


class ManagerPrev(_ManagerStep):
    """manager.prev: every stored index gets its own sub-buffer's answer, shifted by that sub-buffer's offset (any number of sub-buffers and indices)"""
    target = MAN + ":ReplayBufferManager.prev"
    out = "prev_index"
    spec = staticmethod(prev_of)


class ManagerNext(_ManagerStep):
    """manager.next: every stored index gets its own sub-buffer's answer, shifted by that sub-buffer's offset"""
    target = MAN + ":ReplayBufferManager.next"
    out = "next_index"
    spec = staticmethod(next_of)


def prefix_positions(c, n, length):
    """POS(k): where the k-th piece of a concatenation starts; OF(i): the piece holding element i (definitions, with lemma PrefixPositions)"""
    Z = z3.IntSort()
    nm = c.fresh_name("cat")
    POS, OF = z3.Function(nm + "_pos", Z, Z), z3.Function(nm + "_of", Z, Z)
    k, j, i = z3.Int(nm + "?k"), z3.Int(nm + "?j"), z3.Int(nm + "?i")
    c.assume(POS(0) == 0)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), POS(k + 1) == POS(k) + length(k)), patterns=[POS(k)]))
    c.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k <= j, j <= n), POS(k) <= POS(j)), patterns=[z3.MultiPattern(POS(k), POS(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < POS(n)), z3.And(0 <= OF(i), OF(i) < n, POS(OF(i)) <= i, i < POS(OF(i)) + length(OF(i)))), patterns=[OF(i)]))
    return POS, OF


def cat_pieces(c, lst):
    """numpy.concatenate of a list of arrays: piece after piece"""
    f, n = lst.f_, I(lst.n_)
    POS, OF = prefix_positions(c, n, lambda k: I(f(k).shape[0]))
    c.ghost["cat"] = (POS, OF)
    return c.lam((POS(n),), lambda i: f(OF(I(i))).snap()(I(i) - POS(OF(I(i)))), f(z3.IntVal(0)).dtype)


def position_lemmas(ver):
    """PrefixPositions: starts of pieces of non-negative lengths never decrease; the piece holding a position exists and is unique (induction steps)"""
    P, Ln = z3.Function("P", z3.IntSort(), z3.IntSort()), z3.Function("Ln", z3.IntSort(), z3.IntSort())
    k, j, n, i = z3.Ints("k j n i")
    hy = [P(j + 1) == P(j) + Ln(j), Ln(j) >= 0]
    ok = ver.lemma("PrefixPositions", "monotone-step", hy + [P(k) <= P(j)], P(k) <= P(j + 1))
    inn = lambda m: z3.And(P(m) <= i, i < P(m) + Ln(m))
    x = z3.Int("x")
    has = lambda m: z3.Implies(z3.And(P(0) <= i, i < P(m)), z3.Exists([x], z3.And(0 <= x, x < m, inn(x))))
    ok = ver.lemma("PrefixPositions", "piece-exists-base", [], has(z3.IntVal(0))) and ok
    Q, M = z3.Function("Q", z3.IntSort(), z3.IntSort()), z3.Function("Lm", z3.IntSort(), z3.IntSort())
    ok = ver.lemma("PrefixPositions", "equal-totals-base", [P(0) == 0, Q(0) == 0], P(0) == Q(0)) and ok
    ok = ver.lemma("PrefixPositions", "equal-totals-step", hy + [Q(j + 1) == Q(j) + M(j), Ln(j) == M(j), P(j) == Q(j)], P(j + 1) == Q(j + 1)) and ok
    return ver.lemma("PrefixPositions", "piece-exists-step", hy + [j >= 0, has(j)], has(j + 1)) and ok


class ManagerUnfinished(_Manager):
    """manager.unfinished_index: exactly the newest transition of each non-empty sub-buffer whose newest transition does not end an episode, in sub-buffer order"""
    target = MAN + ":ReplayBufferManager.unfinished_index"
    uses = (Unfinished,)
    cat_ragged = staticmethod(cat_pieces)

    def params(self, c, case):
        return dict(self=self.manager(c, lambda n: batch_obj(c, "meta", done=c.arr("done", (n,), "bool"))))

    def pre(self, c, a):
        self.S.done = self.o.fields["_meta"].fields["done"]
        self.done0 = self.S.done.snap()
        return super().pre(c, a)

    def newest(self, b):
        cap, s, p, _ = fam_ring(self.S, self.st0, b)
        return self.S.E(b) + slot(cap, s, p, s - 1)

    def open(self, b):
        return z3.And(self.st0["_size"](b) > 0, z3.Not(B(self.done0(self.newest(b)))))

    @property
    def comps(self):
        return {("unfinished_index", 0): Comp(lambda c, k: c.lam((z3.If(self.open(k), 1, 0),), lambda i: self.newest(k), "int"))}

    def post(self, c, a, old, res):
        POS, OF = c.ghost["cat"]
        K = self.S.K
        f = res.snap()
        return [("one-entry-per-unfinished-sub-buffer", z3.And(I(res.shape[0]) == POS(K), POS(0) == 0, c.forall(lambda b: POS(b + 1) == POS(b) + z3.If(self.open(b), 1, 0), 0, K))),
                ("entries-are-the-newest-unfinished", c.forall(lambda b: z3.Implies(self.open(b), f(POS(b)) == self.newest(b)), 0, K)),
                ("nothing-else", c.forall(lambda i: z3.And(self.open(OF(i)), f(i) == self.newest(OF(i))), 0, res.shape[0]))] + self.inv_now(c, a)


class ManagerLen(_Manager):
    """len(manager) is the sum of the sub-buffer lengths"""
    target = MAN + ":ReplayBufferManager.__len__"

    def params(self, c, case):
        return dict(self=self.manager(c))

    def post(self, c, a, old, res):
        from pyvc.npmodel import REG
        want = REG["np.sum"](c, [c.lam((self.S.K,), lambda b: self.st0["_size"](I(b)), "int")], {})
        return [("sum-of-the-sub-buffer-lengths", I(res) == I(want))]


class ManagerSample(_Manager):
    """manager.sample_indices: everything stored once, sub-buffer by sub-buffer and oldest first (size 0 or omitted); n stored transitions (n>0); none (n<0)"""
    target = MAN + ":ReplayBufferManager.sample_indices"
    argorder = ("self", "batch_size")
    uses = (SampleIndices,)
    cases = ("0", "None", "n", "negative")
    trusted = ("numpy.random.choice(K, n, p) draws n values of range(K) whose probability is positive; numpy.bincount counts them (entries sum to n)",)

    def params(self, c, case):
        o = self.manager(c, lambda n: batch_obj(c, "meta", done=c.arr("done", (n,), "bool")))
        self.what, self.DR = case, z3.Function("drawn_from", z3.IntSort(), z3.IntSort(), z3.IntSort())
        n = {"0": 0, "None": None, "n": c.Int("n"), "negative": c.Int("n")}[case]
        return dict(self=o, batch_size=n)

    def pre(self, c, a):
        self.S.done = self.o.fields["_meta"].fields["done"]
        out = super().pre(c, a)
        if c.case == "n":
            self.wit = c.Int("some_nonempty")
            out += [("size", a["batch_size"] > 0), ("non-empty", z3.And(0 <= self.wit, self.wit < self.S.K, self.st0["_size"](self.wit) > 0))]
        if c.case == "negative":
            out += [("size", a["batch_size"] < 0)]
        return out

    @property
    def externals(self):
        def choice(c, a, k):
            K, n, p = a[0], a[1], k["p"]
            d = c.arr("chosen", (n,), "int")
            F, pf = d.snap(), self.st0["_size"]
            c.prove("choice:probabilities-are-the-shares-of-stored-transitions", self.is_share(c, p), "post")
            c.assume(c.forall(lambda i: z3.And(0 <= F(i), F(i) < self.S.K, pf(F(i)) > 0), 0, n, pats=[lambda i: F(i)]))
            return d

        def bincount(c, a, k):
            from pyvc.npmodel import REG
            r = REG["np.bincount"](c, a, k)
            self.counts, self.total = r.snap(), I(a[0].shape[0])
            return r
        return {"numpy.random.choice": choice, "numpy.bincount": bincount}

    def cat_ragged(self, c, lst):
        r = cat_pieces(c, lst)
        if c.case == "n":
            k = z3.Int("?k")
            c.prove("piece-lengths-are-the-counts", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.S.K), I(lst.f_(k).shape[0]) == self.counts(k))), "post")
            c.assume(I(r.shape[0]) == self.total)     # lemma PrefixPositions: equal pieces, equal totals; the counts of numpy.bincount sum to n
        return r

    def is_share(self, c, p):
        from pyvc.npmodel import REG
        tot = REG["np.sum"](c, [c.lam((self.S.K,), lambda b: self.st0["_size"](I(b)), "int")], {})
        f = p.snap()
        return z3.And(I(p.shape[0]) == self.S.K, c.forall(lambda b: R(f(b)) == R(self.st0["_size"](b)) / R(tot), 0, self.S.K))

    @property
    def comps(self):
        S = self.S

        if getattr(self, "what", None) == "n":
            def drawn(c, k):
                return c.lam((z3.If(self.counts(k) > 0, self.counts(k), 0),), lambda i: self.DR(I(k), I(i)), "int")

            def stored(c, k, v):
                f = v.snap()
                return [("stored-in-its-sub-buffer", c.forall(lambda i: z3.And(S.E(k) <= f(i), f(i) < S.E(k) + self.st0["_size"](k)), 0, v.shape[0]))]
            return {("sample_indices", 1): Comp(drawn, props=stored)}

        def elem(c, k):
            return c.lam((self.st0["_size"](k),), lambda i: S.E(k) + slot(*fam_ring(S, self.st0, k)[:3], I(i)), "int")
        return {("sample_indices", 1): Comp(elem), ("sample_indices", 0): Comp(elem)}

    def post(self, c, a, old, res):
        S, E, K = self.S, self.S.E, self.S.K
        f = res.snap()
        if c.case == "negative":
            return [("none", I(res.shape[0]) == 0)]
        POS, OF = c.ghost["cat"]
        out = []
        if c.case == "n":
            x = lambda i: self.S.E(OF(i))
            out += [("exactly-n", I(res.shape[0]) == old["batch_size"]),
                    ("only-stored", c.forall(lambda i: z3.And(0 <= OF(i), OF(i) < K, x(i) <= f(i), f(i) < x(i) + self.st0["_size"](OF(i))), 0, res.shape[0]))]
        if c.case in ("0", "None"):
            out += [("laid-out-sub-buffer-by-sub-buffer", z3.And(I(res.shape[0]) == POS(K), POS(0) == 0, c.forall(lambda b: POS(b + 1) == POS(b) + self.st0["_size"](b), 0, K))),
                    ("oldest-first-in-each", c.forall2(lambda b, j: z3.Implies(z3.And(0 <= b, b < K, 0 <= j, j < self.st0["_size"](b)), f(POS(b) + j) == E(b) + slot(*fam_ring(S, self.st0, b)[:3], j))))]
        return out + self.inv_now(c, a)


PROOFS = {"P05": [PrevIndex, NextIndex, ManagerPrev, ManagerNext, ManagerUnfinished], "P07": [ManagerReset, ManagerAdd, ManagerAddStructures, ManagerLen, ManagerSample], "P06": [ManagerSample]}
LEMMAS = {"P05": [position_lemmas], "P07": [position_lemmas], "P06": [position_lemmas]}
