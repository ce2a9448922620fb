"""P03/P04: ReplayBuffer.add on real Batch objects - what the buffer holds after storing one transition.

Batch.__getitem__/__setitem__/__setattr__, create_value and alloc_by_keys_diff are interpreted from their source."""
import z3
from pyvc.values import *
from pyvc.engine import *
from contracts.ring import *


def flat(b, pre=()):
    """leaf arrays of a batch: {path: array}; empty nested batches are kept as None"""
    out = {}
    for k, v in b.fields.items():
        if isinstance(v, Obj):
            sub = flat(v, pre + (k,))
            if not sub:
                out[pre + (k,)] = None
            out.update(sub)
        else:
            out[pre + (k,)] = v
    return out


class Rows:
    """builds rows and storages of the same structure: structure = {path: kind}"""

    def __init__(self, c):
        self.c, self.dims = c, {}

    def dim(self, path, nm="d"):
        k = (path, nm)
        if k not in self.dims:
            self.dims[k] = self.c.nat(nm + "_" + "_".join(path))
        return self.dims[k]

    def shape(self, path, kind, stacked_frames=False):
        if kind.startswith("vec"):
            return (self.dim(path),)
        if kind.startswith("frames"):
            return (self.dim(path, "t"), self.dim(path)) if stacked_frames else (self.dim(path),)
        return ()

    def dtype(self, kind):
        return "bool" if kind.endswith("bool") else "int" if kind.endswith("int") else "real"

    def tree(self, leaves, label):
        top = batch_obj(self.c, label)
        for path, v in leaves.items():
            b = top
            for k in path[:-1]:
                if k not in b.fields:
                    b.fields[k] = batch_obj(self.c, label + "_" + k)
                b = b.fields[k]
            b.fields[path[-1]] = v if v is not None else batch_obj(self.c, label + "_empty")
        return top

    def row(self, struct, lead=(), label="row", frames=False):
        return self.tree({p: self.c.arr("_".join((label,) + p), tuple(lead) + self.shape(p, k, frames), self.dtype(k)) if k else None
                          for p, k in struct.items()}, label)

    def store(self, struct, cap, label="meta"):
        return self.tree({p: self.c.arr("_".join((label,) + p), (cap,) + self.shape(p, k), self.dtype(k)) if k else None
                          for p, k in struct.items()}, label)


BASIC = {("obs",): "vec", ("act",): "int", ("rew",): "real", ("terminated",): "bool", ("truncated",): "bool", ("obs_next",): "vec",
         ("info", "x"): "real", ("info", "n", "y"): "vec int"}
DONE = {("done",): "bool"}
POL = {("policy", "h"): "vec"}


def J(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


def forall_idx(c, shape, fn):
    """for all index tuples of this shape"""
    if not shape:
        return B(fn())
    vs = [z3.Int(c.fresh_name("?r")) for _ in shape]
    return z3.ForAll(vs, z3.Implies(z3.And(*[z3.And(v >= 0, v < I(s)) for v, s in zip(vs, shape)]), B(fn(*vs))))


class Add(Contract):
    """add stores the row, unmodified in every field, at the reported slot; all other stored rows are unchanged (any capacity, state and values)"""
    target = BASE + ":ReplayBuffer.add"
    argorder = ("self", "batch", "buffer_ids")
    uses = (PreAdd,)
    trusted = ("the field structure ranges over the listed cases (flat, nested, new, lacking, ignored and last-frame fields); sizes and values are arbitrary",)
    FORMS = {
        # name: (row structure, storage structure or None for an empty storage)
        "first": (BASIC, None),
        "same": (BASIC, J(BASIC, DONE)),
        "new field": (J(BASIC, POL), J(BASIC, DONE)),
        "new nested field": (J(BASIC, {("info", "z"): "real"}), J(BASIC, DONE)),
        "lacking field": (BASIC, J(BASIC, DONE, POL)),
        "lacking nested field": ({k: v for k, v in BASIC.items() if k != ("info", "x")}, J(BASIC, DONE)),
        "empty nested": (J({k: v for k, v in BASIC.items() if k[0] != "info"}, {("info",): None}),
                         J({k: v for k, v in BASIC.items() if k[0] != "info"}, DONE, {("info",): None})),
        "vector actions": (J(BASIC, {("act",): "vec"}), J(BASIC, DONE, {("act",): "vec"})),
        "image": (J(BASIC, {("obs",): "frames", ("obs_next",): "frames"}), J(BASIC, DONE, {("obs",): "frames", ("obs_next",): "frames"})),
        "image first": (J(BASIC, {("obs",): "frames", ("obs_next",): "frames"}), None),
    }
    cases = tuple([(f, st, True, False) for f in FORMS if not f.startswith("image") for st in (False, True)] +
                  [(f, st, False, False) for f in ("first", "same") for st in (False, True)] +
                  [(f, st, on, True) for f in ("image", "image first") for st in (False, True) for on in (False, True)])

    def params(self, c, case):
        form, stacked, on, last = case
        row, store = self.FORMS[form]
        R_ = self.R_ = Rows(c)
        self.row_struct = row
        if store is not None and not on:
            store = {k: v for k, v in store.items() if k != ("obs_next",)}
        self.r = Ring(c, meta=(lambda r: R_.store(store, r.cap)) if store is not None else None, save_obs_next=on, save_only_last_obs=last)
        b = R_.row(row, (1,) if stacked else (), frames=last)
        ids = c.reg(PList([0]), "ids") if stacked else None
        return dict(self=self.r.o, batch=b, buffer_ids=ids)

    def pre(self, c, a):
        return buf_inv(a["self"]) + [("some-frame", v >= 1) for k, v in self.R_.dims.items() if k[1] == "t"]

    def post(self, c, a, old, res):
        form, stacked, on, last = c.case
        cap, s, p, l, ln, st = state(old["self"])
        row, row2 = flat(old["batch"]), flat(a["batch"])
        m0, m1 = flat(old["self"].fields["_meta"]), flat(a["self"].fields["_meta"])
        lead = (0,) if stacked else ()
        term, trunc = row[("terminated",)].snap(), row[("truncated",)].snap()
        done = z3.Or(B(term(*lead)), B(trunc(*lead)))
        want = {}
        for path, v in row.items():
            if path == ("obs_next",) and not on:
                continue
            if v is None:
                want[path] = None
            elif last and path in (("obs",), ("obs_next",)):
                f, t = v.snap(), v.shape[len(lead)] - 1
                want[path] = (lambda *i, f=f, t=t: f(*lead, t, *i))
            else:
                want[path] = (lambda *i, f=v.snap(): f(*lead, *i))
        want[("done",)] = lambda *i: done
        out = [("fields-of-storage", z3.BoolVal(set(m1) == set(want) | set(m0)))]
        for path in sorted(set(m1) & (set(want) | set(m0))):
            v, nm = m1[path], ".".join(path)
            if v is None:
                out.append((f"{nm}:still-empty", z3.BoolVal(want.get(path) is None and m0.get(path) is None)))
                continue
            f = v.snap()
            out.append((f"{nm}:capacity", I(v.shape[0]) == cap))
            zero = z3.BoolVal(False) if v.dtype == "bool" else 0
            w = want.get(path) or (lambda *i: zero)
            out.append((f"{nm}:stored-row", forall_idx(c, v.shape[1:], lambda *i: cmp("==", f(p, *i), w(*i)))))
            g = m0[path].snap() if m0.get(path) is not None else None
            out.append((f"{nm}:other-rows-kept", forall_idx(c, v.shape, lambda j, *i: z3.Implies(j != p, B(cmp("==", f(j, *i), g(j, *i) if g else zero))))))
        for path, v in row.items():
            if v is not None:
                out.append((".".join(path) + ":input-untouched", z3.BoolVal(row2.get(path) is not None) if row2.get(path) is None else
                            forall_idx(c, v.shape, lambda *i, v=v, path=path: cmp("==", row2[path].snap()(*i), v.snap()(*i)))))
        q0, q1, q2, q3 = res
        r0 = ret_of(old["self"])
        rew = row[("rew",)].snap()(*lead)
        out += [("reported-slot", z3.And(I(q0.shape[0]) == 1, I(q0.f(0)) == p)),
                ("reported-return", R(q1.f(0)) == z3.If(done, r0() + R(rew), 0)),
                ("reported-length", I(q2.f(0)) == z3.If(done, ln + 1, 0)),
                ("reported-start", z3.And(I(q3.f(0)) == st, z3.Implies(ln == 0, I(q3.f(0)) == p)))]
        cap2, s2, p2, l2, ln2, st2 = state(a["self"])
        out += [("one-step", z3.And(cap2 == cap, l2 == p, p2 == z3.If(p + 1 == cap, 0, p + 1), s2 == z3.If(s < cap, s + 1, cap)))]
        return out + [("inv-" + n_, f) for n_, f in buf_inv(a["self"])]



class Update(Contract):
    """update: the target then holds the most recent of (its old transitions followed by the source's, oldest first), in every field; the source is unchanged"""
    target = BASE + ":ReplayBuffer.update"
    argorder = ("self", "buffer")
    uses = (SampleIndices,)
    trusted = Add.trusted + ("source and target are distinct buffers",)
    FULL = J(BASIC, DONE)
    FORMS = {"same fields": (FULL, FULL), "into an empty storage": (FULL, None), "source has a new field": (J(FULL, POL), FULL),
             "source has a new nested field": (J(FULL, {("info", "z"): "real"}), FULL), "source lacks a field": (FULL, J(FULL, POL)),
             "source lacks a nested field": (FULL, J(FULL, {("info", "z"): "real"}))}
    cases = tuple((f, a) for f in FORMS for a in (False, True) if not a or f == "same fields")

    def params(self, c, case):
        form, avail = case
        src, tgt = self.FORMS[form]
        R_ = self.R_ = Rows(c)
        self.q = q = Ring(c, "_src", meta=lambda r: R_.store(src, r.cap, "src"), stack_num=c.Int("stack_num"), sample_avail=avail)
        self.r = r = Ring(c, meta=(lambda r: R_.store(tgt, r.cap)) if tgt is not None else None)
        self.SLOT = z3.Function("ins_slot", z3.IntSort(), z3.IntSort())
        return dict(self=r.o, buffer=q.o)

    def step(self, x):
        return z3.If(x + 1 == self.r.cap, 0, x + 1)

    def pre(self, c, a):
        i, j, S, cap = z3.Int("?i"), z3.Int("?j"), self.SLOT, self.r.cap
        return buf_inv(self.r.o) + [("src-" + n, f) for n, f in buf_inv(self.q.o)] + [
            ("stack", I(self.q.o.fields["stack_num"]) >= 1), ("def-slot-0", S(0) == self.r.p),
            # lemma InsertionSlots (below): k insertions later the pointer has advanced by k, modulo the capacity
            ("slots-range", z3.ForAll([i], z3.Implies(i >= 0, z3.And(0 <= S(i), S(i) < cap)), patterns=[S(i)])),
            ("slots-advance", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= i + cap), S(j) == z3.If(S(i) + (j - i) >= cap, S(i) + (j - i) - cap, S(i) + (j - i))),
                                        patterns=[z3.MultiPattern(S(i), S(j))]))]

    def inv(self, c, L):
        r, S = self.r, self.SLOT
        o = r.o.fields
        u = L.updated_indices
        return [("pointer", z3.And(I(o["_insertion_idx"]) == S(L.k), I(o["_size"]) == z3.If(r.s + L.k < r.cap, r.s + L.k, r.cap))),
                ("newest", o["last_index"].snap()(0) == z3.If(L.k == 0, self.l0, S(L.k - 1))),
                ("slots", z3.And(I(u.n) == L.k, c.forall(lambda j: u.f(j) == S(j), 0, L.k))) if not (u.concrete and not u.items) else ("slots", L.k == 0)]

    def prepare(self, c, a):
        self.l0 = self.r.l.snap()(0)

    @property
    def loops(self):
        return {("update", 0): Loop(self.inv, hint=lambda c, L: [self.SLOT(L.k + 1) == self.step(self.SLOT(L.k))])}

    def post(self, c, a, old, res):
        cap, s, p, l, ln, st = state(old["self"])
        qcap, n, qp, *_ = state(old["buffer"])
        cap2, s2, p2, l2, ln2, st2 = state(a["self"])
        S = self.SLOT
        total = s + n
        out = [("length", s2 == z3.If(total < cap, total, cap)), ("capacity", cap2 == cap),
               ("reported-slots", z3.And(I(res.shape[0]) == n, c.forall(lambda k: res.snap()(k) == S(k), 0, n)))]
        src, src2 = flat(old["buffer"].fields["_meta"]), flat(a["buffer"].fields["_meta"])
        m0, m1 = flat(old["self"].fields["_meta"]), flat(a["self"].fields["_meta"])
        out.append(("fields-of-storage", z3.Implies(n > 0, z3.BoolVal(set(m1) == set(src) | set(m0)))))
        out.append(("order:source-transitions", c.forall(lambda k: z3.Implies(n - k <= cap, slot(cap, s2, p2, s2 - n + k) == S(k)), 0, n)))
        out.append(("order:surviving-transitions", c.forall(lambda t: z3.Implies(total - t <= cap, slot(cap, s2, p2, t + s2 - total) == slot(cap, s, p, t)), 0, s)))
        for path, v in m1.items():
            nm, f = ".".join(path), v.snap()
            zero = z3.BoolVal(False) if v.dtype == "bool" else 0
            g = m0[path].snap() if path in m0 else (lambda *i: zero)
            h = src[path].snap() if path in src else (lambda *i: zero)
            out.append((f"{nm}:capacity", I(v.shape[0]) == cap))

            # position t of (old transitions ++ source transitions): t < s the old one in its slot, s + k the source's k-th in slot S(k)
            out.append((f"{nm}:source-transitions", forall_idx(c, (n,) + tuple(v.shape[1:]),
                        lambda k, *i: z3.Implies(n - k <= cap, B(cmp("==", f(S(k), *i), h(slot(qcap, n, qp, k), *i)))))))
            out.append((f"{nm}:surviving-transitions", forall_idx(c, (s,) + tuple(v.shape[1:]),
                        lambda t, *i: z3.Implies(total - t <= cap, B(cmp("==", f(slot(cap, s, p, t), *i), g(slot(cap, s, p, t), *i)))))))
        for path, v in src.items():
            out.append((".".join(path) + ":source-untouched", z3.BoolVal(False) if path not in src2 else forall_idx(c, v.shape, lambda *i, v=v, path=path: cmp("==", src2[path].snap()(*i), v.snap()(*i)))))
        fa, fb = a["buffer"].fields, old["buffer"].fields
        out.append(("source-state-untouched", z3.And(*[I(fa[k]) == I(fb[k]) for k in ("_size", "_insertion_idx", "stack_num", "_ep_len", "_ep_start_idx", "maxsize")],
                                                     R(fa["_ep_return"]) == R(fb["_ep_return"]), fa["last_index"].snap()(0) == fb["last_index"].snap()(0))))
        out.append(("running-episode-kept", z3.And(ln2 == ln, R(a["self"].fields["_ep_return"]) == R(old["self"].fields["_ep_return"]), z3.Implies(ln > 0, st2 == st))))
        return out + [("inv-" + n_, f) for n_, f in buf_inv(a["self"])]


def slot_lemmas(ver):
    """InsertionSlots: k insertions later the insertion pointer has advanced by k modulo the capacity (induction)"""
    S = z3.Function("ins_slot", z3.IntSort(), z3.IntSort())
    cap, i, d = z3.Ints("cap i d")
    step = lambda x: z3.If(x + 1 == cap, 0, x + 1)
    ok = ver.lemma("InsertionSlots", "range-step", [cap >= 1, 0 <= S(i), S(i) < cap, S(i + 1) == step(S(i))], z3.And(0 <= S(i + 1), S(i + 1) < cap))
    adv = lambda d_: S(i + d_) == z3.If(S(i) + d_ >= cap, S(i) + d_ - cap, S(i) + d_)
    ok = ver.lemma("InsertionSlots", "advance-base", [cap >= 1, 0 <= S(i), S(i) < cap], adv(z3.IntVal(0))) and ok
    return ver.lemma("InsertionSlots", "advance-step", [cap >= 1, 0 <= S(i), S(i) < cap, 0 <= d, d < cap, adv(d), S(i + d + 1) == step(S(i + d))],
                     S(i + (d + 1)) == z3.If(S(i) + d + 1 >= cap, S(i) + d + 1 - cap, S(i) + d + 1)) and ok


PROOFS = {"P03": [Add, Update], "P04": [Add]}
LEMMAS = {"P03": [slot_lemmas]}
