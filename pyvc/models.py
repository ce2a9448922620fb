"""Host-side models shared by contracts: attribute records (Batch used as a plain record), nested batches, stubs."""
import z3
from .values import *
from .engine import *


class Rec(Model):
    """a record of named values (a Batch / namespace used by attribute only).  Reads of absent names raise AttributeError
    as Batch.__getattr__ does; writes are recorded."""
    def __init__(self, c, name, fields, n=None, pytype=("Batch",), extra=None):
        self.fields = dict(fields)
        self.pytype = pytype
        self.n = n
        self.name = name
        self.extra = dict(extra or {})
        c.reg(self, "rec_" + name)

    def m_snap(self, memo):
        r = object.__new__(type(self))
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        r.fields = {k: snapshot(v, memo) for k, v in self.fields.items()}
        return r

    def m_getattr(self, c, name):
        if name in self.fields:
            return self.fields[name]
        if name in self.extra:
            return self.extra[name]
        if name in ("get",):
            return Prim("get", lambda cc, a, k: self.fields.get(a[0], a[1] if len(a) > 1 else None))
        if name == "pop":
            def pop(cc, a, k):
                cc.on_write(("model", self.label), self)
                if a[0] in self.fields:
                    return self.fields.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError")
            return Prim("pop", pop)
        if name in ("keys", "get_keys"):
            return Prim("keys", lambda cc, a, k: tuple(self.fields))
        if name in ("items",):
            return Prim("items", lambda cc, a, k: tuple(self.fields.items()))
        raise PyRaise("AttributeError", name)

    def m_setattr(self, c, name, v):
        c.on_write(("model", self.label), self)
        self.fields[name] = v

    def m_getitem(self, c, idx):
        if isinstance(idx, str):
            if idx in self.fields:
                return self.fields[idx]
            raise PyRaise("KeyError", idx)
        if isinstance(idx, (Arr, SliceV, PList)):
            # Batch.__getitem__: the same index applied to every field (assumed here, decided under P18)
            out = {}
            for k, v in self.fields.items():
                out[k] = c.it.getitem(v, idx) if isinstance(v, (Arr, Rec, PList)) else v
            return Rec(c, self.name + "_sel", out, pytype=self.pytype)
        raise Unsupported(f"index of record {self.name}")

    def m_setitem(self, c, idx, v):
        if isinstance(idx, str):
            return self.m_setattr(c, idx, v)
        raise Unsupported(f"store into record {self.name}")

    def m_contains(self, c, x):
        if isinstance(x, str):
            return x in self.fields
        raise Unsupported("record contains")

    def m_len(self, c):
        if self.n is None:
            raise Unsupported(f"len of record {self.name}")
        return self.n

    def m_iter(self, c):
        return tuple(self.fields)


class Fn(Model):
    """a callable stub: host function(c, args, kw)"""
    pytype = ("Callable",)

    def __init__(self, c, name, fn):
        self.name, self.fn = name, fn
        c.reg(self, "fn_" + name)

    def m_call(self, c, args, kw):
        return self.fn(c, args, kw)


def batch_ctor(c, a, k):
    """Batch(**fields) / Batch(dict, **fields): a record of exactly these fields (dicts become nested records)"""
    f = {}
    if a:
        if len(a) != 1 or not isinstance(a[0], PDict):
            raise Unsupported("Batch of something else than keyword fields")
        f.update(a[0].d)
    f.update(k)
    return Rec(c, "Batch", {n: batch_ctor(c, [v], {}) if isinstance(v, PDict) else v for n, v in f.items()})


BATCH = {"tianshou.data.batch:Batch": batch_ctor}
TRUST_BATCH = "Batch(**fields) is a record of exactly these fields; indexing it indexes every field (P18)"


def _to_numpy(c, a, k):
    x = a[0]
    if isinstance(x, Arr):
        if x.kind == "np":
            return x
        return c.reg(Arr(x.shape, None, x.dtype, kind="np", base=x, imap=lambda *i: i, inv=lambda *j: (z3.BoolVal(True), j)), "np")
    raise Unsupported("to_numpy of something else than an array")


def _to_torch_as(c, a, k):
    from . import npmodel
    x, y = a[0], a[1]
    if is_scalar(x):
        x = npmodel.to_arr(c, x)
    if isinstance(x, Arr) and isinstance(y, Arr):
        r = npmodel.astype(c, x, y.dtype)
        r = r.copy() if r is x else r
        r.kind = "torch"
        return c.reg(r, "torch")
    raise Unsupported("to_torch_as of something else than arrays")


def _to_torch(c, a, k):
    from . import npmodel
    x = a[0]
    if isinstance(x, Arr):
        dt = k.get("dtype", a[1] if len(a) > 1 else None)
        r = npmodel.astype(c, x, npmodel.dtype_of(dt)) if dt is not None else x
        r = r.copy() if r is x else r
        r.kind = "torch"
        return c.reg(r, "torch")
    raise Unsupported("to_torch of something else than an array")


CONV = {"tianshou.data.utils.converter:to_numpy": _to_numpy, "tianshou.data.utils.converter:to_torch_as": _to_torch_as,
        "tianshou.data.utils.converter:to_torch": _to_torch}
TRUST_CONV = "to_numpy/to_torch/to_torch_as keep an array's values (dtype conversion only; P11)"


class Tens(Model):
    """an abstract tensor / network / optimiser: every operation yields another abstract value; mutating operations
    (names ending in a single underscore, load_state_dict, step, backward, item assignment) are recorded in a log.
    Used where a contract is about which operations happen on which object, not about numbers."""
    pytype = ("Tensor", "Module")

    def __init__(self, c, name, log=None, attrs=None, quiet=False):
        self.name, self.log, self.attrs = name, log if log is not None else [], dict(attrs or {})
        c.reg(self, "t_" + name)

    def new(self, c, name):
        return Tens(c, name, self.log)

    def m_snap(self, memo):
        memo[id(self)] = self
        return self

    def m_getattr(self, c, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == "item":
            return Prim("item", lambda cc, a, k: cc.Real("item"))
        t = self.new(c, f"{self.name}.{name}")
        t.owner, t.op = self, name
        return t

    def m_call(self, c, args, kw):
        op, owner = getattr(self, "op", None), getattr(self, "owner", None)
        if op is None:
            self.log.append(("call", self.name, args, kw))
        elif (op.endswith("_") and not op.endswith("__")) or op in ("step", "backward", "load_state_dict", "zero_grad", "set_", "train", "eval"):
            self.log.append(("op", owner.root(), op, args))
            if op.endswith("_"):
                return owner
        r = self.new(c, self.name + "()")
        r.parent = owner if op is not None else self
        return r

    def root(self):
        o = self
        while getattr(o, "owner", None) is not None or getattr(o, "parent", None) is not None:
            o = getattr(o, "owner", None) or getattr(o, "parent", None)
        return o.name

    def m_setattr(self, c, name, v):
        self.log.append(("op", self.root(), "set " + name, [v]))
        self.attrs[name] = v

    def m_getitem(self, c, idx):
        r = self.new(c, self.name + "[]")
        r.parent = self
        return r

    def m_setitem(self, c, idx, v):
        self.log.append(("op", self.root(), "setitem", [idx, v]))

    def m_binop(self, c, op, a, b):
        return self.new(c, op)

    def m_cmp(self, c, op, b):
        return self.new(c, op)

    def m_len(self, c):
        if "len" not in self.attrs:
            self.attrs["len"] = c.nat("len")
        return self.attrs["len"]

    def m_iter(self, c):
        return (self.new(c, self.name + "[0]"), self.new(c, self.name + "[1]"))

    def m_bool(self, c):
        return c.Bool("truth")


class AnyTorch(dict):
    """externals map: every torch function (also under F) applied to abstract values yields an abstract value"""
    def __init__(self, log, extra=None):
        super().__init__(extra or {})
        self.log = log

    def __contains__(self, k):
        return dict.__contains__(self, k) or k.startswith("torch.") and k not in ("torch.no_grad",)

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)

        def f(c, a, kw):
            for x in a:
                if isinstance(x, Tens) and k.split(".")[-1].endswith("_"):
                    self.log.append(("op", x.root(), k, a))
            return Tens(c, k, self.log)
        return f


class Chunks:
    """the consecutive row ranges a split produces: chunk k = rows off(k) .. off(k+1)-1, off(0) = 0, off(n) = total (P17's contract)"""
    def __init__(self, c, total, base="chunks"):
        self.n = c.nat(base)
        self.total = total
        O = z3.Function(c.fresh_name(base + "_off"), z3.IntSort(), z3.IntSort())
        W = z3.Function(c.fresh_name(base + "_of"), z3.IntSort(), z3.IntSort())
        self.off = lambda k: O(I(k))
        self.of = lambda j: W(I(j))
        c.assume(O(0) == 0, O(self.n) == I(total))
        c.assume(c.forall(lambda k: z3.And(O(k) <= O(k + 1), O(k) >= 0, O(k + 1) <= I(total)), 0, self.n))
        c.assume(c.forall(lambda j: z3.And(W(j) >= 0, W(j) < self.n, O(W(j)) <= j, j < O(W(j) + 1)), 0, total))

    def rows(self, k):
        return self.off(I(k) + 1) - self.off(k)


class SplitBatch(Rec):
    """a batch whose split() yields its rows in consecutive chunks (shuffle off) or through an unknown permutation (shuffle on)"""
    def __init__(self, c, name, fields, n, log, extra=None):
        self.log = log
        self.splits = []
        super().__init__(c, name, fields, n, extra=extra)

    def m_getattr(self, c, name):
        if name == "split":
            return Prim("split", self.split)
        return super().m_getattr(c, name)

    def split(self, c, a, k):
        vals = dict(zip(("size", "shuffle", "merge_last"), a), **k)
        ch = Chunks(c, self.n)
        shuffled = vals.get("shuffle", True)
        if not isinstance(shuffled, bool):
            raise Unsupported("split with a symbolic shuffle flag")
        P = z3.Function(c.fresh_name("perm"), z3.IntSort(), z3.IntSort())
        if shuffled:
            c.assume(c.forall(lambda i: z3.And(P(i) >= 0, P(i) < I(self.n)), 0, self.n))
        row = (lambda i: P(i)) if shuffled else (lambda i: i)
        rec = dict(size=vals.get("size"), shuffle=shuffled, merge_last=vals.get("merge_last", False), chunks=ch, row=row)
        self.splits.append(rec)
        self.log.append(("split", rec))
        snaps = {f: (v, v.snap()) for f, v in self.fields.items() if isinstance(v, Arr)}

        def get(kk):
            out = {}
            for f, (v, fn) in snaps.items():
                out[f] = c.lam((ch.rows(kk), *v.shape[1:]), (lambda fn: lambda i, *r: fn(row(ch.off(kk) + I(i)), *r))(fn), v.dtype, v.kind)
            c.assume(ch.rows(kk) > 0)
            m = Rec(c, "minibatch", out, ch.rows(kk), extra=self.extra)
            m.source, m.index = rec, kk
            self.log.append(("minibatch", m))
            self.cur = m
            return m
        from .engine import IterV
        return IterV(ch.n, get)


def ragged_havoc(c, lst, width=(), dt="real", kind="torch"):
    """havoc a list of row-chunks: a symbolic number of arrays of symbolic, differing lengths"""
    L = z3.Function(c.fresh_name("rl_len"), z3.IntSort(), z3.IntSort())
    F = z3.Function(c.fresh_name("rl"), *([z3.IntSort()] * (2 + len(width))), c.SORT[dt]())
    lst.items, lst.n_, lst.dtype = None, c.nat("rl_n"), "ragged"
    lst.f_ = lambda m: c.lam((L(I(m)), *width), lambda *i: F(I(m), *[I(x) for x in i]), dt, kind)


def ragged_cat(c, lst, ch, name="cat"):
    """concatenation of the chunks of one split: proved to be consecutive, so row j is row j - off of its chunk"""
    c.prove(name + ":one-entry-per-chunk", I(lst.n_) == ch.n, "post")
    m = z3.Int(c.fresh_name("?m"))
    e = lst.f_(m)
    c.prove(name + ":entry-length-is-the-chunk's", z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < ch.n), I(e.shape[0]) == ch.rows(m))), "post")
    f = lst.f_
    e0 = f(z3.IntVal(0))
    return c.lam((ch.total, *e0.shape[1:]), lambda j, *r: f(ch.of(j)).f(I(j) - ch.off(ch.of(j)), *r), e0.dtype, e0.kind)
