"""Definitional models (assumed contracts) of the Python builtins, numpy and torch operations that the verified
functions use.  Everything here is part of the trusted base and is cross-checked against CPython/numpy at run time."""
import ast
import z3
from fractions import Fraction
from .values import *
from .engine import *

REG = {}


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


def lookup(name):
    if name in REG:
        return REG[name]
    # aliases
    if name.startswith("numpy."):
        return REG.get("np." + name[6:])
    return None


CONSTS = {"numpy.inf": INF, "numpy.nan": float("nan"), "math.inf": INF, "numpy.pi": None}


def const(name):
    return CONSTS.get(name)


# ------------------------------------------------------------------ element-wise
def shape_bcast(c, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        d = dims[0]
        for e in dims[1:]:
            dp, ep = as_py(d), as_py(e)
            if isinstance(ep, int) and ep == 1:
                continue
            if isinstance(dp, int) and dp == 1:
                d = e
                continue
            if isinstance(dp, int) and isinstance(ep, int):
                if dp != ep:
                    raise PyRaise("ValueError", "broadcast")
                continue
            if z3.eq(I(d), I(e)) or c.entailed(I(d) == I(e)):
                continue
            raise Unsupported(f"cannot establish equal shapes {d} vs {e}")
        out.append(d)
    return tuple(out)


def ew(c, fn, vals, dtype=None):
    """element-wise fn over arrays/scalars with broadcasting"""
    arrs = [v for v in vals if isinstance(v, Arr)]
    doms = [a.dom for a in arrs if a.dom is not None]
    if doms:
        for a in arrs:
            if a.dom is None and a.shape and not (isinstance(as_py(a.shape[0]), int) and as_py(a.shape[0]) == 1):
                raise Unsupported("mixing masked and unmasked arrays")
            if a.dom is not None and a.dom is not doms[0]:
                raise Unsupported("mixing different masks")
    shape = shape_bcast(c, [a.shape for a in arrs])
    nd = len(shape)
    getters = []
    for v in vals:
        if isinstance(v, Arr):
            f = v.snap()
            off = nd - len(v.shape)
            ones = [isinstance(as_py(s), int) and as_py(s) == 1 and not (isinstance(as_py(shape[off + i]), int) and as_py(shape[off + i]) == 1)
                    for i, s in enumerate(v.shape)]
            getters.append((lambda idx, f=f, off=off, ones=ones: f(*[0 if o else i for i, o in zip(idx[off:], ones)])))
        else:
            getters.append((lambda idx, v=v: v))

    def g(*idx):
        return fn(*[get(idx) for get in getters])
    if dtype is None:
        probe = g(*[z3.Int("?p%d" % k) for k in range(nd)])
        dtype = "bool" if is_bool(probe) else "int" if is_int(probe) else "real" if is_real(probe) else "obj"
    kind = "torch" if any(a.kind == "torch" for a in arrs) else "np"
    return c.lam(shape, g, dtype, kind=kind, dom=doms[0] if doms else None)


def to_arr(c, v, dtype=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, PList):
        return array_of_list(c, v)
    if isinstance(v, (tuple, list)):
        return array_of_list(c, PList(list(v)))
    if is_scalar(v):
        return c.lam((), lambda: v, "bool" if is_bool(v) else "int" if is_int(v) else "real")
    raise Unsupported(f"array of {v!r}")


def array_of_list(c, v):
    if not v.concrete:
        return c.lam((v.n,), v.f_, v.dtype)
    items = list(v.items)
    if not items:
        return c.lam((0,), lambda i: z3.RealVal(0), "real")
    if all(is_scalar(x) for x in items):
        dt = "bool" if all(is_bool(x) for x in items) else "real" if any(is_real(x) for x in items) else "int"
        pl = PList(items)
        conv = R if dt == "real" else I if dt == "int" else B
        r = c.lam((len(items),), lambda i: conv(pl.f(i)) if is_z3(i) is False or True else None, dt)
        its = [conv(x) for x in items]

        def f(i):
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(its):
                    return its[k]
            r_ = its[-1]
            for k in range(len(its) - 2, -1, -1):
                r_ = ite(i == k, its[k], r_)
            return r_
        r._f = f
        return r
    arrs = [to_arr(c, x) if not isinstance(x, (Obj, Model, Opaque, str)) and x is not None else None for x in items]
    if any(a is None for a in arrs):
        return c.reg(ObjArr(items), "objarr")
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh):
            raise Unsupported("ragged")
    dt = "real" if any(a.dtype == "real" for a in arrs) else "int" if any(a.dtype == "int" for a in arrs) else "bool"
    conv = R if dt == "real" else I if dt == "int" else B
    fs = [a.snap() for a in arrs]

    def g(i, *rest):
        r_ = conv(fs[-1](*rest))
        for k in range(len(fs) - 2, -1, -1):
            r_ = ite(I(i) == k, conv(fs[k](*rest)), r_)
        return r_
    return c.lam((len(items),) + tuple(sh), g, dt)


class ObjArr(Model):
    """numpy object array of concrete length"""
    pytype = "ndarray"

    def __init__(self, items):
        self.items = list(items)

    def m_len(self, c): return len(self.items)

    def m_iter(self, c): return list(self.items)

    def m_getitem(self, c, idx):
        if isinstance(idx, SliceV):
            return ObjArr(self.items[slice(as_py(idx.lo), as_py(idx.hi), as_py(idx.step))])
        i = as_py(idx)
        if isinstance(i, int):
            if not -len(self.items) <= i < len(self.items):
                raise PyRaise("IndexError")
            return self.items[i]
        if is_int(idx):
            # case split on the element
            for k in range(len(self.items) - 1):
                if c.branch(cmp("==", idx, k)):
                    return self.items[k]
            c.assume(cmp("==", idx, len(self.items) - 1))
            return self.items[-1]
        raise Unsupported("object array index")

    def m_setitem(self, c, idx, v):
        i = as_py(idx)
        if isinstance(i, int):
            c.on_write(("model", self.label), self)
            self.items[i] = v
            return
        raise Unsupported("object array store")

    def m_getattr(self, c, name):
        if name == "shape":
            return (len(self.items),)
        raise Unsupported("object array attribute " + name)


OPS2 = {"+", "-", "*", "/", "//", "%", "**"}


def binop_any(it, op, a, b):
    c = it.c
    if isinstance(a, Model) and not isinstance(a, ObjArr):
        return a.m_binop(c, op, a, b)
    if isinstance(b, Model) and not isinstance(b, ObjArr):
        return b.m_binop(c, op, a, b)
    if isinstance(a, Obj):
        m = it.find_member(a.cls, {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op, "?"))
        if m is not None:
            return it.call(it.bind_member(m, a), [b], {})
        raise Unsupported("operator on object")
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (PList, tuple)):
            a = to_arr(c, a)
        if isinstance(b, (PList, tuple)):
            b = to_arr(c, b)
        if op in ("&", "|", "^"):
            return ew(c, lambda x, y: bitop(op, x, y), [a, b])
        if op == "@":
            raise Unsupported("matmul")
        return ew(c, lambda x, y: binop(op, x, y), [a, b])
    if isinstance(a, PList) and isinstance(b, PList) and op == "+":
        if a.concrete and b.concrete:
            return c.reg(PList(a.items + b.items), "list")
        n1 = I(a.n)
        return c.reg(PList(None, n1 + I(b.n), lambda i: ite(i < n1, a.f(i), b.f(i - n1)), a.dtype or b.dtype), "list")
    if isinstance(a, PList) and is_int(b) and op == "*":
        if a.concrete and len(a.items) == 1 and not isinstance(as_py(b), int):
            x = a.items[0]
            if is_scalar(x):
                return c.reg(PList(None, b, lambda i: x, "real" if is_real(x) else "bool" if is_bool(x) else "int"), "list")
            return IterV(b, lambda i: x)
        if a.concrete and isinstance(as_py(b), int):
            return c.reg(PList(a.items * as_py(b)), "list")
        raise Unsupported("list repeat")
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if isinstance(a, str) or isinstance(b, str):
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "%":
            return "?"
        raise PyRaise("TypeError")
    if isinstance(a, PSet) and isinstance(b, PSet):
        if op == "-":
            return PSet([x for x in a.items if x not in b.items])
        if op == "&":
            return PSet([x for x in a.items if x in b.items])
        if op == "|":
            return PSet(a.items + b.items)
    if isinstance(a, PDict) and isinstance(b, PDict) and op == "|":
        d = PDict(a.d)
        d.d.update(b.d)
        return c.reg(d, "dict")
    if op == "|" and isinstance(a, (ClassV, Ext, Prim, tuple)) and isinstance(b, (ClassV, Ext, Prim)):
        return (a if isinstance(a, tuple) else (a,)) + (b,)
    if op in ("&", "|", "^") and is_scalar(a) and is_scalar(b):
        return bitop(op, a, b)
    if a is None or b is None:
        raise PyRaise("TypeError")
    if not is_scalar(a) or not is_scalar(b):
        raise Unsupported(f"{op} on {a!r}, {b!r}")
    if op == "/" and is_z3(b) and not c.pure:
        pass
    if op in ("%", "//") and is_z3(num(b)) and not c.pure and is_int(a) and is_int(b):
        if c.branch(cmp("==", b, 0)):
            raise PyRaise("ZeroDivisionError")
    if op == "/" and is_z3(num(b)) and not c.pure and getattr(it.con, "check_div", False):
        if c.branch(cmp("==", b, 0)):
            raise PyRaise("ZeroDivisionError")
    return binop(op, a, b)


def bitop(op, x, y):
    if is_bool(x) and is_bool(y):
        if op == "&": return b_and(x, y)
        if op == "|": return b_or(x, y)
        return z3.Xor(B(x), B(y))
    if not is_z3(x) and not is_z3(y):
        return {"&": x & y, "|": x | y, "^": x ^ y}[op]
    raise Unsupported("integer bit operation")


def cmp_any(it, op, a, b):
    c = it.c
    if isinstance(a, Model) and hasattr(a, "m_cmp"):
        return a.m_cmp(c, op, b)
    if isinstance(b, Model) and hasattr(b, "m_cmp"):
        return b.m_cmp(c, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), a)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return op == "!="
        if isinstance(a, (PList, tuple)): a = to_arr(c, a)
        if isinstance(b, (PList, tuple)): b = to_arr(c, b)
        return ew(c, lambda x, y: cmp(op, x, y), [a, b], "bool")
    if is_scalar(a) and is_scalar(b):
        return cmp(op, a, b)
    if op in ("==", "!="):
        r = equal(it, a, b)
        return r if op == "==" else b_not(r)
    if isinstance(a, tuple) and isinstance(b, tuple) and all(is_scalar(x) and not is_z3(x) for x in a + b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if a is None or b is None:
        raise PyRaise("TypeError")
    raise Unsupported(f"compare {a!r} {op} {b!r}")


def equal(it, a, b):
    if a is b:
        return True
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        r = True
        for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step)):
            if x is None or y is None:
                if not (x is None and y is None):
                    return False
            else:
                r = b_and(r, equal(it, x, y))
        return r
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return it.c.Bool("eq")
        return False
    if a is None or b is None:
        return False
    if is_scalar(a) and is_scalar(b):
        return cmp("==", a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = b_and(r, equal(it, x, y))
        return r
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set(a.items) == set(b.items)
    if isinstance(a, PList) and isinstance(b, PList) and a.concrete and b.concrete:
        return equal(it, tuple(a.items), tuple(b.items))
    if isinstance(a, (ClassV, Ext)) or isinstance(b, (ClassV, Ext)):
        return a == b
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return False
        r = True
        for k in a.d:
            r = b_and(r, equal(it, a.d[k], b.d[k]))
        return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return it.c.Bool("eq")
    if type(a) is not type(b):
        return False
    raise Unsupported(f"equality of {a!r} and {b!r}")


# ------------------------------------------------------------------ indexing
def norm_index(c, i, n, safe=False):
    """python index -> non-negative index; proves it is in bounds"""
    p = as_py(i)
    if isinstance(p, bool):
        raise Unsupported("bool index")
    if isinstance(p, int):
        if p >= 0:
            i2 = p
            np_ = as_py(n)
            if not safe and isinstance(np_, int):
                if p >= np_:
                    raise PyRaise("IndexError")
            elif not safe and not c.pure:
                bounds(c, I(n) > p)
            return i2
        np_ = as_py(n)
        if isinstance(np_, int):
            if p + np_ < 0:
                raise PyRaise("IndexError")
            return np_ + p
        if not safe and not c.pure:
            bounds(c, I(n) >= -p)
        return I(n) + p
    if not is_int(i):
        raise Unsupported(f"index {i!r}")
    if safe or c.pure:
        return i
    i = I(i)
    if c.entailed(z3.And(i >= 0, i < I(n))):
        return i
    if c.entailed(i >= 0):
        bounds(c, i < I(n))
        return i
    if c.entailed(z3.And(i < 0, i >= -I(n))):
        return i + I(n)
    bounds(c, z3.And(i >= -I(n), i < I(n)))
    return z3.If(i < 0, i + I(n), i)


def bounds(c, cond):
    """an out-of-range access raises IndexError"""
    if c.entailed(cond):
        if c.proving:
            c.prove("index-in-bounds", cond, "safety")
        return
    if not c.branch(cond):
        raise PyRaise("IndexError")


def slice_bounds(c, s, n):
    """-> (start, length) for step 1 (or None)"""
    n = I(n)

    def clampi(v, default):
        if v is None:
            return default
        v = num(v)
        if not is_z3(v):
            if v >= 0:
                if v == 0: return z3.IntVal(0)
                return v if c.entailed(n >= v) else smin(v, n)
            return n + v if c.entailed(n + v >= 0) else smax(n + v, 0)
        if c.entailed(z3.And(v >= 0, v <= n)):
            return v
        if c.entailed(v >= 0):
            return smin(v, n)
        w = ite(v < 0, smax(v + n, 0), v)
        return smin(w, n)
    lo = clampi(s.lo, z3.IntVal(0))
    hi = clampi(s.hi, n)
    if c.entailed(I(hi) >= I(lo)):
        ln = simp(I(hi) - I(lo))
    else:
        ln = smax(simp(I(hi) - I(lo)), 0)
    return as_py(I(lo)), as_py(ln) if not is_z3(as_py(ln)) else ln


def arr_getitem(c, a, idx, safe=False):
    if isinstance(idx, tuple):
        return multi_getitem(c, a, idx)
    if not a.shape:
        if idx is Ellipsis or idx == ():
            return a
        raise PyRaise("IndexError")
    if idx is None:
        f = a.snap()
        return c.lam((1,) + a.shape, lambda i, *r: f(*r), a.dtype, a.kind)
    if idx is Ellipsis:
        return a
    if isinstance(idx, SliceV):
        st = as_py(idx.step) if idx.step is not None else 1
        if a.dom is not None:
            raise Unsupported("slice of masked array")
        if st == 1:
            lo, ln = slice_bounds(c, idx, a.shape[0])
            if isinstance(lo, int) and lo == 0 and (idx.hi is None):
                lo_ = 0
            v = Arr((ln,) + a.shape[1:], None, a.dtype, kind=a.kind, base=a,
                    imap=lambda i, *r, lo=lo: (simp(I(i) + lo) if not (isinstance(lo, int) and lo == 0) else i, *r),
                    inv=lambda j, *r, lo=lo, ln=ln: (z3.And(I(j) >= lo, I(j) < I(lo) + I(ln)), (I(j) - lo, *r)))
            return c.reg(v, "view")
        if st == -1 and idx.lo is None and idx.hi is None:
            n = I(a.shape[0])
            v = Arr(a.shape, None, a.dtype, kind=a.kind, base=a, imap=lambda i, *r: (n - 1 - I(i), *r),
                    inv=lambda j, *r: (z3.BoolVal(True), (n - 1 - I(j), *r)))
            return c.reg(v, "view")
        raise Unsupported("slice step")
    if isinstance(idx, (PList, list)):
        idx = to_arr(c, idx if isinstance(idx, PList) else PList(idx))
    if isinstance(idx, Arr):
        if idx.dtype == "bool":
            return mask_getitem(c, a, idx)
        if a.dom is not None:
            raise Unsupported("fancy index of masked array")
        f = a.snap()
        g = idx.snap()
        nd = len(idx.shape)
        if nd == 0:
            return arr_getitem(c, a, idx.f())
        h = fancy_norm(c, idx, a.shape[0])
        return c.lam(idx.shape + a.shape[1:], lambda *r: f(h(*r[:nd]), *r[nd:]), a.dtype, a.kind, dom=idx.dom)
    if a.dom is not None:
        raise Unsupported("index of masked array")
    i = norm_index(c, idx, a.shape[0], safe)
    if len(a.shape) == 1:
        return a.f(i)
    v = Arr(a.shape[1:], None, a.dtype, kind=a.kind, base=a, imap=lambda *r: (i, *r),
            inv=lambda j, *r: (I(j) == I(i), tuple(r)))
    return c.reg(v, "view")


def fancy_norm(c, idx, n):
    """element function of index array, negative wrap resolved, bounds proved"""
    g = idx.snap()
    nd = len(idx.shape)
    n = I(n)
    vs = [z3.Int(c.fresh_name("?b")) for _ in range(nd)]
    rng = [z3.And(v >= 0, v < I(s)) for v, s in zip(vs, idx.shape)]
    if idx.dom is not None:
        rng.append(B(idx.dom(*vs)))
    e = I(g(*vs))
    nonneg = z3.ForAll(vs, z3.Implies(z3.And(*rng), e >= 0))
    inb = z3.ForAll(vs, z3.Implies(z3.And(*rng), z3.And(e >= -n, e < n)))
    if not c.pure:
        nn = c.entailed(nonneg)
        goal = z3.ForAll(vs, z3.Implies(z3.And(*rng), e < n)) if nn else inb
        if c.entailed(goal):
            if c.proving:
                c.prove("index-in-bounds", goal, "safety")
        elif getattr(c.it.con, "oob_raises", False):
            if not c.branch(goal):
                raise PyRaise("IndexError")
        else:
            c.prove("index-in-bounds", goal, "safety")
            c.assume(goal)
        if nn:
            return g
    return lambda *r: (lambda x: ite(cmp("<", x, 0), x + n, x))(I(g(*r)))


def mask_getitem(c, a, m):
    if a.dom is not None:
        raise Unsupported("nested masks")
    if m.dom is not None:
        raise Unsupported("masked mask")
    shape_bcast(c, [a.shape[: len(m.shape)], m.shape])
    key = id(m)
    f = a.snap()
    if not hasattr(m, "domf"):
        g = m.snap()
        m.domf = lambda *r: B(g(*r))
        m.domn = c.nat("nmask")
        n0 = I(m.shape[0])
        if len(m.shape) == 1:
            c.assume(m.domn <= n0)
            # count is positive iff some entry holds (definition of a count)
            c.assume((m.domn > 0) == c.exists(lambda i: m.domf(i), 0, n0))
    r = c.lam(a.shape, f, a.dtype, a.kind, dom=m.domf)
    r.meta["domn"] = m.domn
    r.meta["mask"] = m
    return r


def mask_id(m):
    return m.domf if hasattr(m, "domf") else None


def multi_getitem(c, a, idx):
    idx = list(idx)
    if any(x is Ellipsis for x in idx):
        k = [x is Ellipsis for x in idx].index(True)
        nreal = sum(1 for x in idx if x is not None and x is not Ellipsis)
        fill = [SliceV(None, None, None)] * (len(a.shape) - nreal)
        idx = idx[:k] + fill + idx[k + 1:]
    # two fancy arrays (or array + int): pointwise gather
    fancy = [x for x in idx if isinstance(x, (Arr, PList))]
    if len(fancy) >= 1 and any(isinstance(x, (Arr, PList)) or is_int(x) for x in idx[1:]) and len(idx) == 2 \
            and all(isinstance(x, (Arr, PList)) or is_int(x) for x in idx):
        i, j = [to_arr(c, x) if isinstance(x, PList) else x for x in idx]
        if isinstance(i, Arr) and i.dtype == "bool":
            raise Unsupported("mask in multi index")
        f = a.snap()
        hi = fancy_norm(c, i, a.shape[0]) if isinstance(i, Arr) else (lambda *r, v=norm_index(c, i, a.shape[0]): v)
        hj = fancy_norm(c, j, a.shape[1]) if isinstance(j, Arr) else (lambda *r, v=norm_index(c, j, a.shape[1]): v)
        ia = c.lam(i.shape, hi, "int") if isinstance(i, Arr) else i
        ja = c.lam(j.shape, hj, "int") if isinstance(j, Arr) else j
        return ew(c, lambda x, y: f(x, y), [hi() if not isinstance(i, Arr) else ia, hj() if not isinstance(j, Arr) else ja], a.dtype)
    full = lambda x: isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None
    if len(idx) > 2 and all(isinstance(x, Arr) and x.dtype == "int" and len(x.shape) == 1 for x in idx[:2]) and all(full(x) for x in idx[2:]):
        i, j = idx[:2]
        hi, hj = fancy_norm(c, i, a.shape[0]), fancy_norm(c, j, a.shape[1])
        shape_bcast(c, [i.shape, j.shape])
        f = a.snap()
        return c.lam((i.shape[0],) + tuple(a.shape[2:]), lambda k, *r: f(hi(k), hj(k), *r), a.dtype, a.kind)
    # sequential application
    r = a
    axis = 0
    for x in idx:
        r = index_axis(c, r, axis, x)
        if x is None or isinstance(x, (SliceV, Arr, PList)):
            axis += 1
    return r


def index_axis(c, a, axis, x):
    if axis == 0:
        return arr_getitem(c, a, x)
    f = a.snap()
    sh = a.shape
    if x is None:
        return c.lam(sh[:axis] + (1,) + sh[axis:], lambda *r: f(*(r[:axis] + r[axis + 1:])), a.dtype, a.kind)
    if isinstance(x, SliceV):
        if x.lo is None and x.hi is None and x.step is None:
            return a
        st = as_py(x.step) if x.step is not None else 1
        if st != 1:
            raise Unsupported("slice step")
        lo, ln = slice_bounds(c, x, sh[axis])
        return c.lam(sh[:axis] + (ln,) + sh[axis + 1:],
                     lambda *r: f(*r[:axis], I(r[axis]) + lo, *r[axis + 1:]), a.dtype, a.kind)
    if is_int(x):
        i = norm_index(c, x, sh[axis])
        return c.lam(sh[:axis] + sh[axis + 1:], lambda *r: f(*r[:axis], i, *r[axis:]), a.dtype, a.kind)
    if isinstance(x, (Arr, PList)):
        x = to_arr(c, x)
        if len(x.shape) == 1 and x.dtype == "int":
            h = fancy_norm(c, x, sh[axis])
            return c.lam(sh[:axis] + x.shape + sh[axis + 1:], lambda *r: f(*r[:axis], h(r[axis]), *r[axis + 1:]), a.dtype, a.kind)
    raise Unsupported(f"index {x!r} on axis {axis}")


def conv_dtype(dt):
    return {"real": R, "int": I, "bool": B}.get(dt, lambda x: x)


def cast_store(dt, v):
    if dt == "int" and is_real(v):
        if not is_z3(v) and v == int(v):
            return I(int(v))
        return z3.ToInt(R(v))
    if dt == "obj":
        return v
    return conv_dtype(dt)(v)


def write_elems(c, a, cond, val):
    """for all index tuples where cond(idx): a[idx] := val(idx)"""
    if a.base is not None:
        inv = a.inv

        def bcond(*j):
            inr, r = inv(*j)
            return b_and(inr, cond(*r))

        def bval(*j):
            inr, r = inv(*j)
            return val(*r)
        write_elems(c, a.base, bcond, bval)
        return
    old = a._f
    dt = a.dtype
    c.on_write(("arr", a.label), a)
    a._f = lambda *j: _ite_obj(cond(*j), lambda: cast_store(dt, val(*j)), lambda: old(*j))


def _ite_obj(cnd, x, y):
    if isinstance(cnd, bool):
        return x() if cnd else y()
    s = z3.simplify(cnd)
    if z3.is_true(s):
        return x()
    if z3.is_false(s):
        return y()
    return ite(cnd, x(), y())


def arr_setitem(c, a, idx, v):
    if isinstance(v, (PList, tuple)):
        v = to_arr(c, v)
    if a.dom is not None:
        raise Unsupported("store into masked array")
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[0], Arr) and isinstance(idx[1], Arr):
        raise Unsupported("2d scatter")
    if isinstance(idx, tuple):
        # basic indexing only: make a view and fill it
        if all(is_int(x) or isinstance(x, SliceV) or x is Ellipsis for x in idx):
            ids = []
            for x in idx:
                ids.append(x)
            if all(is_int(x) for x in ids) and len(ids) == len(a.shape):
                ii = [I(norm_index(c, x, s)) for x, s in zip(ids, a.shape)]
                write_elems(c, a, lambda *j: z3.And(*[I(p) == q for p, q in zip(j, ii)]), lambda *j: v)
                return
            if len(ids) == 2 and isinstance(ids[0], SliceV) and ids[0].lo is None and ids[0].hi is None and is_int(ids[1]):
                jj = I(norm_index(c, ids[1], a.shape[1]))
                vf = (lambda i: v) if not isinstance(v, Arr) else (lambda i, g=v.snap(): g(i))
                write_elems(c, a, lambda i, j, *r: I(j) == jj, lambda i, j, *r: vf(i))
                return
        raise Unsupported("tuple store")
    if idx is Ellipsis or (isinstance(idx, SliceV) and idx.lo is None and idx.hi is None and idx.step is None):
        vf = bval(c, a.shape, v)
        write_elems(c, a, lambda *j: True, vf)
        return
    if isinstance(idx, SliceV):
        view = arr_getitem(c, a, idx)
        vf = bval(c, view.shape, v)
        write_elems(c, view, lambda *j: True, vf)
        return
    if isinstance(idx, PList):
        idx = to_arr(c, idx)
    if isinstance(idx, Arr):
        if idx.dtype == "bool":
            g = idx.snap()
            nd = len(idx.shape)
            if isinstance(v, Arr) and v.dom is not None:
                if v.dom is not mask_id(idx) and not same_mask(c, v.dom, idx):
                    raise Unsupported("store under a different mask")
                vf = v.snap()
                write_elems(c, a, lambda *j: B(g(*j[:nd])), lambda *j: vf(*j))
                return
            if isinstance(v, Arr) and v.shape:
                if len(v.shape) < len(a.shape) and nd >= 1 and len(a.shape) - nd == len(v.shape):
                    vf = v.snap()
                    write_elems(c, a, lambda *j: B(g(*j[:nd])), lambda *j: vf(*j[nd:]))
                    return
                raise Unsupported("masked store of an unmasked array")
            val = v.f() if isinstance(v, Arr) else v
            write_elems(c, a, lambda *j: B(g(*j[:nd])), lambda *j: val)
            return
        scatter(c, a, idx, v)
        return
    i = I(norm_index(c, idx, a.shape[0]))
    rest = a.shape[1:]
    if isinstance(v, Arr):
        vf = bval(c, rest, v)
        write_elems(c, a, lambda j, *r: I(j) == i, lambda j, *r: vf(*r))
    else:
        write_elems(c, a, lambda j, *r: I(j) == i, lambda j, *r: v)


def same_mask(c, dom, idx):
    g = idx.snap()
    if len(idx.shape) != 1:
        return False
    return c.entailed(c.forall(lambda i: B(dom(i)) == B(g(i)), 0, idx.shape[0]))


def bval(c, shape, v):
    if isinstance(v, Arr):
        if v.dom is not None:
            raise Unsupported("masked value")
        shape_bcast(c, [tuple(shape), v.shape])
        f = v.snap()
        off = len(shape) - len(v.shape)
        if off < 0:
            f0 = f
            k = -off
            f = lambda *r: f0(*([0] * k), *r)
            return f
        ones = [isinstance(as_py(s), int) and as_py(s) == 1 for s in v.shape]
        return lambda *r: f(*[0 if o else i for i, o in zip(r[off:], ones)])
    return lambda *r: v


def scatter(c, a, idx, v):
    """a[idx] = v with an integer index array; the last duplicate wins"""
    if len(idx.shape) != 1 or idx.dom is not None:
        raise Unsupported("scatter index shape")
    h = fancy_norm(c, idx, a.shape[0])
    n = idx.shape[0]
    np_ = as_py(n)
    if isinstance(v, Arr) and v.shape:
        vf = bval(c, (n,) + a.shape[1:], v)
    else:
        vv = v.f() if isinstance(v, Arr) else v
        vf = lambda *r: vv
    if isinstance(np_, int) and np_ <= 6:
        for k in range(np_):
            ik = I(h(k))
            write_elems(c, a, lambda j, *r, ik=ik: I(j) == ik, lambda j, *r, k=k: vf(k, *r))
        return
    n = I(n)
    # the same index array used again (one store per field of a structure): share the inverse
    probe = I(h(z3.Int("sc?probe")))
    for p2, n2, hit, w, ax in c.ghost.get("scatters", ()):
        if z3.eq(probe, p2) and z3.eq(n, n2) and any(x is ax for x in c.pc):
            write_elems(c, a, lambda j, *r: hit(I(j)), lambda j, *r: vf(w(I(j)), *r))
            c.ghost["last_scatter"] = (hit, w)
            return
    nm = c.fresh_name("sc")
    hit = z3.Function(nm + "_hit", z3.IntSort(), z3.BoolSort())
    w = z3.Function(nm + "_w", z3.IntSort(), z3.IntSort())
    m, k = z3.Int(nm + "?m"), z3.Int(nm + "?k")
    hk = I(h(k))
    c.assume(z3.ForAll([m], z3.Implies(hit(m), z3.And(0 <= w(m), w(m) < n, I(h(w(m))) == m)), patterns=[hit(m)]))
    body = z3.Implies(z3.And(0 <= k, k < n), z3.And(hit(hk), k <= w(hk)))
    pt = find_pattern(hk, k)
    ax = z3.ForAll([k], body, patterns=[pt]) if pt is not None else z3.ForAll([k], body)
    c.assume(ax)
    c.ghost["last_scatter"] = (hit, w)
    c.ghost.setdefault("scatters", []).append((probe, n, hit, w, ax))
    write_elems(c, a, lambda j, *r: hit(I(j)), lambda j, *r: vf(w(I(j)), *r))


def find_pattern(e, k):
    """innermost uninterpreted application to the bound variable: a usable trigger"""
    best = None
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and any(z3.eq(y, k) for y in x.children()):
            best = x
        todo.extend(x.children())
    return best


def arr_inplace(c, op, a, rhs):
    """a op= rhs (mutates a)"""
    if a.dom is not None:
        raise Unsupported("in-place on masked")
    if isinstance(rhs, (PList, tuple)):
        rhs = to_arr(c, rhs)
    if isinstance(rhs, Model):
        raise Unsupported("in-place with model")
    vf = bval(c, a.shape, rhs)
    old = a.snap()
    if op in ("&", "|", "^"):
        new = lambda *j: bitop(op, old(*j), vf(*j))
    else:
        new = lambda *j: binop(op, old(*j), vf(*j))
    if a.base is None:
        dt = a.dtype
        c.on_write(("arr", a.label), a)
        probe = new(*[z3.Int("?p%d" % k) for k in range(len(a.shape))])
        if dt == "int" and is_real(probe):
            raise PyRaise("TypeError")
        a._f = lambda *j: cast_store(dt, new(*j))
    else:
        write_elems(c, a, lambda *j: True, new)


# ------------------------------------------------------------------ lists
def list_getitem(c, o, idx):
    if isinstance(idx, SliceV):
        if o.concrete:
            lo, hi, st = as_py(idx.lo), as_py(idx.hi), as_py(idx.step)
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return c.reg(PList(o.items[slice(lo, hi, st)]), "list")
            raise Unsupported("symbolic slice of concrete list")
        f, st = o.f_, as_py(idx.step) if idx.step is not None else 1
        if st == -1 and idx.lo is None and idx.hi is None:
            return c.reg(PList(None, o.n_, lambda i, n=I(o.n_): f(n - 1 - I(i)), o.dtype), "list")
        if st != 1:
            raise Unsupported("slice step")
        lo, ln = slice_bounds(c, idx, o.n)
        return c.reg(PList(None, ln, lambda i: f(i + lo), o.dtype), "list")
    if o.concrete:
        i = as_py(idx)
        if isinstance(i, int):
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise("IndexError")
            return o.items[i]
        if all(is_scalar(x) for x in o.items):
            return o.f(norm_index(c, idx, len(o.items)))
        for k in range(len(o.items) - 1):
            if c.branch(cmp("==", idx, k)):
                return o.items[k]
        c.assume(cmp("==", idx, len(o.items) - 1))
        return o.items[-1]
    return o.f(norm_index(c, idx, o.n))


# ------------------------------------------------------------------ attributes of plain values
def value_attr(it, o, name):
    c = it.c
    if isinstance(o, Arr):
        return arr_attr(it, o, name)
    if isinstance(o, PList):
        return list_attr(it, o, name)
    if isinstance(o, PDict):
        return dict_attr(it, o, name)
    if isinstance(o, PSet):
        return set_attr(it, o, name)
    if isinstance(o, str):
        if name in ("format", "join", "lower", "upper", "strip", "startswith", "endswith", "split", "replace"):
            def f(cc, a, k):
                aa = [x.items if isinstance(x, GenV_()) else [y for y in x.items] if isinstance(x, PList) else x for x in a]
                try:
                    r = getattr(o, name)(*aa)
                except TypeError:
                    return "?"
                return r if not isinstance(r, list) else c.reg(PList(r), "list")
            return Prim("str." + name, f)
        if name == "type" and o in ("int", "real", "bool", "obj"):    # dtype.type
            return o
        raise Unsupported("str." + name)
    if is_scalar(o):
        if name == "item":
            return Prim("item", lambda cc, a, k: o)
        if name == "backward" and hasattr(it.con, "on_backward"):
            return Prim("backward", lambda cc, a, k: it.con.on_backward(cc, o))
        if name in ("mean", "sum", "float", "double", "detach", "squeeze", "flatten_", "clone") and is_real(o):
            return Prim(name, lambda cc, a, k: o)
        if name == "dtype":
            return "bool" if is_bool(o) else "int" if is_int(o) else "real"
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "astype":
            return Prim("astype", lambda cc, a, k: astype_scalar(o, dtype_of(a[0])))
        if name in ("copy", "detach", "cpu", "numpy"):
            return Prim(name, lambda cc, a, k: o)
        raise PyRaise("AttributeError", name)
    if isinstance(o, tuple):
        if name == "index":
            raise Unsupported("tuple.index")
        raise PyRaise("AttributeError", name)
    if o is None:
        raise PyRaise("AttributeError", name)
    if isinstance(o, FuncV):
        if name == "__name__":
            return o.name
    if isinstance(o, Opaque):
        if name in getattr(it.con, "opaque_methods", {}):
            fn = it.con.opaque_methods[name]
            return Prim(name, lambda cc, a, k: fn(cc, o, a, k))
        if getattr(it.con, "opaque_attrs", False):
            return Opaque(f"{o.tag}.{name}")
        raise Unsupported(f"attribute {name} of {o!r}")
    if isinstance(o, Prim):
        if name == "__name__":
            return o.name
        r = REG.get(f"builtins.{o.name}.{name}")
        if r:
            return Prim(f"{o.name}.{name}", r)
    if isinstance(o, SliceV):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if name in ("__name__",):
        return "?"
    raise Unsupported(f"attribute {name} of {o!r}")


def GenV_():
    from .interp import GenV
    return GenV


def dict_attr(it, o, name):
    c = it.c

    def P(f):
        return Prim("dict." + name, f)
    if name == "items":
        return P(lambda cc, a, k: list(o.d.items()))
    if name == "keys":
        return P(lambda cc, a, k: c.reg(PList(list(o.d.keys())), "keys"))
    if name == "values":
        return P(lambda cc, a, k: list(o.d.values()))
    if name == "get":
        return P(lambda cc, a, k: o.d.get(it.hashable(a[0]), a[1] if len(a) > 1 else None))
    if name == "pop":
        def f(cc, a, k):
            kk = it.hashable(a[0])
            if kk in o.d:
                c.on_write(("dict", o.label), o)
                return o.d.pop(kk)
            if len(a) > 1:
                return a[1]
            raise PyRaise("KeyError")
        return P(f)
    if name == "update":
        def f(cc, a, k):
            c.on_write(("dict", o.label), o)
            for x in a:
                if isinstance(x, PDict):
                    o.d.update(x.d)
                else:
                    raise Unsupported("dict.update")
            o.d.update(k)
        return P(f)
    if name == "setdefault":
        def f(cc, a, k):
            kk = it.hashable(a[0])
            if kk not in o.d:
                c.on_write(("dict", o.label), o)
                o.d[kk] = a[1] if len(a) > 1 else None
            return o.d[kk]
        return P(f)
    if name == "copy":
        return P(lambda cc, a, k: c.reg(PDict(o.d), "dict"))
    raise Unsupported("dict." + name)


def as_set(it, v):
    if isinstance(v, PSet):
        return v
    items = it.concrete_iter(v)
    if items is None:
        raise Unsupported("set of symbolic sequence")
    return PSet(items)


def set_attr(it, o, name):
    def P(f):
        return Prim("set." + name, f)
    if name == "issubset":
        return P(lambda cc, a, k: all(x in as_set(it, a[0]).items for x in o.items))
    if name == "difference":
        return P(lambda cc, a, k: PSet([x for x in o.items if x not in as_set(it, a[0]).items]))
    if name == "intersection":
        return P(lambda cc, a, k: PSet([x for x in o.items if x in as_set(it, a[0]).items]))
    if name == "union":
        return P(lambda cc, a, k: PSet(o.items + as_set(it, a[0]).items))
    if name == "issuperset":
        return P(lambda cc, a, k: all(x in o.items for x in as_set(it, a[0]).items))
    if name == "add":
        def f(cc, a, k):
            if a[0] not in o.items:
                o.items.append(a[0])
        return P(f)
    if name in ("discard", "remove"):
        def f(cc, a, k):
            if a[0] in o.items:
                o.items.remove(a[0])
            elif name == "remove":
                raise PyRaise("KeyError")
        return P(f)
    raise Unsupported("set." + name)


def obj_ite(c, cond, a, b):
    """if-then-else over structured values of the same kind"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(obj_ite(c, cond, x, y) for x, y in zip(a, b))
    if isinstance(a, Model) and type(a) is type(b) and hasattr(a, "m_ite"):
        return a.m_ite(c, cond, b)
    if is_scalar(a) and is_scalar(b):
        return ite(cond, a, b)
    raise Unsupported("append object to symbolic list")


def list_attr(it, o, name):
    c = it.c

    def P(f):
        return Prim("list." + name, f)
    if name == "append":
        def f(cc, a, k):
            x = a[0]
            c.on_write(("list", o.label), o, x if is_scalar(x) else None)
            if o.concrete:
                o.items.append(x)
            else:
                if isinstance(x, Arr) and o.dtype == "arr":
                    n0, f0, xf = I(o.n_), o.f_, x.snap()
                    e0 = f0(z3.IntVal(0))
                    if e0.dtype != x.dtype or len(e0.shape) != len(x.shape) or not all(c._dim_eq(p, q) for p, q in zip(e0.shape, x.shape)):
                        raise Unsupported("append differently shaped array")
                    o.f_ = lambda m: c.lam(x.shape, lambda *i: ite(I(m) == n0, xf(*i), f0(m).f(*i)), x.dtype, x.kind)
                    o.n_ = n0 + 1
                    return
                if isinstance(x, Arr) and o.dtype == "ragged":
                    n0, f0, xf, x0 = I(o.n_), o.f_, x.snap(), I(x.shape[0])
                    e0 = f0(z3.IntVal(0))
                    if e0.dtype != x.dtype or [str(as_py(q)) for q in e0.shape[1:]] != [str(as_py(q)) for q in x.shape[1:]]:
                        raise Unsupported("append differently typed array")
                    o.f_ = lambda m: c.lam((ite(I(m) == n0, x0, I(f0(m).shape[0])), *x.shape[1:]), lambda *i: ite(I(m) == n0, xf(*i), f0(m).f(*i)), x.dtype, x.kind)
                    o.n_ = n0 + 1
                    return
                if o.dtype == "obj":
                    n0, f0 = I(o.n_), o.f_
                    o.f_ = lambda m: obj_ite(cc, I(m) == n0, x, f0(I(m)))
                    o.n_ = n0 + 1
                    return
                if not is_scalar(x):
                    raise Unsupported("append object to symbolic list")
                if is_real(x) and o.dtype == "int":
                    raise Unsupported("list kind")
                n0, f0 = I(o.n_), o.f_
                conv = conv_dtype(o.dtype)
                xv = conv(x)
                o.f_ = lambda i: ite(I(i) == n0, xv, f0(I(i)))
                o.n_ = n0 + 1
        return P(f)
    if name == "extend":
        def f(cc, a, k):
            items = it.concrete_iter(a[0])
            c.on_write(("list", o.label), o, items[0] if items and is_scalar(items[0]) else None)
            if o.concrete and items is not None:
                o.items.extend(items)
                return
            if o.concrete and not o.items:
                iv = it.sym_iter(a[0])
                probe = iv.get(z3.Int("?probe"))
                o.items, o.n_, o.f_ = None, iv.n, iv.get
                o.dtype = "real" if is_real(probe) else "bool" if is_bool(probe) else "int"
                return
            if not o.concrete and items is None:
                iv = it.sym_iter(a[0])
                n0, f0 = I(o.n_), o.f_
                g = iv.get
                o.f_ = lambda i: ite(I(i) < n0, f0(I(i)), g(I(i) - n0))
                o.n_ = n0 + I(iv.n)
                return
            if not o.concrete and items is not None:
                for x in items:
                    list_attr(it, o, "append").fn(cc, [x], {})
                return
            raise Unsupported("extend")
        return P(f)
    if name == "pop":
        def f(cc, a, k):
            i = as_py(a[0]) if a else -1
            c.on_write(("list", o.label), o, None)
            if o.concrete and isinstance(i, int):
                if not o.items:
                    raise PyRaise("IndexError")
                return o.items.pop(i)
            if not o.concrete and i in (0, -1):
                n0, f0 = I(o.n_), o.f_
                if c.branch(n0 == 0):
                    raise PyRaise("IndexError")
                o.n_ = n0 - 1
                if i == 0:
                    o.f_ = lambda j: f0(I(j) + 1)
                    return f0(z3.IntVal(0))
                return f0(n0 - 1)
            raise Unsupported("list.pop")
        return P(f)
    if name == "copy":
        return P(lambda cc, a, k: c.reg(PList(list(o.items)) if o.concrete else PList(None, o.n_, o.f_, o.dtype), "list"))
    if name == "clear":
        def f(cc, a, k):
            c.on_write(("list", o.label), o, None)
            o.items = []
        return P(f)
    if name == "index":
        raise Unsupported("list.index")
    if name == "insert":
        def f(cc, a, k):
            if not o.concrete:
                raise Unsupported("list.insert")
            c.on_write(("list", o.label), o, None)
            o.items.insert(as_py(a[0]), a[1])
        return P(f)
    if name == "remove":
        raise Unsupported("list.remove")
    raise PyRaise("AttributeError", name)


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, str):
        if d in ("int", "real", "bool", "obj"):
            return d
        if d.startswith(("int", "uint")): return "int"
        if d.startswith("float"): return "real"
        return None
    if isinstance(d, Prim):
        return {"int": "int", "float": "real", "bool": "bool", "object": "obj"}.get(d.name)
    if isinstance(d, Ext):
        n = d.name.split(".")[-1]
        if n.startswith(("int", "uint")) or n == "long": return "int"
        if n.startswith("float") or n == "double": return "real"
        if n.startswith("bool"): return "bool"
        if n == "object_" or n == "object": return "obj"
    raise Unsupported(f"dtype {d!r}")


def astype_scalar(v, dt):
    if dt is None:
        return v
    return cast_store(dt, v)


def astype(c, a, dt):
    if dt is None or dt == a.dtype:
        return a.copy() if True else a
    f = a.snap()
    if a.dtype == "obj" or dt == "obj":
        raise Unsupported("object cast")
    return c.lam(a.shape, lambda *r: cast_store(dt, f(*r)), dt, a.kind, dom=a.dom)


def axis_arg(args, kw, pos=0):
    if "axis" in kw: return kw["axis"]
    if "dim" in kw: return kw["dim"]
    if len(args) > pos: return args[pos]
    return None


import numpy as _np
_NDARRAY = _np.ndarray


def arr_attr(it, o, name):
    c = it.c

    def P(f):
        return Prim("arr." + name, f)
    if name == "shape":
        return tuple(o.shape)
    if name == "ndim":
        return len(o.shape)
    if name == "dtype":
        return o.dtype
    if name == "size":
        if o.kind == "torch":
            return P(lambda cc, a, k: tuple(o.shape) if not a else o.shape[a[0]])
        r = 1
        for s in o.shape:
            r = binop("*", r, s)
        return r
    if name == "device":
        return Opaque("device")
    if name == "T" and len(o.shape) == 2:
        f = o.snap()
        return c.lam((o.shape[1], o.shape[0]), lambda i, j: f(j, i), o.dtype, o.kind)
    if name == "data":
        return o
    simple = {"sum": "np.sum", "mean": "np.mean", "max": "np.max", "min": "np.min", "any": "np.any", "all": "np.all",
              "std": "np.std", "argmax": "np.argmax", "argmin": "np.argmin", "cumsum": "np.cumsum"}
    if name in simple:
        if o.kind == "torch" and name in ("max", "min") :
            def f(cc, a, k):
                if a and isinstance(a[0], Arr):
                    return ew(cc, smax if name == "max" else smin, [o, a[0]])
                r = REG[simple[name]](cc, [o, *a], k)
                if axis_arg(a, k) is not None:
                    # (values, indices): the indices are positions of an extreme entry
                    try:
                        ix = REG["np.arg" + name](cc, [o, *a], k)
                    except Unsupported:
                        ix = Opaque("indices")
                    return (r, ix)
                return r
            return P(f)
        fn = REG.get(simple[name])
        if fn is None:
            raise Unsupported("arr." + name)
        return P(lambda cc, a, k: fn(cc, [o, *a], k))
    if name in ("copy", "clone"):
        return P(lambda cc, a, k: c.reg(o.copy(), "cp"))
    if name in ("detach", "cpu", "numpy", "contiguous", "requires_grad_", "cuda"):
        if name == "numpy":
            def f(cc, a, k):
                o2 = Arr(o.shape, None, o.dtype, kind="np", base=o, imap=lambda *i: i, inv=lambda *j: (z3.BoolVal(True), j))
                return c.reg(o2, "np")
            return P(f) if o.kind == "torch" else P(lambda cc, a, k: o)
        return P(lambda cc, a, k: o)
    if name == "to":
        def f(cc, a, k):
            for x in a:
                try:
                    dt = dtype_of(x)
                except Unsupported:
                    dt = None
                if dt:
                    return c.reg(astype(c, o, dt), "to")
            return o
        return P(f)
    if name == "astype":
        return P(lambda cc, a, k: c.reg(astype(c, o, dtype_of(a[0])), "as"))
    if name == "type":
        return P(lambda cc, a, k: c.reg(astype(c, o, dtype_of(a[0])), "as"))
    if name in ("float", "double", "half"):
        return P(lambda cc, a, k: c.reg(astype(c, o, "real"), "as"))
    if name in ("long", "int"):
        return P(lambda cc, a, k: c.reg(astype(c, o, "int"), "as"))
    if name == "bool":
        return P(lambda cc, a, k: c.reg(astype(c, o, "bool"), "as"))
    if name == "item":
        return P(lambda cc, a, k: o.f(*[0] * len(o.shape)))
    if name in ("flatten", "ravel") or (name in ("reshape", "view")):
        def f(cc, a, k):
            return reshape(c, o, a if name in ("reshape", "view") else [-1])
        return P(f)
    if name == "squeeze":
        def f(cc, a, k):
            ax = axis_arg(a, k)
            return squeeze(c, o, ax)
        return P(f)
    if name == "unsqueeze":
        def f(cc, a, k):
            ax = as_py(axis_arg(a, k))
            if ax < 0:
                ax += len(o.shape) + 1
            return index_axis(c, o, ax, None)
        return P(f)
    if name in ("clamp", "clip", "clamp_"):
        def f(cc, a, k):
            lo = k.get("min", a[0] if a else None)
            hi = k.get("max", a[1] if len(a) > 1 else None)
            return REG["np.clip"](cc, [o, lo, hi], {})
        return P(f)
    if name in ("pow",):
        return P(lambda cc, a, k: binop_any(it, "**", o, a[0]))
    if name in ("exp", "log", "tanh", "sqrt", "abs"):
        return P(lambda cc, a, k: REG["np." + name](cc, [o], {}))
    if name in ("mul", "add", "sub", "div"):
        return P(lambda cc, a, k: binop_any(it, {"mul": "*", "add": "+", "sub": "-", "div": "/"}[name], o, a[0]))
    if name in ("copy_",):
        def f(cc, a, k):
            arr_setitem(c, o, SliceV(None, None, None), a[0])
            return o
        return P(f)
    if name in ("zero_", "fill_"):
        def f(cc, a, k):
            arr_setitem(c, o, SliceV(None, None, None), a[0] if a else (0 if o.dtype == "int" else 0.0))
            return o
        return P(f)
    if name == "repeat" and o.kind == "torch":
        def f(cc, a, k):
            reps = list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else list(a)
            g = o.snap()
            nd = len(o.shape)
            lead = len(reps) - nd
            if lead < 0 or any(as_py(x) != 1 for x in reps[lead:]):
                raise Unsupported("torch repeat along existing axes")
            return cc.lam(tuple(reps[:lead]) + tuple(o.shape), lambda *r: g(*r[lead:]), o.dtype, o.kind)
        return P(f)
    if name in ("masked_fill", "masked_fill_"):
        def f(cc, a, k):
            m, v = a
            r = ew(cc, lambda x, y: ite(B(y), v, x), [o, m], o.dtype)
            if name == "masked_fill":
                return r
            arr_setitem(cc, o, SliceV(None, None, None), r)
            return o
        return P(f)
    if name in ("le", "lt", "ge", "gt", "eq", "ne"):
        op = {"le": "<=", "lt": "<", "ge": ">=", "gt": ">", "eq": "==", "ne": "!="}[name]
        return P(lambda cc, a, k: cmp_any(it, op, o, a[0]))
    if name == "numel":
        return P(lambda cc, a, k: arr_attr(it, c.lam(o.shape, o.f, o.dtype), "size"))
    if name == "transpose":
        def f(cc, a, k):
            if len(o.shape) == 2:
                g = o.snap()
                return c.lam((o.shape[1], o.shape[0]), lambda i, j: g(j, i), o.dtype, o.kind)
            raise Unsupported("transpose")
        return P(f)
    if name == "tolist":
        if len(o.shape) == 1:
            def f(cc, a, k):
                n = as_py(o.shape[0])
                if isinstance(n, int):
                    return c.reg(PList([o.f(i) for i in range(n)]), "list")
                return c.reg(PList(None, o.shape[0], o.snap(), o.dtype), "list")
            return P(f)
    if name == "__len__":
        return P(lambda cc, a, k: len_(cc, [o], {}))
    if name == "new_zeros":
        raise Unsupported("new_zeros")
    if o.kind == "np" and not hasattr(_NDARRAY, name):
        raise PyRaise("AttributeError", name)
    raise Unsupported(f"array attribute {name}")


def squeeze(c, o, ax):
    f = o.snap()
    if ax is None:
        keep = [k for k, s in enumerate(o.shape) if not (isinstance(as_py(s), int) and as_py(s) == 1)]
        if any(is_z3(as_py(o.shape[k])) for k in keep) and len(keep) != len(o.shape):
            pass
    else:
        ax = as_py(ax)
        if ax < 0:
            ax += len(o.shape)
        keep = [k for k in range(len(o.shape)) if k != ax]
        if as_py(o.shape[ax]) != 1:
            return o
    sh = tuple(o.shape[k] for k in keep)

    def g(*r):
        full = [0] * len(o.shape)
        for k, v in zip(keep, r):
            full[k] = v
        return f(*full)
    return c.lam(sh, g, o.dtype, o.kind)


def reshape(c, o, a):
    if len(a) == 1 and isinstance(a[0], (tuple, PList)):
        a = list(a[0]) if isinstance(a[0], tuple) else a[0].items
    f = o.snap()
    a = list(a)
    sh = [as_py(s) for s in a]
    cur = [as_py(s) for s in o.shape]
    if len(sh) == len(cur):
        ok = True
        for x, y in zip(sh, cur):
            if not (isinstance(x, int) and x == -1) and not (x is y or (isinstance(x, int) and x == y) or (is_z3(x) and is_z3(y) and c.entailed(x == y))):
                ok = False
        if ok and sum(1 for x in sh if isinstance(x, int) and x == -1) <= 1:
            v = Arr(o.shape, None, o.dtype, kind=o.kind, base=o, imap=lambda *i: i, inv=lambda *j: (z3.BoolVal(True), j))
            return c.reg(v, "view")
    if sh == [-1] or len(sh) == 1:
        if len(cur) == 1:
            return reshape(c, o, [o.shape[0]])
        if len(cur) == 0:
            return c.lam((1,), lambda i: f(), o.dtype, o.kind)
        if len(cur) == 2 and cur[1] == 1:
            v = Arr((o.shape[0],), None, o.dtype, kind=o.kind, base=o, imap=lambda i: (i, 0), inv=lambda i, j: (I(j) == 0, (i,)))
            return c.reg(v, "view")
        if len(cur) == 2 and cur[0] == 1:
            return c.lam((o.shape[1],), lambda i: f(0, i), o.dtype, o.kind)
        raise Unsupported("flatten of a general matrix")
    # [n] -> [n,1] / [-1,1] / [n,-1]
    if len(cur) == 1 and len(sh) == 2:
        if sh[1] == 1:
            return c.lam((o.shape[0], 1), lambda i, j: f(i), o.dtype, o.kind)
        if sh[0] == 1:
            return c.lam((1, o.shape[0]), lambda i, j: f(j), o.dtype, o.kind)
        if sh[1] == -1 and c.entailed(I(a[0]) == I(o.shape[0])):
            return c.lam((o.shape[0], 1), lambda i, j: f(i), o.dtype, o.kind)
    if len(cur) == 2 and len(sh) == 2:
        # (n, m) -> (n, -1)
        if sh[1] == -1 and c.entailed(I(a[0]) == I(o.shape[0])):
            return reshape(c, o, list(o.shape))
        if sh[0] == -1 and (sh[1] is cur[1] or c.entailed(I(a[1]) == I(o.shape[1]))):
            return reshape(c, o, list(o.shape))
    if sh.count(-1) <= 1 and sum(1 for x in sh if isinstance(x, int) and x == 1) == len(sh) - 1 and len(cur) == 1 and len(sh) > 1:
        # a vector with unit axes around it
        k = [i for i, x in enumerate(sh) if not (isinstance(x, int) and x == 1)][0]
        if (isinstance(sh[k], int) and sh[k] == -1) or c.entailed(I(a[k]) == I(o.shape[0])):
            return c.lam((1,) * k + (o.shape[0],) + (1,) * (len(sh) - k - 1), lambda *r: f(r[k]), o.dtype, o.kind)
    # trailing ones: (n,) -> (n,1,1) etc.
    if len(sh) > len(cur) and all(isinstance(x, int) and x == 1 for x in sh[len(cur):]):
        k = len(cur)
        return c.lam(tuple(o.shape) + (1,) * (len(sh) - k), lambda *r: f(*r[:k]), o.dtype, o.kind)
    raise Unsupported(f"reshape {o.shape} -> {a}")


# ------------------------------------------------------------------ numpy functions
def shape_of(v):
    if isinstance(v, tuple): return v
    if isinstance(v, PList): return tuple(v.items)
    return (v,)


@reg("np.zeros", "torch.zeros")
def _zeros(c, a, k):
    sh = shape_of(a[0]) if len(a) == 1 or not all(is_int(x) for x in a) else tuple(a)
    dt = dtype_of(k.get("dtype", a[1] if len(a) > 1 and not is_int(a[1]) else None)) or "real"
    z = {"real": z3.RealVal(0), "int": z3.IntVal(0), "bool": z3.BoolVal(False)}.get(dt)
    if dt == "obj":
        raise Unsupported("object zeros")
    return c.lam(sh, lambda *i: z, dt)


@reg("np.ones", "torch.ones")
def _ones(c, a, k):
    sh = shape_of(a[0])
    dt = dtype_of(k.get("dtype", a[1] if len(a) > 1 else None)) or "real"
    z = {"real": z3.RealVal(1), "int": z3.IntVal(1), "bool": z3.BoolVal(True)}[dt]
    return c.lam(sh, lambda *i: z, dt)


@reg("np.full", "torch.full")
def _full(c, a, k):
    sh = shape_of(a[0])
    v = a[1] if len(a) > 1 else k["fill_value"]
    dt = dtype_of(k.get("dtype", a[2] if len(a) > 2 else None)) or ("bool" if is_bool(v) else "int" if is_int(v) else "real")
    return c.lam(sh, lambda *i: conv_dtype(dt)(v), dt)


@reg("np.zeros_like", "torch.zeros_like")
def _zeros_like(c, a, k):
    v = a[0]
    if is_scalar(v):
        return (0.0 if is_real(v) else 0)
    v = to_arr(c, v)
    return _zeros(c, [v.shape], {"dtype": k.get("dtype") or v.dtype})


@reg("np.ones_like", "torch.ones_like")
def _ones_like(c, a, k):
    v = a[0]
    return _ones(c, [v.shape], {"dtype": k.get("dtype") or v.dtype})


@reg("np.empty", "np.empty_like")
def _empty(c, a, k):
    if isinstance(a[0], Arr):
        return c.arr("empty", a[0].shape, a[0].dtype)
    return c.arr("empty", shape_of(a[0]), dtype_of(k.get("dtype")) or "real")


@reg("np.arange", "torch.arange")
def _arange(c, a, k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
    st = a[2] if len(a) > 2 else 1
    st = as_py(st)
    if st == -1:
        n = binop("-", lo, hi)
        n = n if c.entailed(cmp(">=", n, 0)) else smax(n, 0)
        return c.lam((n,), lambda i: I(lo) - i, "int")
    if st != 1:
        raise Unsupported("arange step")
    n = simp(binop("-", hi, lo))
    n = n if c.entailed(cmp(">=", n, 0)) else smax(n, 0)
    return c.lam((as_py(n) if not is_z3(as_py(n)) else n,), lambda i: I(i) + I(lo), "int")


@reg("np.array", "np.asarray", "torch.tensor", "torch.as_tensor", "torch.from_numpy", "np.ascontiguousarray")
def _array(c, a, k):
    v = a[0]
    dt = dtype_of(k.get("dtype", a[1] if len(a) > 1 else None))
    if isinstance(v, ObjArr):
        return v
    if isinstance(v, PList) and v.concrete and v.items and all(isinstance(x, (Obj, Model)) for x in v.items):
        return c.reg(ObjArr(v.items), "objarr")
    if isinstance(v, Model):
        if hasattr(v, "m_array"):
            return v.m_array(c)
        raise Unsupported("array of model")
    if isinstance(v, Arr):
        r = c.reg(v.copy(), "arr")
        r.kind = v.kind
    elif isinstance(v, PList) and v.concrete and not v.items and dt:
        r = c.lam((0,), lambda i: {"int": z3.IntVal(0), "real": z3.RealVal(0), "bool": z3.BoolVal(False)}[dt], dt)
    else:
        if isinstance(v, GenV_()):
            v = PList(v.items)
        r = to_arr(c, v)
        if isinstance(r, ObjArr):
            return r
        if r is v:
            r = c.reg(v.copy(), "arr")
    if dt and dt != r.dtype:
        r = c.reg(astype(c, r, dt), "arr")
    return r


def keep_kind(kind):
    def d(fn):
        def w(c, a, k):
            r = fn(c, a, k)
            if isinstance(r, Arr):
                r.kind = kind
            return r
        return w
    return d


for nm in ("torch.full", "torch.tensor", "torch.as_tensor", "torch.from_numpy", "torch.zeros", "torch.ones", "torch.arange", "torch.zeros_like", "torch.ones_like"):
    REG[nm] = keep_kind("torch")(REG[nm])


@reg("np.asanyarray")
def _asany(c, a, k):
    return a[0] if isinstance(a[0], (Arr, Model)) else _array(c, a, k)


REG["np.asarray"] = lambda c, a, k: a[0] if isinstance(a[0], Arr) and not k.get("dtype") and len(a) < 2 else _array(c, a, k)
REG["numpy.asarray"] = REG["np.asarray"]


@reg("np.concatenate", "torch.cat", "np.hstack")
def _concat(c, a, k):
    seq = a[0]
    if isinstance(seq, PList) and not seq.concrete and seq.dtype == "ragged" and hasattr(c.it.con, "cat_ragged") and \
            as_py(k.get("axis", k.get("dim", a[1] if len(a) > 1 else 0))) == 0:
        return c.it.con.cat_ragged(c, seq)
    parts = [to_arr(c, x) for x in c.it.concrete_iter(seq) or _bad("concatenate of a symbolic sequence")]
    ax = as_py(k.get("axis", k.get("dim", a[1] if len(a) > 1 else 0)))
    if ax not in (0,):
        if ax in (1, -1) and all(len(p.shape) == 2 for p in parts):
            return _concat_ax1(c, parts)
        raise Unsupported("concatenate axis")
    # numpy: empty float arrays take part in dtype promotion only
    dts = [p.dtype for p in parts]
    dt = "real" if "real" in dts else "int" if "int" in dts else "bool"
    conv = conv_dtype(dt)
    fs = [p.snap() for p in parts]
    offs, n = [], 0
    for p in parts:
        if p.dom is not None:
            raise Unsupported("concatenate masked")
        offs.append(n)
        n = binop("+", n, p.shape[0])
    ns = [p.shape[0] for p in parts]

    def g(i, *r):
        res = None
        for off, f, ln in reversed(list(zip(offs, fs, ns))):
            if isinstance(as_py(ln), int) and as_py(ln) == 0:
                continue
            v = conv(f(simp(I(i) - I(off)), *r))
            res = v if res is None else ite(I(i) >= I(off) + I(ln), res, v)
        return res if res is not None else conv(0 if dt != "bool" else False)
    kind = "torch" if any(p.kind == "torch" for p in parts) else "np"
    n = simp(n) if is_z3(n) else n
    return c.lam((n,) + tuple(parts[0].shape[1:]), g, dt, kind)


def _concat_ax1(c, parts):
    fs = [p.snap() for p in parts]
    offs, n = [], 0
    for p in parts:
        offs.append(n)
        n = binop("+", n, p.shape[1])

    def g(i, j, *r):
        res = None
        for off, f, p in reversed(list(zip(offs, fs, parts))):
            v = f(i, I(j) - I(off))
            res = v if res is None else ite(I(j) >= I(off) + I(p.shape[1]), res, v)
        return res
    return c.lam((parts[0].shape[0], n), g, parts[0].dtype, parts[0].kind)


def _bad(msg):
    raise Unsupported(msg)


@reg("np.stack", "torch.stack")
def _stack(c, a, k):
    if isinstance(a[0], PList) and not a[0].concrete and a[0].dtype == "arr":
        if as_py(k.get("axis", k.get("dim", a[1] if len(a) > 1 else 0))) != 0:
            raise Unsupported("stack of symbolic list along another axis")
        f0 = a[0].f_
        e0 = f0(z3.IntVal(0))
        return c.lam((a[0].n_,) + tuple(e0.shape), lambda m, *i: f0(m).f(*i), e0.dtype, e0.kind)
    parts = [to_arr(c, x) for x in c.it.concrete_iter(a[0]) or _bad("stack of symbolic sequence")]
    ax = as_py(k.get("axis", k.get("dim", a[1] if len(a) > 1 else 0)))
    nd = len(parts[0].shape)
    if ax < 0:
        ax += nd + 1
    fs = [p.snap() for p in parts]
    sh = parts[0].shape

    def g(*r):
        i = r[ax]
        rest = r[:ax] + r[ax + 1:]
        res = fs[-1](*rest)
        for kk in range(len(fs) - 2, -1, -1):
            res = ite(cmp("==", i, kk), fs[kk](*rest), res)
        return res
    return c.lam(tuple(sh[:ax]) + (len(parts),) + tuple(sh[ax:]), g, parts[0].dtype, parts[0].kind)


@reg("np.logical_or")
def _lor(c, a, k):
    return ew2(c, lambda x, y: b_or(c.it.truth_value(x), c.it.truth_value(y)), a, "bool")


@reg("np.logical_and")
def _land(c, a, k):
    return ew2(c, lambda x, y: b_and(c.it.truth_value(x), c.it.truth_value(y)), a, "bool")


@reg("np.logical_not")
def _lnot(c, a, k):
    return ew2(c, lambda x: b_not(c.it.truth_value(x)), a, "bool")


def ew2(c, fn, vals, dt=None):
    vals = [to_arr(c, v) if isinstance(v, (PList, tuple)) else v for v in vals]
    if any(isinstance(v, Arr) for v in vals):
        return ew(c, fn, vals, dt)
    return fn(*vals)


@reg("np.where", "torch.where")
def _where(c, a, k):
    if len(a) == 1:
        v = a[0]
        return (nonzero(c, v),)
    return ew2(c, lambda x, y, z: ite(c.it.truth_value(x), y, z), a)


def nonzero(c, v):
    """np.nonzero(v)[0] for a 1-d array: strictly increasing positions, complete"""
    v = to_arr(c, v)
    if len(v.shape) != 1 or v.dom is not None:
        raise Unsupported("nonzero")
    cached = v.meta.get("nz")
    if cached is not None:
        return cached
    g = v.snap()
    tv = (lambda i: B(g(i)))
    n = I(v.shape[0])
    m = c.nat("nz_n")
    r = c.arr("nz", (m,), "int")
    F = r._f
    inv = z3.Function(c.fresh_name("nz_inv"), z3.IntSort(), z3.IntSort())
    c.assume(m <= n)
    i, j = z3.Int(c.fresh_name("?nz")), z3.Int(c.fresh_name("?nz"))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= F(i), F(i) < n, tv(F(i)), inv(F(i)) == i)), patterns=[F(i)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), F(i) < F(j)), patterns=[z3.MultiPattern(F(i), F(j))]))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, tv(i)), z3.And(0 <= inv(i), inv(i) < m, F(inv(i)) == i)), patterns=[inv(i)]))
    c.assume(c.forall(lambda q: z3.Implies(tv(q), m > 0), 0, n))
    r.meta["inv"] = inv
    v.meta["nz"] = r
    return r


@reg("np.nonzero")
def _nonzero(c, a, k):
    return (nonzero(c, a[0]),)


@reg("np.any", "builtins.any", "torch.any")
def _any(c, a, k):
    v = a[0]
    if isinstance(v, Arr):
        if axis_arg(a, k, 1) is not None:
            raise Unsupported("any axis")
        if not v.shape:
            return c.it.truth_value(v.f())
        n0 = as_py(v.shape[0])
        if len(v.shape) == 1 and v.dom is None:
            if isinstance(n0, int) and n0 <= 4:
                r = False
                for i in range(n0):
                    r = b_or(r, c.it.truth_value(v.f(i)))
                return r
            return c.exists(lambda i: c.it.truth_value(v.f(i)), 0, v.shape[0])
        if v.dom is None:
            vs = [z3.Int(c.fresh_name("?a")) for _ in v.shape]
            return z3.Exists(vs, z3.And(*[z3.And(x >= 0, x < I(s)) for x, s in zip(vs, v.shape)], B(v.f(*vs))))
        raise Unsupported("any of matrix")
    items = c.it.concrete_iter(v)
    if items is None:
        iv = c.it.sym_iter(v)
        return c.exists(lambda i: c.it.truth_value(iv.get(i)), 0, iv.n)
    r = False
    for x in items:
        r = b_or(r, c.it.truth_value(x))
    return r


@reg("np.all", "builtins.all", "torch.all")
def _all(c, a, k):
    v = a[0]
    if isinstance(v, Arr):
        if axis_arg(a, k, 1) is not None:
            raise Unsupported("all axis")
        if not v.shape:
            return c.it.truth_value(v.f())
        vs = [z3.Int(c.fresh_name("?a")) for _ in v.shape]
        rng = [z3.And(x >= 0, x < I(s)) for x, s in zip(vs, v.shape)]
        if v.dom is not None:
            rng.append(B(v.dom(*vs)))
        n0 = as_py(v.shape[0])
        if len(vs) == 1 and isinstance(n0, int) and n0 <= 4 and v.dom is None:
            r = True
            for i in range(n0):
                r = b_and(r, c.it.truth_value(v.f(i)))
            return r
        return z3.ForAll(vs, z3.Implies(z3.And(*rng), B(v.f(*vs))))
    if is_scalar(v):
        return c.it.truth_value(v)
    items = c.it.concrete_iter(v)
    if items is None:
        iv = c.it.sym_iter(v)
        return c.forall(lambda i: c.it.truth_value(iv.get(i)), 0, iv.n)
    r = True
    for x in items:
        r = b_and(r, c.it.truth_value(x))
    return r


SUMS = {}


def prefix_sum(c, f, n, base="S"):
    """ghost prefix-sum function of an element function: S(0)=0, S(k+1)=S(k)+f(k).  Returns the z3 function; the
    recursion is assumed as a definitional axiom instantiated on demand by contracts (unfold)."""
    S = z3.Function(c.fresh_name(base), z3.IntSort(), z3.RealSort())
    c.assume(S(0) == 0)
    return S


@reg("np.sum", "builtins.sum", "torch.sum")
def _sum(c, a, k):
    v = a[0]
    ax = axis_arg(a, k, 1) if isinstance(v, Arr) else None
    if isinstance(v, (tuple, PList)) or not isinstance(v, Arr):
        items = c.it.concrete_iter(v)
        if items is not None:
            r = 0
            for x in items:
                r = binop_any(c.it, "+", r, x)
            return r
        v = to_arr(c, v)
    if ax is not None:
        return reduce_axis(c, v, as_py(ax), "sum", k)
    if v.dom is not None:
        raise Unsupported("sum of masked")
    if not v.shape:
        return num(v.f())
    if v.dtype == "bool":
        if len(v.shape) != 1:
            raise Unsupported("sum of bool matrix")
        g = v.snap()
        if not hasattr(v, "domf"):
            v.domf = lambda *r: B(g(*r))
            v.domn = c.nat("cnt")
            c.assume(v.domn <= I(v.shape[0]))
            c.assume((v.domn > 0) == c.exists(lambda i: v.domf(i), 0, v.shape[0]))
        return v.domn
    hook = getattr(c.it.con, "sum_hook", None)
    if hook:
        r = hook(c, v)
        if r is not None:
            return r
    n0 = as_py(v.shape[0])
    if len(v.shape) == 1 and isinstance(n0, int) and n0 <= 8:
        r = 0
        for i in range(n0):
            r = binop("+", r, v.f(i))
        return r
    return agg(c, "sum", v)


AGG = {}


def agg_key(v, ax=None):
    """structural identity of an element function (so that equal arrays have equal sums)"""
    vs = [z3.Int("?agg%d" % i) for i in range(len(v.shape))]
    e = v.snap()(*vs)
    if v.dtype == "int": e = I(e)
    elif v.dtype == "real": e = R(e)
    e = z3.simplify(e) if is_z3(e) else z3.simplify(R(e))
    return vs, e


def same_elements(c, f1, f2):
    """two element expressions equal for every index, from the quantifier-free facts alone (a small query of its own)"""
    if not c.proving:
        return False
    tab = c.ver.__dict__.setdefault("same_cache", {})
    hy = [h for h in c.pc if not c.ver.solver.has_quant([h])]
    key = f1.sexpr() + "==" + f2.sexpr() + "|" + "|".join(h.sexpr() for h in hy)
    if key not in tab:
        tab[key] = c.ver.solver.entails(hy, f1 == f2, 2000)
    return tab[key]


def agg(c, name, v):
    """uninterpreted full reduction, functional in the array contents (congruence by structural equality)"""
    unit = [isinstance(as_py(s), int) and as_py(s) == 1 for s in v.shape]
    if any(unit) and len(v.shape) > 1 and name in ("sum", "mean", "std", "var"):
        keep = [q for q in range(len(unit)) if not unit[q]] or [0]
        f0, nd = v.snap(), len(v.shape)
        v = Arr([v.shape[q] for q in keep], lambda *r: f0(*[r[keep.index(q)] if q in keep else z3.IntVal(0) for q in range(nd)]), v.dtype)
    vs, e = agg_key(v)
    shp = "x".join(str(simp(I(s))) for s in v.shape)
    key = f"{name}|{shp}|{e.sexpr()}"
    tab = c.ghost.setdefault("agg", {})
    if key not in tab:
        rs = z3.IntSort() if v.dtype == "int" and name in ("sum", "max", "min") else z3.RealSort()
        r = z3.Const(c.fresh_name(name), rs)
        # extensionality: element-wise equal arrays have equal reductions
        for key2, (r2, v2, vs2, e2) in tab.items():
            if key2.startswith(f"{name}|{shp}|") and len(vs2) == len(vs) and r2.sort() == rs and is_z3(e) and is_z3(e2) and e.sort() == e2.sort():
                qs = [z3.Int(c.fresh_name("?x")) for _ in vs]
                f1, f2 = z3.substitute(e, *zip(vs, qs)), z3.substitute(e2, *zip(vs2, qs))
                if same_elements(c, f1, f2):
                    c.agg_facts.append((r, r2, r == r2))
                    continue
                c.agg_facts.append((r, r2, z3.Or(r == r2, z3.Exists(qs, z3.And(*[z3.And(q >= 0, q < I(s)) for q, s in zip(qs, v.shape)], f1 != f2)))))
                if name in ("sum", "mean") and not z3.is_bool(f1):
                    c.agg_facts.append((r, r2, z3.Or(r == -r2, z3.Exists(qs, z3.And(*[z3.And(q >= 0, q < I(s)) for q, s in zip(qs, v.shape)], f1 != -f2)))))
        tab[key] = (r, v, vs, e)
        if name in ("max", "min") and len(v.shape) > 1:
            f = v.snap()
            conv = I if v.dtype == "int" else R
            ws = [c.Int("arg" + name) for _ in v.shape]
            qs = [z3.Int(c.fresh_name("?m")) for _ in v.shape]
            c.assume(z3.Implies(z3.And(*[I(s) > 0 for s in v.shape]), z3.And(*[z3.And(w >= 0, w < I(s)) for w, s in zip(ws, v.shape)], conv(f(*ws)) == r)))
            c.assume(z3.ForAll(qs, z3.Implies(z3.And(*[z3.And(q >= 0, q < I(s)) for q, s in zip(qs, v.shape)]), conv(f(*qs)) <= r if name == "max" else conv(f(*qs)) >= r)))
        if name in ("max", "min") and len(v.shape) == 1:
            f = v.snap()
            n = I(v.shape[0])
            conv = I if v.dtype == "int" else R
            w = c.Int("arg" + name)
            c.assume(z3.Implies(n > 0, z3.And(w >= 0, w < n, conv(f(w)) == r)))
            c.assume(c.forall(lambda i: (conv(f(i)) <= r) if name == "max" else (conv(f(i)) >= r), 0, n))
        if name == "std":
            c.assume(r >= 0)
    return tab[key][0]


def agg_lookup(c, name, v):
    return agg(c, name, v)


def reduce_axis(c, v, ax, name, k):
    nd = len(v.shape)
    if isinstance(ax, tuple):
        raise Unsupported("multi-axis reduction")
    if ax < 0:
        ax += nd
    keep = k.get("keepdims", k.get("keepdim", False))
    d = as_py(v.shape[ax])
    f = v.snap()
    sh = v.shape[:ax] + v.shape[ax + 1:]
    conv = conv_dtype("real" if v.dtype == "real" else "int" if v.dtype == "int" else "int")
    if isinstance(d, int) and d <= 4:
        def g(*r):
            if keep:
                r = r[:ax] + r[ax + 1:]
            res = None
            for i in range(d):
                x = conv(f(*r[:ax], i, *r[ax:]))
                res = x if res is None else (binop("+", res, x) if name in ("sum", "mean") else smax(res, x) if name == "max" else smin(res, x))
            return res if name != "mean" else R(res) / d
        return c.lam(sh[:ax] + (1,) + sh[ax:] if keep else sh, g, "real" if v.dtype == "real" or name == "mean" else "int", v.kind)
    # symbolic extent: one uninterpreted function of the remaining indices, keyed by contents
    vs, e = agg_key(v)
    key = f"{name}|ax{ax}|{simp(I(v.shape[ax]))}|{e.sexpr()}"
    tab = c.ghost.setdefault("agg_ax", {})
    dt = "real" if v.dtype == "real" or name == "mean" else "int"
    rs = z3.RealSort() if dt == "real" else z3.IntSort()
    if key not in tab:
        F = z3.Function(c.fresh_name("red_" + name), *([z3.IntSort()] * len(sh)), rs) if sh else None
        if not sh:
            K = z3.Const(c.fresh_name("red_" + name), rs)
            F = lambda: K
        pre = f"{name}|ax{ax}|{simp(I(v.shape[ax]))}|"
        for key2, (F2, vs2, e2, rs2) in c.ghost.setdefault("agg_ext", {}).items():
            if key2.startswith(pre) and len(vs2) == len(vs) and rs2 == rs and e.sort() == e2.sort() and key2.split("|")[3] == str([simp(I(x)) for x in sh]):
                qs = [z3.Int(c.fresh_name("?x")) for _ in vs]
                f1, f2 = z3.substitute(e, *zip(vs, qs)), z3.substitute(e2, *zip(vs2, qs))
                out = qs[:ax] + qs[ax + 1:]
                body = z3.Or(F(*out) == F2(*out), z3.Exists([qs[ax]], z3.And(qs[ax] >= 0, qs[ax] < I(v.shape[ax]), f1 != f2)))
                rng = [z3.And(q >= 0, q < I(x)) for q, x in zip(out, sh)]
                c.assume(z3.ForAll(out, z3.Implies(z3.And(*rng), body)) if out else body)
        c.ghost["agg_ext"][pre + str([simp(I(x)) for x in sh]) + "|" + str(len(tab))] = (F, vs, e, rs)
        tab[key] = F
        if name in ("max", "min"):
            qs = [z3.Int(c.fresh_name("?r")) for _ in sh]
            j = z3.Int(c.fresh_name("?j"))
            W = z3.Function(c.fresh_name("arg_" + name), *([z3.IntSort()] * len(sh)), z3.IntSort()) if sh else None
            el = lambda jj: conv(f(*qs[:ax], jj, *qs[ax:]))
            if sh:
                bod = el(j) <= F(*qs) if name == "max" else el(j) >= F(*qs)
                c.assume(z3.ForAll(qs + [j], z3.Implies(z3.And(j >= 0, j < I(v.shape[ax])), bod)))
                c.assume(z3.ForAll(qs, z3.Implies(I(v.shape[ax]) > 0, z3.And(W(*qs) >= 0, W(*qs) < I(v.shape[ax]), el(W(*qs)) == F(*qs)))))
    F = tab[key]

    def g(*r):
        if keep:
            r = r[:ax] + r[ax + 1:]
        return F(*[I(x) for x in r])
    return c.lam(sh[:ax] + (1,) + sh[ax:] if keep else sh, g, dt, v.kind)


@reg("np.mean", "torch.mean")
def _mean(c, a, k):
    v = to_arr(c, a[0])
    ax = axis_arg(a, k, 1)
    if ax is not None:
        return reduce_axis(c, v, as_py(ax), "mean", k)
    return agg(c, "mean", v)


@reg("np.std", "torch.std")
def _std(c, a, k):
    v = to_arr(c, a[0])
    ax = axis_arg(a, k, 1)
    if ax is not None:
        return reduce_axis(c, v, as_py(ax), "std", k)
    return agg(c, "std", v)


@reg("np.var", "torch.var")
def _var(c, a, k):
    v = to_arr(c, a[0])
    ax = axis_arg(a, k, 1)
    if ax is not None:
        return reduce_axis(c, v, as_py(ax), "var", k)
    return agg(c, "var", v)


def _maxmin(name):
    fn = smax if name == "max" else smin

    def f(c, a, k):
        if len(a) > 1 and all(is_scalar(x) for x in a):
            r = a[0]
            for x in a[1:]:
                r = fn(r, x)
            return r
        if name in ("max", "min") and len(a) == 2 and isinstance(a[0], Arr) and isinstance(a[1], Arr):
            return ew(c, fn, a)
        v = a[0]
        if not isinstance(v, Arr):
            items = c.it.concrete_iter(v)
            if items is not None and all(is_scalar(x) for x in items):
                if not items:
                    if "default" in k:
                        return k["default"]
                    raise PyRaise("ValueError")
                r = items[0]
                for x in items[1:]:
                    r = fn(r, x)
                return r
            v = to_arr(c, v)
        ax = axis_arg(a, k, 1)
        if ax is not None:
            return reduce_axis(c, v, as_py(ax), name, k)
        if v.dom is not None:
            raise Unsupported("max of masked")
        return agg(c, name, v)
    return f


for nm in ("max", "min"):
    for pre in ("np.", "builtins.", "torch."):
        REG[pre + nm] = _maxmin(nm)
REG["np.amax"] = REG["np.max"]
REG["np.amin"] = REG["np.min"]


@reg("np.maximum", "torch.maximum")
def _maximum(c, a, k):
    return ew2(c, smax, a[:2])


@reg("np.minimum", "torch.minimum")
def _minimum(c, a, k):
    return ew2(c, smin, a[:2])


@reg("np.clip", "torch.clamp", "torch.clip")
def _clip(c, a, k):
    v = a[0]
    lo = k.get("min", k.get("a_min", a[1] if len(a) > 1 else None))
    hi = k.get("max", k.get("a_max", a[2] if len(a) > 2 else None))
    def f(x, l, h):
        if l is not None: x = smax(x, l)
        if h is not None: x = smin(x, h)
        return x
    vals = [v, lo, hi]
    if isinstance(v, Arr) or isinstance(lo, Arr) or isinstance(hi, Arr):
        vv = [x for x in vals if x is not None]
        if lo is None:
            return ew(c, lambda x, h: f(x, None, h), [v, hi])
        if hi is None:
            return ew(c, lambda x, l: f(x, l, None), [v, lo])
        return ew(c, f, vals)
    return f(v, lo, hi)


@reg("np.abs", "builtins.abs", "torch.abs", "np.absolute")
def _abs(c, a, k):
    return ew2(c, sabs, a[:1])


def _unary(fn):
    return lambda c, a, k: ew2(c, lambda x: fn(R(x)), a[:1])


def _exp(x):
    return EXPF(x)


for nm, F in (("exp", EXPF), ("log", LOGF), ("sqrt", SQRTF), ("tanh", TANHF), ("arctanh", ATANHF)):
    for pre in ("np.", "torch.", "math."):
        REG[pre + nm] = _unary(F)


@reg("torch.min_", "np.roll")
def _roll(c, a, k):
    v = a[0]
    s = as_py(k.get("shift", a[1] if len(a) > 1 else None))
    if len(v.shape) != 1:
        raise Unsupported("roll")
    f = v.snap()
    n = I(v.shape[0])
    if s == 1:
        return c.lam(v.shape, lambda i: f(z3.If(I(i) == 0, n - 1, I(i) - 1)), v.dtype, v.kind)
    if s == -1:
        return c.lam(v.shape, lambda i: f(z3.If(I(i) == n - 1, z3.IntVal(0), I(i) + 1)), v.dtype, v.kind)
    raise Unsupported("roll shift")


@reg("np.isin")
def _isin(c, a, k):
    x, y = to_arr(c, a[0]), to_arr(c, a[1])
    if len(y.shape) != 1:
        raise Unsupported("isin")
    g = y.snap()
    n0 = as_py(y.shape[0])
    if isinstance(n0, int) and n0 <= 4:
        def f(e):
            r = False
            for i in range(n0):
                r = b_or(r, cmp("==", e, g(i)))
            return r
        return ew(c, f, [x], "bool")
    nm = c.fresh_name("isin")
    return ew(c, lambda e: (lambda q: z3.Exists([q], z3.And(q >= 0, q < I(y.shape[0]), B(cmp("==", e, g(q))))))(z3.Int(c.fresh_name("?" + nm))), [x], "bool")


@reg("np.isnan", "np.isinf", "torch.isnan")
def _isnan(c, a, k):
    return ew2(c, lambda x: False, a[:1], "bool")


@reg("np.isscalar")
def _isscalar(c, a, k):
    return is_scalar(a[0])


@reg("np.searchsorted")
def _searchsorted(c, a, k):
    edges, x = to_arr(c, a[0]), a[1]
    side = k.get("side", a[2] if len(a) > 2 else "left")
    if isinstance(x, Arr) and x.shape:
        raise Unsupported("searchsorted of array")
    f = edges.snap()
    n = I(edges.shape[0])
    r = c.Int("ss")
    c.assume(r >= 0, r <= n)
    # definition on a sorted array (sortedness is an obligation)
    srt = c.forall(lambda i: I(f(i)) <= I(f(i + 1)), 0, n - 1)
    c.prove("searchsorted-on-sorted", srt, "safety")
    lt = (lambda u, v: u < v) if side == "left" else (lambda u, v: u <= v)
    x = I(x) if is_int(x) else R(x)
    c.assume(c.forall(lambda i: lt(f(i), x), 0, r))
    c.assume(c.forall(lambda i: z3.Not(lt(f(i), x)), r, n))
    return r


@reg("np.isclose")
def _isclose(c, a, k):
    if k or len(a) != 2:
        raise Unsupported("isclose with tolerances")
    rt, at = Fraction(1, 100000), Fraction(1, 100000000)
    return ew2(c, lambda x, y: cmp("<=", sabs(binop("-", R(x), R(y))), binop("+", R(at), binop("*", R(rt), sabs(R(y))))), a, "bool")


@reg("np.random.choice")
def _choice(c, a, k):
    src = a[0]
    size = k.get("size", a[1] if len(a) > 1 else None)
    if size is None:
        raise Unsupported("choice without size")
    if c.entailed(cmp(">=", size, 0)) is False:
        if not c.branch(cmp(">=", size, 0)):
            raise PyRaise("ValueError")
    j = c.arr("draw", (size,), "int")
    F = j._f
    n = src if is_int(src) else src.shape[0]
    if not c.branch(b_or(cmp(">", n, 0), cmp("==", size, 0))):
        raise PyRaise("ValueError")
    c.assume(c.forall(lambda i: z3.And(F(i) >= 0, F(i) < I(n)), 0, size, pats=[lambda i: F(i)]))
    c.events.append(("choice", src, size, k))
    if is_int(src):
        return j
    if src.dom is not None:
        # sampling from a compacted array: elements at source positions satisfying the mask
        g, dom = src.snap(), src.dom
        w = c.arr("drawpos", (size,), "int")
        W = w._f
        c.assume(c.forall(lambda i: z3.And(W(i) >= 0, W(i) < I(src.shape[0]), B(dom(W(i)))), 0, size, pats=[lambda i: W(i)]))
        return c.lam((size,), lambda i: g(W(i)), src.dtype)
    f = src.snap()
    return c.lam((size,), lambda i: f(F(i)), src.dtype)


@reg("np.random.rand")
def _rand(c, a, k):
    if not a:
        r = c.Real("u")
        c.assume(r >= 0, r < 1)
        return r
    j = c.arr("u", tuple(a), "real")
    if len(a) == 1:
        c.assume(c.forall(lambda i: z3.And(j._f(i) >= 0, j._f(i) < 1), 0, a[0], pats=[lambda i: j._f(i)]))
    else:
        qs = [z3.Int(c.fresh_name("?u")) for _ in a]
        c.assume(z3.ForAll(qs, z3.And(j._f(*qs) >= 0, j._f(*qs) < 1), patterns=[j._f(*qs)]))
    return j


@reg("np.random.randint")
def _randint(c, a, k):
    lo, hi = a[0], a[1] if len(a) > 1 else k.get("high")
    size = k.get("size", a[2] if len(a) > 2 else None)
    if hi is None:
        lo, hi = 0, lo
    if not c.branch(cmp("<", lo, hi)) if not isinstance(hi, Arr) and not isinstance(lo, Arr) else False:
        raise PyRaise("ValueError")
    if size is None and not isinstance(hi, Arr):
        r = c.Int("ri")
        c.assume(cmp("<=", lo, r), cmp("<", r, hi))
        return r
    sh = shape_of(size) if size is not None else hi.shape
    j = c.arr("ri", sh, "int")
    if isinstance(hi, Arr) or isinstance(lo, Arr):
        raise Unsupported("randint bounds array")
    c.assume(c.forall(lambda i: z3.And(j._f(i) >= I(lo), j._f(i) < I(hi)), 0, sh[0], pats=[lambda i: j._f(i)]))
    return j


@reg("np.random.permutation")
def _perm(c, a, k):
    n = a[0]
    j = c.arr("perm", (n,), "int")
    F = j._f
    inv = z3.Function(c.fresh_name("perm_inv"), z3.IntSort(), z3.IntSort())
    q = z3.Int(c.fresh_name("?p"))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(n)), z3.And(0 <= F(q), F(q) < I(n), inv(F(q)) == q)), patterns=[F(q)]))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < I(n)), z3.And(0 <= inv(q), inv(q) < I(n), F(inv(q)) == q)), patterns=[inv(q)]))
    j.meta["inv"] = inv
    return j


@reg("np.bincount")
def _bincount(c, a, k):
    v = a[0]
    ml = k.get("minlength", 0)
    m = c.nat("bc_n")
    c.assume(m >= I(ml))
    r = c.arr("bc", (ml,), "int")
    f = v.snap()
    # all entries below minlength (obligation) => result has exactly minlength entries
    c.prove("bincount-range", c.forall(lambda i: z3.And(I(f(i)) >= 0, I(f(i)) < I(ml)), 0, v.shape[0]), "safety")
    c.assume(c.forall(lambda b: z3.And(r._f(b) >= 0, r._f(b) <= I(v.shape[0])), 0, ml, pats=[lambda b: r._f(b)]))
    c.assume(c.forall(lambda i: r._f(I(f(i))) > 0, 0, v.shape[0]))
    q = z3.Int(c.fresh_name("?bq"))
    W = z3.Function(c.fresh_name("bc_w"), z3.IntSort(), z3.IntSort())
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < I(ml), r._f(q) > 0), z3.And(W(q) >= 0, W(q) < I(v.shape[0]), I(f(W(q))) == q)), patterns=[r._f(q)]))
    r.meta["total"] = v.shape[0]
    return r


@reg("np.expand_dims")
def _expand(c, a, k):
    ax = as_py(k.get("axis", a[1] if len(a) > 1 else 0))
    v = a[0]
    if ax < 0:
        ax += len(v.shape) + 1
    return index_axis(c, v, ax, None)


@reg("torch.min", "torch.max")
def _tmin(c, a, k):
    raise Unsupported("torch.min")


for nm in ("max", "min"):
    def mk(nm):
        base = _maxmin(nm)

        def f(c, a, k):
            r = base(c, a, k)
            if axis_arg(a, k, 1) is not None and not (len(a) == 2 and isinstance(a[1], Arr)):
                return (r, Opaque("indices"))
            return r
        return f
    REG["torch." + nm] = mk(nm)


@reg("np.linspace", "torch.linspace")
def _linspace(c, a, k):
    lo, hi, n = a[0], a[1], a[2]
    return c.lam((n,), lambda i: R(lo) + (R(hi) - R(lo)) * R(i) / R(binop("-", n, 1)), "real")


@reg("np.split", "np.array_split")
def _split(c, a, k):
    raise Unsupported("np.split")


@reg("np.copy")
def _copy(c, a, k):
    return c.reg(a[0].copy(), "cp")


@reg("np.isscalar")
def _issc(c, a, k):
    return is_scalar(a[0])


@reg("np.issubdtype")
def _issub(c, a, k):
    d = a[0] if isinstance(a[0], str) else dtype_of(a[0])
    n = a[1].name.split(".")[-1]
    return {"integer": d == "int", "floating": d == "real", "number": d in ("int", "real"), "bool_": d == "bool"}[n]


@reg("np.prod")
def _prod(c, a, k):
    items = c.it.concrete_iter(a[0])
    if items is None:
        raise Unsupported("prod")
    r = 1
    for x in items:
        r = binop("*", r, x)
    return r


@reg("np.argmax", "np.argmin", "torch.argmax")
def _argmax(c, a, k):
    v = a[0]
    ax = axis_arg(a, k, 1)
    neg = False
    nd = len(v.shape)
    f = v.snap()
    if nd == 1 and (ax is None or as_py(ax) in (0, -1)):
        w = c.Int("am")
        n = I(v.shape[0])
        c.assume(w >= 0, w < n)
        c.assume(c.forall(lambda i: B(cmp("<=", f(i), f(w))), 0, n))
        return w
    if nd == 2 and as_py(ax) in (1, -1):
        W = c.arr("am", (v.shape[0],), "int")
        i, j = z3.Int(c.fresh_name("?am")), z3.Int(c.fresh_name("?am"))
        c.assume(z3.ForAll([i], z3.And(W._f(i) >= 0, W._f(i) < I(v.shape[1])), patterns=[W._f(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, j < I(v.shape[1])), B(cmp("<=", f(i, j), f(i, W._f(i)))))))
        W.kind = v.kind
        return W
    raise Unsupported("argmax")


REG["np.argmin"] = lambda c, a, k: _argmax(c, [binop_any(c.it, "-", 0, a[0]), *a[1:]], k)


# ------------------------------------------------------------------ builtins
def isinstance_(c, a, k):
    v, t = a
    ts = flatten_types(t)
    res = False
    for x in ts:
        r = isinst1(c, v, x)
        if r is True:
            return True
        res = b_or(res, r)
    return res


def flatten_types(t):
    if isinstance(t, tuple):
        return [y for x in t for y in flatten_types(x)]
    if isinstance(t, PList):
        return [y for x in t.items for y in flatten_types(x)]
    return [t]


def isinst1(c, v, t):
    from .interp import ExcClass, mro
    if isinstance(t, Opaque) or isinstance(v, Opaque):
        h = getattr(c.it.con, "opaque_isinstance", None)
        if h is not None:
            return h(c, v, t)
        raise Unsupported(f"isinstance({v!r}, {t!r})")
    if isinstance(t, ClassV):
        if isinstance(v, Obj):
            return any(k is t for k in mro(c.ver, v.cls)) if isinstance(v.cls, ClassV) else False
        if isinstance(v, Model):
            pt = v.pytype
            names = pt if isinstance(pt, tuple) else (pt,)
            return t.name in names
        return False
    name = t.name.split(".")[-1] if isinstance(t, (Ext, Prim)) else None
    if name is None:
        raise Unsupported(f"isinstance against {t!r}")
    if isinstance(v, Model):
        pt = v.pytype
        names = pt if isinstance(pt, tuple) else (pt,)
        return name in names
    if name == "ndarray":
        return isinstance(v, Arr) and v.kind == "np"
    if name == "Tensor":
        return isinstance(v, Arr) and v.kind == "torch"
    if name in ("int",):
        return (is_int(v) or isinstance(v, (bool, z3.BoolRef))) and not isinstance(v, NpScalar)
    if name in ("integer",):
        return False
    if name == "float":
        return is_real(v)
    if name in ("number", "Number"):
        return is_num(v) if name == "Number" else False
    if name in ("bool_",):
        return False
    if name == "bool":
        return is_bool(v)
    if name == "list":
        return isinstance(v, PList)
    if name == "tuple":
        return isinstance(v, tuple)
    if name == "dict":
        return isinstance(v, PDict)
    if name == "str":
        return isinstance(v, str)
    if name == "slice":
        return isinstance(v, SliceV)
    if name == "set":
        return isinstance(v, PSet)
    if name in ("Sequence", "Collection"):
        return isinstance(v, (PList, tuple, str))
    if name == "NoneType":
        return v is None
    if name in ("Callable",):
        return isinstance(v, (FuncV, BoundV, Prim)) or (isinstance(v, Model) and v.pytype == "Callable")
    if name == "Mapping":
        return isinstance(v, PDict)
    if isinstance(v, Obj):
        # external base class of a repository class
        if isinstance(v.cls, ClassV):
            return any(isinstance(k, Ext) and k.name.split(".")[-1] == name for k in mro(c.ver, v.cls))
        return False
    return False


class NpScalar:
    pass


def len_(c, a, k):
    v = a[0]
    if isinstance(v, (tuple, str, list)):
        return len(v)
    if isinstance(v, PList):
        return v.n
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, PSet):
        return len(v.items)
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise("TypeError")
        if v.dom is not None:
            return v.meta.get("domn") if v.meta.get("domn") is not None else _bad("len of masked array")
        return v.shape[0]
    if isinstance(v, Model):
        return v.m_len(c)
    if isinstance(v, Obj):
        m = c.it.find_member(v.cls, "__len__")
        if m is None:
            raise PyRaise("TypeError")
        return c.it.call(c.it.bind_member(m, v), [], {})
    if isinstance(v, SRange):
        return c.it.sym_iter(v).n
    if v is None or is_scalar(v):
        raise PyRaise("TypeError")
    if isinstance(v, IterV):
        return v.n
    raise Unsupported(f"len of {v!r}")


def range_(c, a, k):
    if len(a) == 1:
        return SRange(0, a[0])
    return SRange(*a)


def zip_(c, a, k):
    from .interp import StarV
    if len(a) == 1 and isinstance(a[0], StarV):
        # zip(*rows) of a symbolic number of equally long tuples
        iv = c.it.sym_iter(a[0].v)
        if not c.branch(I(iv.n) >= 1):
            return []
        probe = iv.get(z3.IntVal(0))
        if not isinstance(probe, tuple):
            raise Unsupported("zip of rows that are not tuples")
        return [IterV(iv.n, lambda m, j=j: iv.get(I(m))[j]) for j in range(len(probe))]
    its = [c.it.concrete_iter(x) for x in a]
    if all(i is not None for i in its):
        if k.get("strict") and len({len(i) for i in its}) > 1:
            raise PyRaise("ValueError")
        return list(zip(*its))
    svs = [c.it.sym_iter(x) for x in a]
    n = svs[0].n
    for s in svs[1:]:
        if c.entailed(I(n) == I(s.n)):
            continue
        if k.get("strict"):
            if not c.branch(I(n) == I(s.n)):
                raise PyRaise("ValueError")
        else:
            n = smin(n, s.n)
    return IterV(n, lambda i: tuple(s.get(i) for s in svs))


def enumerate_(c, a, k):
    st = k.get("start", a[1] if len(a) > 1 else 0)
    items = c.it.concrete_iter(a[0])
    if items is not None:
        return [(binop("+", st, i), x) for i, x in enumerate(items)]
    iv = c.it.sym_iter(a[0])
    return IterV(iv.n, lambda i: (binop("+", i, st), iv.get(i)))


def list_(c, a, k):
    if not a:
        return c.reg(PList([]), "list")
    items = c.it.concrete_iter(a[0])
    if items is not None:
        return c.reg(PList(items), "list")
    v = a[0]
    if isinstance(v, Arr) and len(v.shape) == 1:
        return c.reg(PList(None, v.shape[0], v.snap(), v.dtype), "list")
    if isinstance(v, PList):
        return c.reg(PList(None, v.n_, v.f_, v.dtype), "list")
    if isinstance(v, SRange):
        iv = c.it.sym_iter(v)
        return c.reg(PList(None, iv.n, iv.get, "int"), "list")
    if isinstance(v, IterV):
        return v
    if isinstance(v, Model) and hasattr(v, "m_list"):
        return v.m_list(c)
    raise Unsupported("list()")


def tuple_(c, a, k):
    if not a:
        return ()
    items = c.it.concrete_iter(a[0])
    if items is None:
        raise Unsupported("tuple of symbolic sequence")
    return tuple(items)


def set_(c, a, k):
    return as_set(c.it, a[0]) if a and not isinstance(a[0], PSet) else PSet(a[0].items if a else [])


def dict_(c, a, k):
    d = PDict()
    c.reg(d, "dict")
    if a:
        v = a[0]
        if isinstance(v, PDict):
            d.d.update(v.d)
        else:
            for x in c.it.concrete_iter(v) or []:
                kk, vv = x if isinstance(x, tuple) else tuple(x.items)
                d.d[c.it.hashable(kk)] = vv
    d.d.update(k)
    return d


def int_(c, a, k):
    v = a[0] if a else 0
    if isinstance(v, Arr):
        v = v.f(*[0] * len(v.shape))
    if isinstance(v, bool):
        return int(v)
    if not is_z3(v):
        if isinstance(v, str):
            raise Unsupported("int(str)")
        return int(v)
    if isinstance(v, z3.BoolRef):
        return I(v)
    if v.is_int():
        return v
    # truncation toward zero
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def round_(c, a, k):
    v = a[0]
    if not is_z3(v):
        return round(v)
    if is_int(v):
        return v
    # round half to even
    fl = z3.ToInt(v)
    d = v - z3.ToReal(fl)
    return z3.If(d < z3.RealVal("1/2"), fl, z3.If(d > z3.RealVal("1/2"), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))


def float_(c, a, k):
    v = a[0]
    if isinstance(v, Arr):
        v = v.f(*[0] * len(v.shape))
    if isinstance(v, str):
        return float(v)
    if not is_z3(v):
        return float(v) if not isinstance(v, Fraction) else v
    return R(v)


def bool_(c, a, k):
    v = c.it.truth_value(a[0]) if a else False
    return v


def hasattr_(c, a, k):
    try:
        c.it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.name == "AttributeError":
            return False
        raise


def getattr_(c, a, k):
    try:
        return c.it.getattr(a[0], a[1])
    except PyRaise as e:
        if e.name == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def setattr_(c, a, k):
    c.it.setattr(a[0], a[1], a[2])


def issubclass_(c, a, k):
    from .interp import mro
    v, ts = a[0], flatten_types(a[1])
    if isinstance(v, str):        # a dtype's scalar type
        sub = {"int": ("number", "integer", "generic"), "real": ("number", "floating", "generic"), "bool": ("bool_", "generic"),
               "obj": ("object_", "generic")}.get(v)
        if sub is not None:
            return any(isinstance(t, Ext) and t.name.split(".")[-1] in sub for t in ts)
    if isinstance(v, ClassV):
        return any(k is t or k == t for k in mro(c.ver, v) for t in ts)
    raise Unsupported("issubclass")


def type_(c, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Model):
        return getattr(v, "tyobj", Opaque("type"))
    if is_bool(v): return BUILTIN["bool"]
    if is_int(v): return BUILTIN["int"]
    if is_real(v): return BUILTIN["float"]
    if isinstance(v, PList): return BUILTIN["list"]
    if isinstance(v, PDict): return BUILTIN["dict"]
    if isinstance(v, str): return BUILTIN["str"]
    if isinstance(v, tuple): return BUILTIN["tuple"]
    if v is None: return Ext("NoneType")
    return Opaque("type")


def sorted_(c, a, k):
    items = c.it.concrete_iter(a[0])
    if items is None or not all(isinstance(x, (str, int)) for x in items):
        raise Unsupported("sorted")
    return c.reg(PList(sorted(items)), "list")


def reversed_(c, a, k):
    v = a[0]
    items = c.it.concrete_iter(v)
    if items is not None:
        return list(reversed(items))
    iv = c.it.sym_iter(v)
    return IterV(iv.n, lambda i: iv.get(I(iv.n) - 1 - I(i)))


def callable_(c, a, k):
    v = a[0]
    return isinstance(v, (FuncV, BoundV, Prim, ClassV)) or (isinstance(v, Model) and v.pytype == "Callable")


def next_(c, a, k):
    raise Unsupported("next()")


def slice_(c, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def map_(c, a, k):
    items = c.it.concrete_iter(a[1])
    if items is None:
        raise Unsupported("map over symbolic")
    return [c.it.call(a[0], [x], {}) for x in items]


def filter_(c, a, k):
    items = c.it.concrete_iter(a[1])
    if items is None:
        raise Unsupported("filter over symbolic")
    return [x for x in items if c.it.truth(c.it.call(a[0], [x], {}))]


_none = lambda c, a, k: None
BUILTIN = {}
for nm, f in dict(isinstance=isinstance_, len=len_, range=range_, zip=zip_, enumerate=enumerate_, list=list_, tuple=tuple_,
                  set=set_, dict=dict_, int=int_, float=float_, bool=bool_, hasattr=hasattr_, getattr=getattr_,
                  setattr=setattr_, type=type_, sorted=sorted_, reversed=reversed_, callable=callable_, next=next_,
                  slice=slice_, map=map_, filter=filter_, round=round_, print=_none, iter=lambda c, a, k: a[0],
                  abs=_abs, max=_maxmin("max"), min=_maxmin("min"), sum=_sum, any=_any, all=_all,
                  str=lambda c, a, k: a[0] if a and isinstance(a[0], str) else "?", repr=lambda c, a, k: "?",
                  id=lambda c, a, k: Opaque("id"), object=lambda c, a, k: Opaque("object"),
                  frozenset=set_, issubclass=issubclass_).items():
    BUILTIN[nm] = Prim(nm, f)
BUILTIN["NotImplemented"] = Ext("NotImplemented")
BUILTIN["Ellipsis"] = Ellipsis


def builtin(name):
    return BUILTIN.get(name)


for nm in ("warnings.warn", "logging.getLogger", "tqdm.tqdm", "tianshou.utils.warning.deprecation"):
    REG[nm] = _none


@reg("logging.getLogger", "sensai.util.logging.getLogger")
def _getlogger(c, a, k):
    return LOG


class LogModel(Model):
    def m_getattr(self, c, name):
        return Prim("log." + name, _none)


LOG = LogModel()


@reg("typing.cast")
def _cast(c, a, k):
    return a[1]


@reg("copy.deepcopy", "copy.copy", "copy")
def _deepcopy(c, a, k):
    v = a[0]
    if isinstance(v, Arr):
        return c.reg(v.copy(), "cp")
    if is_scalar(v) or isinstance(v, (str, type(None))):
        return v
    if isinstance(v, Model) and hasattr(v, "m_copy"):
        return v.m_copy(c)
    if isinstance(v, (Obj, PDict, PList, tuple)):
        return deep_copy(c, v, {})
    raise Unsupported("deepcopy")


def deep_copy(c, v, memo):
    """copy.deepcopy of a tree of repository objects, containers and arrays (aliases inside it are preserved)"""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Obj):
        if c.it.find_member(v.cls, "__deepcopy__") or c.it.find_member(v.cls, "__reduce__"):
            raise Unsupported("deepcopy hook")
        r = c.reg(Obj(v.cls), "copy")
        memo[id(v)] = r
        r.fields = {k: deep_copy(c, x, memo) for k, x in v.fields.items()}
        r.hidden = dict(v.hidden)
        return r
    if isinstance(v, PDict):
        r = c.reg(PDict(), "dict")
        memo[id(v)] = r
        r.d = {k: deep_copy(c, x, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, PList) and v.concrete:
        r = c.reg(PList([]), "list")
        memo[id(v)] = r
        r.items = [deep_copy(c, x, memo) for x in v.items]
        return r
    if isinstance(v, tuple):
        return tuple(deep_copy(c, x, memo) for x in v)
    return _deepcopy(c, [v], {})


@reg("time.time", "time.perf_counter")
def _time(c, a, k):
    return c.Real("time")


@reg("torch.no_grad", "torch.inference_mode")
def _nograd(c, a, k):
    return Opaque("no_grad")


@reg("operator.itemgetter", "functools.partial")
def _unsup(c, a, k):
    raise Unsupported("partial")


@reg("numba.njit")
def _njit(c, a, k):
    return a[0]
