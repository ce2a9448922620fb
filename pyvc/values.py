"""Symbolic value domain of the verifier."""
import z3
from fractions import Fraction


class Unsupported(Exception):
    """The source left the subset this verifier handles: the function is undecided (never a violation)."""


class PyRaise(Exception):
    """A Python exception raised by the verified program."""
    def __init__(self, name, value=None):
        super().__init__(name)
        self.name = name
        self.value = value


class EndPath(Exception):
    """This path is finished (infeasible, or an arbitrary loop iteration that re-established the invariant)."""


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


EXC_PARENT = {
    "AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "AttributeError": "Exception",
    "StopIteration": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "OSError": "Exception", "EOFError": "Exception", "UserException": "Exception", "Exception": "BaseException",
    "KeyboardInterrupt": "BaseException", "BaseException": None, "MalformedBufferError": "RuntimeError",
    "UnboundLocalError": "NameError", "NameError": "Exception", "BrokenPipeError": "OSError",
    "ModuleNotFoundError": "ImportError", "ImportError": "Exception", "OverflowError": "ArithmeticError",
}


def exc_isinstance(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENT.get(name, "Exception" if name not in ("Exception", "BaseException") else None)
    return False


# ---------------------------------------------------------------- scalars
def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_num(v):
    return isinstance(v, (int, float, Fraction)) or isinstance(v, z3.ArithRef) or isinstance(v, z3.BoolRef)


def is_scalar(v):
    return is_num(v)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef) and v.is_int())


def is_real(v):
    return isinstance(v, (float, Fraction)) or (isinstance(v, z3.ArithRef) and v.is_real())


INF = float("inf")


NEG_INF = z3.Real("neg_inf")     # only under contracts that opt in (neg_inf = True); they state what lies above it
EXT_REALS = [False]


def real_lit(v):
    if isinstance(v, float):
        if v == -INF and EXT_REALS[0]:
            return NEG_INF
        if v != v or v in (INF, -INF):
            raise Unsupported("inf/nan in symbolic arithmetic")
        return z3.RealVal(Fraction(repr(v)))
    return z3.RealVal(v)


def B(v):
    """to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (int, float)):
        return z3.BoolVal(v != 0)
    if isinstance(v, z3.ArithRef):
        return v != 0
    raise Unsupported(f"not a bool: {v!r}")


def I(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return v
        raise Unsupported("real where int expected")
    if isinstance(v, float) and v == int(v):
        return z3.IntVal(int(v))
    raise Unsupported(f"not an int: {v!r}")


def R(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, (int, float, Fraction)):
        return real_lit(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, z3.ArithRef):
        return v if v.is_real() else z3.ToReal(v)
    raise Unsupported(f"not a real: {v!r}")


def num(v):
    """bool -> int, for arithmetic"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return I(v)
    return v


def coerce2(a, b):
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        return a, b
    if is_real(a) or is_real(b):
        return R(a), R(b)
    return I(a), I(b)


PYMOD = z3.Function("pymod", z3.IntSort(), z3.IntSort(), z3.IntSort())
PYDIV = z3.Function("pydiv", z3.IntSort(), z3.IntSort(), z3.IntSort())


def mod_axioms():
    a, b = z3.Ints("a b")
    m = PYMOD(a, b)
    q = PYDIV(a, b)
    return [
        z3.ForAll([a, b], z3.Implies(b > 0, z3.And(
            0 <= m, m < b,
            z3.Implies(z3.And(0 <= a, a < b), m == a),
            z3.Implies(z3.And(b <= a, a < 2 * b), m == a - b),
            z3.Implies(z3.And(-b <= a, a < 0), m == a + b),
            z3.Implies(z3.And(-2 * b <= a, a < -b), m == a + 2 * b))), patterns=[m]),
        z3.ForAll([a, b], z3.Implies(b > 0, z3.And(
            q * b <= a, a < q * b + b,
            z3.Implies(z3.And(0 <= a, a < b), q == 0),
            z3.Implies(z3.And(b <= a, a < 2 * b), q == 1))), patterns=[q]),
    ]


EXPF = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOGF = z3.Function("log", z3.RealSort(), z3.RealSort())
SQRTF = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
TANHF = z3.Function("tanh", z3.RealSort(), z3.RealSort())
ATANHF = z3.Function("atanh", z3.RealSort(), z3.RealSort())
POWF = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
FLOORF = None


def simp(e):
    return z3.simplify(e) if is_z3(e) else e


def as_py(e):
    """constant-fold a z3 literal back to python"""
    if not is_z3(e):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return e


def binop(op, a, b):
    """arithmetic on scalars"""
    a, b = num(a), num(b)
    if not is_z3(a) and not is_z3(b):
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/":
            if b == 0: raise PyRaise("ZeroDivisionError")
            return Fraction(a) / Fraction(b) if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) else a / b
        if op == "//": return a // b
        if op == "%": return a % b
        if op == "**": return a ** b
        raise Unsupported(op)
    if op in ("+", "-", "*"):
        for u, v in ((a, b), (b, a)):
            if isinstance(u, float) and u in (INF, -INF) and op != "*":
                raise Unsupported("inf arithmetic")
        a, b = coerce2(a, b)
        return a + b if op == "+" else a - b if op == "-" else a * b
    if op == "/":
        return R(a) / R(b)
    if op == "//":
        if is_int(a) and is_int(b):
            if isinstance(b, int) and b > 0 or z3.is_int_value(b):
                return I(a) / I(b)
            return PYDIV(I(a), I(b))
        return z3.ToReal(z3.ToInt(R(a) / R(b)))
    if op == "%":
        if is_int(a) and is_int(b):
            if isinstance(b, int) and b > 0:
                return I(a) % b
            return PYMOD(I(a), I(b))
        raise Unsupported("real mod")
    if op == "**":
        if isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = binop("*", r, a)
            return r
        if isinstance(b, float) and b == int(b) and 0 <= b <= 4:
            return binop("**", R(a), int(b))
        if b == 0.5 and not is_z3(b):
            return SQRTF(R(a))
        return POWF(R(a), R(b))
    raise Unsupported("binop " + op)


def cmp(op, a, b):
    if op in ("==", "!="):
        if is_bool(a) and is_bool(b):
            if not is_z3(a) and not is_z3(b):
                return (a == b) if op == "==" else (a != b)
            r = B(a) == B(b)
            return r if op == "==" else z3.Not(r)
    for u, v, flip in ((a, b, False), (b, a, True)):
        if isinstance(v, float) and v in (INF, -INF) and is_z3(u):
            # a finite real compared to an infinity
            o = op
            if flip:
                o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            pos = v == INF
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[o]
    a, b = coerce2(a, b)
    return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
            "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()


def b_and(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(B(a), B(b))


def b_or(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(B(a), B(b))


def b_not(a):
    if isinstance(a, bool): return not a
    return z3.Not(B(a))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_bool(a) and is_bool(b):
        return z3.If(c, B(a), B(b))
    a, b = coerce2(a, b)
    if not is_z3(a): a = R(a) if is_real(a) or is_real(b) else I(a)
    if not is_z3(b): b = R(b) if is_real(a) else I(b)
    if z3.eq(a, b): return a
    return z3.If(c, a, b)


def smin(a, b):
    if not is_z3(a) and not is_z3(b): return min(a, b)
    return ite(cmp("<=", a, b), a, b)


def smax(a, b):
    if not is_z3(a) and not is_z3(b): return max(a, b)
    return ite(cmp(">=", a, b), a, b)


def sabs(a):
    if not is_z3(a): return abs(a)
    return ite(cmp(">=", a, 0), a, binop("-", 0, a))


def veq(a, b):
    """python-level equality of two scalars, as formula"""
    return cmp("==", a, b)


# ---------------------------------------------------------------- arrays
class Arr:
    """numpy array / torch tensor: shape + element function (definitional, so vectorised ops need no axioms).

    dom is not None for a boolean-mask compaction: elements are indexed by the *source* positions where dom holds.
    """
    kind = "np"

    def __init__(self, shape, f, dtype, label=None, kind="np", base=None, imap=None, inv=None, dom=None):
        self.shape = tuple(shape)
        self._f = f
        self.dtype = dtype
        self.label = label
        self.kind = kind
        self.base = base      # view: base array
        self.imap = imap      # view index -> base index tuple
        self.inv = inv        # base index tuple -> (cond, view index tuple)
        self.dom = dom
        self.meta = {}
        self.fixed_len = None

    @property
    def ndim(self):
        return len(self.shape)

    def f(self, *idx):
        if self.base is not None:
            return self.base.f(*self.imap(*idx))
        return self._f(*[I(i) if isinstance(i, (int, bool)) else i for i in idx])

    def __call__(self, *idx):
        return self.f(*idx)

    def snap(self):
        """immutable element function of the present contents"""
        if self.base is not None:
            bf, im = self.base.snap(), self.imap
            return lambda *idx: bf(*im(*idx))
        g = self._f
        return lambda *idx: g(*[I(i) if isinstance(i, (int, bool)) else i for i in idx])

    def copy(self, label=None):
        r = Arr(self.shape, self.snap(), self.dtype, label=label, kind=self.kind, dom=self.dom)
        return r

    @property
    def n(self):
        return self.shape[0]

    def root(self):
        return self.base.root() if self.base is not None else self

    def __repr__(self):
        return f"<Arr {self.label} {self.dtype}{list(self.shape)}>"


class PList:
    """python list; concrete items, or symbolic length with element function"""
    def __init__(self, items=None, n=None, f=None, dtype=None, label=None):
        self.items = items
        self.n_ = n
        self.f_ = f
        self.dtype = dtype
        self.label = label

    @property
    def concrete(self):
        return self.items is not None

    @property
    def n(self):
        return len(self.items) if self.concrete else self.n_

    def f(self, i):
        if self.concrete:
            if isinstance(i, int):
                return self.items[i]
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = ite(cmp("==", i, k), self.items[k], r)
            return r
        return self.f_(I(i))

    def __repr__(self):
        return f"<PList {self.items if self.concrete else self.n_}>"


class PDict:
    def __init__(self, d=None, label=None):
        self.d = dict(d or {})
        self.label = label

    def __repr__(self):
        return f"<PDict {self.d}>"


class PSet:
    def __init__(self, items=()):
        self.items = []
        for i in items:
            if i not in self.items:
                self.items.append(i)


class Obj:
    """instance of a repository class"""
    def __init__(self, cls, fields=None, label=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.label = label
        self.hidden = {}

    def __repr__(self):
        return f"<Obj {getattr(self.cls, 'name', self.cls)} {self.label}>"


class Opaque:
    def __init__(self, tag="?"):
        self.tag = tag

    def __repr__(self):
        return f"<Opaque {self.tag}>"


class Prim:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<Prim {self.name}>"


class Ext:
    """external (non repository) dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<Ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Model:
    """host-side model of an external object; subclasses override what they support"""
    label = None
    pytype = None

    def m_getattr(self, c, name): raise Unsupported(f"attribute {name} of {self}")
    def m_setattr(self, c, name, v): raise Unsupported(f"set attribute {name} of {self}")
    def m_getitem(self, c, idx): raise Unsupported(f"getitem of {self}")
    def m_setitem(self, c, idx, v): raise Unsupported(f"setitem of {self}")
    def m_call(self, c, args, kw): raise Unsupported(f"call of {self}")
    def m_len(self, c): raise Unsupported(f"len of {self}")
    def m_bool(self, c): return True
    def m_iter(self, c): raise Unsupported(f"iterate {self}")
    def m_contains(self, c, x): raise Unsupported(f"contains {self}")
    def m_havoc(self, c): raise Unsupported(f"havoc {self}")
    def m_binop(self, c, op, a, b): raise Unsupported(f"binop {op} {self}")


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f"slice({self.lo},{self.hi},{self.step})"
