"""Symbolic executor / VC generator for the Python subset used by the functions under contract.

Paths are enumerated by re-execution with a decision list; loops are cut by invariants; calls use contracts when one
is registered for the callee and are otherwise inlined from the callee's *source in /repo*.
"""
import ast
import hashlib
import os
import subprocess
import tempfile
import time
import z3

from .values import *

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------------------------------------ source
class Module:
    cache = {}

    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self._scan(self.tree.body)
        self.values = {}

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    self.defs[a.asname or a.name.split(".")[0]] = (st, a)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)

    @classmethod
    def get(cls, name):
        if name in cls.cache:
            return cls.cache[name]
        rel = name.replace(".", "/")
        for p in (f"{REPO}/{rel}.py", f"{REPO}/{rel}/__init__.py"):
            if os.path.exists(p):
                m = cls(name, p)
                m.is_pkg = p.endswith("__init__.py")
                cls.cache[name] = m
                return m
        return None


class FuncV:
    def __init__(self, module, node, qual, cls=None, closure=None):
        self.module, self.node, self.qual, self.cls, self.closure = module, node, qual, cls, closure

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    @property
    def key(self):
        return f"{self.module.name}:{self.qual}"

    def deco(self):
        r = []
        for d in getattr(self.node, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            r.append(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?")
        return r

    def __repr__(self):
        return f"<FuncV {self.key}>"


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassV:
    cache = {}

    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.members = {}
        self.anns = []
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                # keep the first for property (setter defs reuse the name)
                decos = [d for d in st.decorator_list]
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in decos):
                    self.members["%set " + st.name] = st
                    continue
                if any((isinstance(d, ast.Name) and d.id == "overload") for d in decos):
                    continue
                self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.members.setdefault(st.target.id, st) if st.value is not None else None
                self.anns.append((st.target.id, st))

    @property
    def key(self):
        return f"{self.module.name}:{self.name}"

    def __repr__(self):
        return f"<ClassV {self.key}>"


class Frame:
    def __init__(self, func, module, cls=None, closure=None):
        self.func, self.module, self.cls, self.closure = func, module, cls, closure
        self.locals = {}
        self.self_ = None
        self.loop_ord = {}
        self.yield_cb = None


class Undef:
    pass


UNDEF = Undef()


class IterV:
    """iteration of symbolic length: k-th element get(k)"""
    def __init__(self, n, get):
        self.n, self.get = n, get


class Loop:
    """Loop contract.  inv(c, L) -> list of (name, formula).  L gives locals (L.x), ghost state (L.g), pre-loop
    snapshot (L.pre), iteration counter (L.k), trip count (L.n)."""
    def __init__(self, inv, ghost=None, step=None, havoc=None, hint=None, post_hint=None, setup=None, variant=None, born=None, ran=None):
        # born: {local first assigned in the body: (make(c, L), props(c, L, v))}: props are proved of it at the end of every iteration
        # and hold of make's value after the loop; ran(c, L): false on entry (proved), so true only after at least one iteration
        self.born, self.ran = born or {}, ran
        self.inv, self.ghost, self.step, self.havoc, self.hint = inv, ghost, step, havoc or {}, hint
        self.post_hint = post_hint
        self.setup = setup
        self.variant = variant


class Comp:
    """Contract of a comprehension over a symbolic sequence: elem(c, k) is the k-th element (an Arr or a number).
    The element expression is executed for an arbitrary k and proved equal to it; it must not modify anything."""
    def __init__(self, elem, hint=None, props=None):
        # props(c, k, value): [(name, formula)] - instead of equality with elem(c, k), these are proved for the executed element
        # and assumed of elem(c, k), an array of unknown contents (for elements that are not determined, such as random draws)
        self.elem, self.hint, self.props = elem, hint, props


class LoopView:
    def __init__(self, c, frame, pre, g, k=None, n=None):
        self.__dict__.update(c=c, frame=frame, pre=pre, g=g, k=k, n=n)

    def __getattr__(self, name):
        try:
            v = self.frame.locals[name]
        except KeyError:
            raise Unsupported(f"loop annotation refers to local '{name}' which does not exist")
        if v is UNDEF:
            raise Unsupported(f"loop annotation refers to undefined local '{name}'")
        return v

    def __getitem__(self, name):
        return getattr(self, name)


class PreView:
    def __init__(self, d):
        self.__dict__.update(d)


class Obligation:
    __slots__ = ("contract", "name", "status", "backend", "time", "reason", "model", "kind", "goal")

    def __init__(self, contract, name):
        self.contract, self.name = contract, name
        self.status = self.backend = self.reason = self.model = None
        self.kind = "post"
        self.time = 0.0
        self.goal = None


# ------------------------------------------------------------------------------------------------ solver
class Solver:
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.n_queries = 0
        self.time = 0.0

    def _mk(self, timeout, **params):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        for k, v in params.items():
            s.set(k, v)
        return s

    @staticmethod
    def has_quant(es):
        seen = set()
        todo = list(es)
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(e):
                return True
            todo.extend(e.children())
        return False

    def feasible(self, hyps):
        """False only if hyps are definitely contradictory (quantifier-free part only)."""
        t = time.time()
        s = self._mk(400)
        s.add(*[h for h in hyps if not self.has_quant([h])])
        r = s.check()
        self.time += time.time() - t
        self.n_queries += 1
        return r != z3.unsat

    def entails(self, hyps, goal, timeout=1500):
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        t = time.time()
        s = self._mk(timeout)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        self.time += time.time() - t
        self.n_queries += 1
        return r == z3.unsat

    def prove(self, hyps, goal, effort=1):
        """-> (status, backend, time, reason/model);  status: proved / refuted / unknown"""
        t0 = time.time()
        attempts = [
            ("z3", dict(), min(2500, self.timeout)),
            ("z3-nombqi", {"smt.mbqi": False, "auto_config": False}, min(4000, self.timeout)),
            ("z3", dict(), self.timeout),
            ("z3-nombqi", {"smt.mbqi": False, "auto_config": False}, self.timeout),
            ("cvc5", None, self.timeout * 2),
            ("z3-seed7", {"random_seed": 7, "smt.arith.solver": 2}, self.timeout * 2),
        ]
        if effort == 0:      # the same obligation already came out unknown on another path
            attempts = attempts[:2]
        refuted = None
        reason = ""
        for k, (name, params, to) in enumerate(attempts):
            self.n_queries += 1
            if k == 2:
                refuted = self._native_mod(hyps, goal)
                if refuted is not None:
                    break
            if name == "cvc5":
                r = self._cvc5(hyps, goal, to)
                if r == "unsat":
                    self.time += time.time() - t0
                    return "proved", "cvc5", time.time() - t0, None
                continue
            s = self._mk(to, **params)
            s.add(*hyps)
            s.add(z3.Not(goal))
            try:
                r = s.check()
            except z3.Z3Exception as e:
                reason = str(e)
                continue
            if r == z3.unsat:
                self.time += time.time() - t0
                return "proved", name, time.time() - t0, None
            if r == z3.sat:
                refuted = s.model()
                break
            reason = s.reason_unknown()
        self.time += time.time() - t0
        if refuted is not None:
            return "refuted", "z3", time.time() - t0, refuted
        return "unknown", "z3+cvc5", time.time() - t0, reason

    def _native_mod(self, hyps, goal):
        """counter-model search with Python's // and % replaced by the solver's own (their exact meaning; only used to refute)"""
        x, y = z3.Var(0, z3.IntSort()), z3.Var(1, z3.IntSort())
        ax = {a.get_id() for a in mod_axioms()}
        txt = [h for h in hyps if not (z3.is_quantifier(h) and ("pymod" in (t := h.sexpr()) or "pydiv" in t) and h.get_id() in ax)]
        if len(txt) == len(hyps):
            return None
        mod = z3.If(y > 0, x % y, -((-x) % (-y)))
        div = z3.If(y > 0, x / y, (-x) / (-y))
        s = self._mk(4000)
        try:
            for f in txt + [z3.Not(goal)]:
                s.add(z3.substitute_funs(f, (PYMOD, mod), (PYDIV, div)))
            if s.check() == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
        return None

    def _cvc5(self, hyps, goal, timeout_ms):
        try:
            s = z3.Solver()
            s.add(*hyps)
            s.add(z3.Not(goal))
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
                p = f.name
            try:
                out = subprocess.run(["cvc5", f"--tlimit={int(timeout_ms)}", p], capture_output=True, text=True,
                                     timeout=timeout_ms / 1000 + 5).stdout
            finally:
                os.unlink(p)
            return out.strip().splitlines()[0] if out.strip() else "unknown"
        except Exception:
            return "unknown"


# ------------------------------------------------------------------------------------------------ path context
class Ctx:
    def __init__(self, ver, decisions, proving):
        self.ver = ver
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.proving = proving
        self.cnt = {}
        self.loops = []          # active loop frames (arbitrary iteration)
        self.objs = {}
        self.born = 0
        self.events = []         # ghost event log
        self.ghost = {}
        self.depth = 0
        self.pure = 0
        self.frames = []
        self.facts_mod = False
        self.agg_facts = []      # (reduction, reduction, fact relating them): used only where they bear on the goal
        self.trace = []

    # ---- names
    def fresh_name(self, base):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        return f"{base}!{k}" if k else base

    def Int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def Real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def Bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def nat(self, base="n"):
        v = self.Int(base)
        self.assume(v >= 0)
        return v

    SORT = {"int": z3.IntSort, "real": z3.RealSort, "bool": z3.BoolSort}

    def label(self, base):
        return self.fresh_name("@" + base)

    def reg(self, o, base="obj"):
        if o.label is None:
            o.label = self.label(base)
        self.objs[o.label] = o
        o.born = len(self.loops)
        self.born += 1
        o.birth = self.born
        return o

    def arr(self, base, shape, dtype="real", kind="np"):
        name = self.fresh_name(base)
        if dtype == "obj":
            f = lambda *idx: ElemV(name, idx)
        else:
            F = z3.Function(name, *([z3.IntSort()] * len(shape)), self.SORT[dtype]())
            f = (lambda *idx: F(*idx)) if shape else (lambda: F())
            if not shape:
                const = z3.Const(name, self.SORT[dtype]())
                f = lambda: const
        a = Arr(shape, f, dtype, kind=kind)
        return self.reg(a, "arr_" + base)

    def lam(self, shape, f, dtype, kind="np", dom=None):
        a = Arr(shape, f, dtype, kind=kind, dom=dom)
        return self.reg(a, "tmp")

    # ---- assume / prove
    def assume(self, f, *more):
        for x in (f, *more):
            if isinstance(x, bool):
                if not x:
                    raise EndPath()
                continue
            if z3.is_and(x):
                if x.num_args():
                    self.assume(*x.children())
                continue
            if self.pc and any(z3.eq(x, y) for y in self.pc[-12:]):
                continue
            self.pc.append(x)

    def forall(self, fn, lo=None, hi=None, names="q", pats=None):
        """forall i in [lo,hi): fn(i)"""
        i = z3.Int(self.fresh_name("?" + names))
        body = B(fn(i))
        rng = []
        if lo is not None:
            rng.append(I(lo) <= i)
        if hi is not None:
            rng.append(i < I(hi))
        e = z3.Implies(z3.And(*rng), body) if rng else body
        if pats:
            try:
                return z3.ForAll([i], e, patterns=[p(i) for p in pats])
            except z3.Z3Exception:      # not a legal trigger (contains an if): let the solver choose
                pass
        return z3.ForAll([i], e)

    def forall2(self, fn, pats=None):
        i, j = z3.Int(self.fresh_name("?q")), z3.Int(self.fresh_name("?q"))
        if pats:
            try:
                return z3.ForAll([i, j], B(fn(i, j)), patterns=[p(i, j) for p in pats])
            except z3.Z3Exception:
                pass
        return z3.ForAll([i, j], B(fn(i, j)))

    def exists(self, fn, lo=None, hi=None):
        i = z3.Int(self.fresh_name("?e"))
        body = [B(fn(i))]
        if lo is not None:
            body.append(I(lo) <= i)
        if hi is not None:
            body.append(i < I(hi))
        return z3.Exists([i], z3.And(*body))

    def prove(self, name, goal, kind="post"):
        if self.pure:
            raise Unsupported("obligation inside a pure evaluation")
        if not self.proving:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = goal
        if z3.is_and(g):
            for k, ch in enumerate(g.children()):
                self.prove(f"{name}.{k}", ch, kind)
            return
        ob = Obligation(self.ver.cname, name)
        ob.kind = kind
        key = hashlib.sha1((self.ver.cname.split("[")[0] + "|" + name + "|" + g.sexpr() + "|" + "|".join(h.sexpr() for h in self.pc)).encode()).hexdigest()
        if key in self.ver.proved_cache:
            self.pc.append(g)
            return
        ob.status, ob.backend, ob.time, info = self.ver.solver.prove((hy := self.pc + self.facts_for(g)) + self.ver.axs(hy, g), g, 0 if (self.ver.cname, name) in self.ver.gave_up else 1)
        if ob.status == "refuted":
            ob.model = self.ver.render_model(info, self)
            ob.reason = "solver returned a counter-model"
        elif ob.status == "unknown":
            ob.reason = info
            self.ver.gave_up.add((self.ver.cname, name))
        ob.goal = str(g)[:600]
        self.ver.proved_cache.add(key)
        self.ver.obligations.append(ob)
        # continue under the proved claim (standard assert semantics)
        self.pc.append(g)

    def entailed(self, goal, timeout=1500):
        if isinstance(goal, bool):
            return goal
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        k = ("E", self.pos, g.sexpr(), len(self.pc))
        # deterministic across re-executions of one prefix: cache by text of hypotheses
        h = hashlib.sha1((g.sexpr() + "|" + "|".join(str(x.get_id()) for x in self.pc)).encode()).hexdigest()
        if h in self.ver.entail_cache:
            return self.ver.entail_cache[h][0]
        r = self.ver.solver.entails((hy := self.pc + self.facts_for(goal)) + self.ver.axs(hy, goal), goal, timeout)
        self.ver.entail_cache[h] = (r, g, list(self.pc))   # keep refs alive so ids are stable
        return r

    def facts_for(self, goal):
        """the recorded facts about reductions reachable from the goal through the path condition"""
        if not self.agg_facts:
            return []
        names = const_names(goal)
        if not is_z3(goal) or not names:
            return []
        pcs = [(h, const_names(h)) for h in self.pc]
        todo, seen = True, set()
        while todo:
            todo = False
            for h, ns in pcs:
                if h.get_id() not in seen and ns & names:
                    seen.add(h.get_id())
                    if not ns <= names and len(ns) < 40:
                        names |= ns
                        todo = True
        return [f for r, r2, f in self.agg_facts if str(r) in names or str(r2) in names]

    # ---- decisions
    def choose(self, n, tag=""):
        if self.pure:
            raise Unsupported("choice in pure evaluation")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        for alt in range(n - 1, 0, -1):
            self.ver.todo.append(self.decisions + [alt])
        self.decisions.append(0)
        self.pos += 1
        return 0

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pure:
            if self.entailed(cond):
                return True
            if self.entailed(z3.Not(cond)):
                return False
            raise Unsupported("data dependent branch inside an element expression")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(cond if d == 0 else z3.Not(cond))
            return d == 0
        ft = self.ver.solver.feasible(self.pc + self.ver.qf_axioms + [cond])
        ff = self.ver.solver.feasible(self.pc + self.ver.qf_axioms + [z3.Not(cond)])
        if not ft and not ff:
            raise EndPath()
        if ft and ff:
            self.ver.todo.append(self.decisions + [1])
        d = 0 if ft else 1
        self.decisions.append(d)
        self.pos += 1
        self.pc.append(cond if d == 0 else z3.Not(cond))
        return d == 0

    # ---- heap writes
    def on_write(self, key, obj, info=None):
        if self.pure:
            raise Unsupported("side effect in pure evaluation")
        for lf in self.loops:
            if key[0] == "local":
                if lf.frame is not obj:
                    continue
                cell = ("local", key[1])
                pre = key[1] in lf.pre_names
                if not pre and cell not in lf.modset:
                    lf.modset[cell] = None
                    # not an error: variable is born in the loop
                    self.ver.need_restart = True
                elif pre:
                    self._hint(lf, cell, lf.pre_vals.get(key[1]), info)
                continue
            if getattr(obj, "birth", 10**9) > lf.birth_mark:
                continue
            cell = key
            if cell not in lf.modset:
                lf.modset[cell] = None
                self.ver.need_restart = True
            if key[0] == "field":
                self._hint(lf, cell, lf.field_pre.get(key), info)
            if key[0] in ("list",):
                self._hint(lf, cell, None, info)

    def _hint(self, lf, cell, pre, new):
        """remember how the kind of the written value differs from the pre-loop value"""
        old = lf.modset.get(cell)
        hint = old
        if cell not in lf.modset:
            lf.modset[cell] = None
            self.ver.need_restart = True
        if new is None:
            pass
        if is_real(new) and (is_int(pre) or isinstance(pre, bool)):
            hint = "real"
        elif isinstance(new, Arr) and isinstance(pre, Arr):
            same = len(new.shape) == len(pre.shape) and all(
                self._dim_eq(a, b) for a, b in zip(new.shape, pre.shape))
            if not same and hint != "varlen":
                hint = "varlen"
            if new.dtype != pre.dtype and not (hint or "").startswith("varlen"):
                hint = "dtype:" + new.dtype
        elif cell[0] == "list" and new is not None:
            hint = "real" if is_real(new) else "int" if is_int(new) else "bool" if is_bool(new) else "obj"
            if old == "real":
                hint = "real"
        if hint != old:
            lf.modset[cell] = hint
            self.ver.need_restart = True

    def _dim_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if is_z3(a) and is_z3(b) and z3.eq(a, b):
            return True
        return self.entailed(I(a) == I(b))

    def set_arr(self, a, f):
        """replace contents of array a (a root array)"""
        if a.base is not None:
            root = a.root()
            raise Unsupported("whole write through view")
        self.on_write(("arr", a.label), a)
        a._f = f

    def set_field(self, o, name, v):
        self.on_write(("field", o.label, name), o, v)
        o.fields[name] = v


_CN = {}


def const_names(e):
    """names of the uninterpreted constants of a formula (cached)"""
    if not is_z3(e):
        return set()
    i = e.get_id()
    if i in _CN:
        return _CN[i][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    _CN[i] = (e, out)
    return out


class ElemV:
    """an element of an object array"""
    def __init__(self, name, idx):
        self.name, self.idx = name, idx


class LoopFrame:
    pass


def snapshot(v, memo=None):
    """immutable deep copy of a symbolic value (old state)"""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = Arr(v.shape, v.snap(), v.dtype, label=v.label, kind=v.kind, dom=v.dom)
        r.meta = dict(v.meta)
        memo[id(v)] = r
        return r
    if isinstance(v, PList):
        r = PList(None if v.items is None else [], v.n_, v.f_, v.dtype, v.label)
        memo[id(v)] = r
        if v.items is not None:
            r.items.extend(snapshot(x, memo) for x in v.items)
        return r
    if isinstance(v, PDict):
        r = PDict(label=v.label)
        memo[id(v)] = r
        r.d = {k: snapshot(x, memo) for k, x in v.d.items()}
        return r
    if isinstance(v, Obj):
        r = Obj(v.cls, label=v.label)
        memo[id(v)] = r
        r.fields = {k: snapshot(x, memo) for k, x in v.fields.items()}
        r.hidden = {k: snapshot(x, memo) for k, x in v.hidden.items()}
        return r
    if isinstance(v, tuple):
        return tuple(snapshot(x, memo) for x in v)
    if isinstance(v, list):
        return [snapshot(x, memo) for x in v]
    if isinstance(v, dict):
        return {k: snapshot(x, memo) for k, x in v.items()}
    if isinstance(v, Model) and hasattr(v, "m_snap"):
        r = v.m_snap(memo)
        memo[id(v)] = r
        return r
    return v


# ------------------------------------------------------------------------------------------------ contracts
class Contract:
    target = None            # "module:Qual.name"
    cases = (None,)
    loops = {}
    inline_only = False
    uses = ()                # contracts applied at call sites (by target)
    externals = {}           # dotted name -> host function(c, args, kwargs)
    opaque_attrs = False
    trusted = ()             # text: what this contract takes on trust
    props = ()

    def params(self, c, case): raise NotImplementedError
    def pre(self, c, a): return []
    def modifies(self, c, a): return []
    def result(self, c, a): return None
    def post(self, c, a, old, res): return []
    def raises(self, c, a, old): return []
    def post_exc(self, c, a, old, exc): return []

    # hook: run after setup, before execution
    def prepare(self, c, a): pass


class Verifier:
    def __init__(self, timeout_ms=8000, log=None, max_paths=4000):
        self.solver = Solver(timeout_ms)
        self.registry = {}
        self.obligations = []
        self.proved_cache = set()
        self.entail_cache = {}
        self.gave_up = set()
        self.axioms = mod_axioms()
        self.qf_axioms = []
        self.modsets = {}
        self.modfree = {}
        self.need_restart = False
        self.todo = []
        self.cname = ""
        self.log = log
        self.max_paths = max_paths
        self.used_contracts = set()
        self.inlined = set()
        self.externals_used = set()
        self.results = []
        self.deadline = None
        self.class_cache = {}

    def axs(self, pc, goal=None):
        """the mod/div axioms, only where those functions occur (keeps other queries decidable)"""
        todo = list(pc) + ([goal] if is_z3(goal) else [])
        seen = set()
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen or i in self.modfree:
                continue
            seen.add(i)
            if z3.is_quantifier(e):
                todo.append(e.body())
            elif z3.is_app(e):
                if e.decl().name() in ("pymod", "pydiv"):
                    return self.axioms
                todo.extend(e.children())
        for e in pc:
            self.modfree[e.get_id()] = e      # kept alive, so the id stays valid
        return []

    def render_model(self, m, ctx):
        try:
            out = {}
            for d in m.decls():
                if d.arity() == 0:
                    out[d.name()] = str(m[d])
            for d in m.decls():
                if d.arity() == 1 and d.domain(0) == z3.IntSort() and not d.name().startswith(("k!", "pymod", "pydiv")):
                    try:
                        out[d.name()] = [str(m.eval(d(z3.IntVal(k)), model_completion=True)) for k in range(8)]
                    except Exception:
                        pass
            return out
        except Exception as e:
            return {"error": str(e)}

    # ---- resolve a target to FuncV
    def resolve(self, target):
        mod, qual = target.split(":")
        m = Module.get(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        parts = qual.split(".")
        node = m.defs.get(parts[0])
        if node is None:
            raise Unsupported(f"{target} not found")
        if isinstance(node, tuple):
            raise Unsupported(f"{target} is an import")
        if len(parts) == 1:
            if not isinstance(node, ast.FunctionDef):
                raise Unsupported(f"{target} is not a function")
            return FuncV(m, node, qual)
        if not isinstance(node, ast.ClassDef):
            raise Unsupported(f"{target}: not a class")
        cls = self.get_class(m, node)
        from .interp import mro
        for k in mro(self, cls):
            if isinstance(k, ClassV) and parts[1] in k.members and isinstance(k.members[parts[1]], ast.FunctionDef):
                return FuncV(k.module, k.members[parts[1]], f"{k.name}.{parts[1]}", cls=k)
        raise Unsupported(f"{target} not found")

    def get_class(self, m, node):
        key = (m.name, node.name)
        if key not in self.class_cache:
            self.class_cache[key] = ClassV(m, node)
        return self.class_cache[key]

    # ---- verify one contract
    def verify(self, con):
        from .interp import Interp
        t0 = time.time()
        n0 = len(self.obligations)
        rec = {"contract": type(con).__name__, "target": con.target, "status": "proved", "reason": "", "paths": 0,
               "cases": 0}
        try:
            for case in con.cases:
                rec["cases"] += 1
                self._verify_case(con, case, rec)
        except Unsupported as e:
            rec["status"] = "unsupported"
            rec["reason"] = str(e)
        except RecursionError:
            rec["status"] = "unsupported"
            rec["reason"] = "recursion"
        obs = self.obligations[n0:]
        rec["obligations"] = len(obs)
        rec["discharged"] = sum(o.status == "proved" for o in obs)
        rec["wall"] = round(time.time() - t0, 2)
        if rec["status"] == "proved":
            if any(o.status == "refuted" and o.kind != "inv" for o in obs):
                rec["status"] = "refuted"
            elif any(o.status != "proved" for o in obs):
                rec["status"] = "undecided"
            elif len(obs) == 0:
                rec["status"] = "unsupported"
                rec["reason"] = "zero obligations"
        elif any(o.status == "refuted" and o.kind != "inv" for o in obs):
            rec["status"] = "refuted"
        self.results.append(rec)
        return rec

    def _verify_case(self, con, case, rec):
        from .interp import Interp
        self.cname = type(con).__name__ + (f"[{case}]" if case is not None else "")
        self.con = con
        EXT_REALS[0] = getattr(con, "neg_inf", False)
        fn = self.resolve(con.target) if con.target else None
        uses = {u.target: u for u in con.uses}
        for rnd in range(60):
            self.need_restart = False
            ok = self._run_paths(con, case, fn, uses, proving=False, rec=None)
            if not self.need_restart:
                break
        else:
            raise Unsupported("frame inference did not converge")
        self._run_paths(con, case, fn, uses, proving=True, rec=rec)
        if self.need_restart:
            raise Unsupported("frame changed during proof")

    def _run_paths(self, con, case, fn, uses, proving, rec):
        from .interp import Interp
        self.todo = [[]]
        npaths = 0
        reached = 0
        reach_checked = 0
        while self.todo:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("verification budget exhausted")
            dec = self.todo.pop()
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported("too many paths")
            c = Ctx(self, dec, proving)
            it = Interp(c, con, uses)
            c.it = it
            c.case = case
            try:
                a = con.params(c, case)
                for nm, f in con.pre(c, a):
                    c.assume(f)
                if proving and npaths == 1:
                    # vacuity guard: the precondition must not be contradictory
                    if self.solver.entails(c.pc + self.axs(c.pc), z3.BoolVal(False), 2000):
                        raise Unsupported("contradictory precondition (vacuous contract)")
                con.prepare(c, a)
                old = snapshot(a)
                try:
                    res = con.run(it, fn, a) if hasattr(con, "run") else it.call_contract_target(fn, a)
                    exc = None
                except PyRaise as e:
                    exc = e
                if exc is None:
                    reached += 1
                    for nm, cond in con.raises(c, a, old):
                        c.prove(f"must-raise-{nm}-only-if", b_not(cond), "exc")
                    posts = con.post(c, a, old, res)
                    if proving and reach_checked < 3:
                        reach_checked += 1
                        if self.solver.entails(c.pc + self.axs(c.pc), z3.BoolVal(False), 1000):
                            reached -= 1     # this path is actually infeasible
                    for nm, f in posts:
                        c.prove(nm, f)
                else:
                    conds = [cond for nm, cond in con.raises(c, a, old) if exc_isinstance(exc.name, nm)]
                    if conds:
                        g = z3.Or(*[B(x) for x in conds]) if len(conds) > 1 else B(conds[0])
                        c.prove(f"raises-{exc.name}-only-when-specified", g, "exc")
                    else:
                        c.prove(f"no-{exc.name}", z3.BoolVal(False), "exc")
                    for nm, f in con.post_exc(c, a, old, exc):
                        c.prove(nm, f, "exc")
            except EndPath:
                pass
            if self.need_restart and not proving:
                return
        if proving and rec is not None:
            rec["paths"] += npaths
            if reached == 0 and not getattr(con, "only_exceptional", False):
                raise Unsupported("no path reaches the postcondition (vacuous)")

    def lemma(self, cname, name, hyps, goal, axioms=()):
        """a pure solver lemma, named obligation"""
        self.cname = cname
        ob = Obligation(cname, name)
        ob.kind = "lemma"
        ob.status, ob.backend, ob.time, info = self.solver.prove(list(hyps) + list(axioms), goal)
        if ob.status == "refuted":
            ob.model = self.render_model(info, None)
        else:
            ob.reason = info
        ob.goal = str(goal)[:600]
        self.obligations.append(ob)
        return ob.status == "proved"
