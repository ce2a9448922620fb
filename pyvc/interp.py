"""AST interpreter over symbolic values."""
import ast
import os
import z3
from .values import *
from .engine import *

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


def mro(ver, cls, seen=None):
    """C3 linearisation over repository classes (external bases become Ext)."""
    def bases(k):
        out = []
        for b in k.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = resolve_static(ver, k.module, b)
            if isinstance(v, (ClassV, Ext)):
                out.append(v)
        return out

    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("mro conflict")
            res.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def lin(k):
        if not isinstance(k, ClassV):
            return [k]
        bs = bases(k)
        return [k] + merge([lin(b) for b in bs] + [bs])
    if not hasattr(ver, "_mro"):
        ver._mro = {}
    if cls.key not in ver._mro:
        ver._mro[cls.key] = lin(cls)
    return ver._mro[cls.key]


def resolve_static(ver, module, node):
    if isinstance(node, ast.Name):
        return module_lookup(ver, module, node.id)
    if isinstance(node, ast.Attribute):
        v = resolve_static(ver, module, node.value)
        if isinstance(v, Ext):
            return Ext(v.name + "." + node.attr)
        if isinstance(v, Module):
            return module_lookup(ver, v, node.attr)
    return None


def module_lookup(ver, module, name, interp=None):
    if name in module.values:
        return module.values[name]
    d = module.defs.get(name)
    if d is None:
        return None
    v = None
    if isinstance(d, ast.FunctionDef):
        v = FuncV(module, d, name)
    elif isinstance(d, ast.ClassDef):
        v = ver.get_class(module, d)
    elif isinstance(d, tuple):
        st, al = d
        if isinstance(st, ast.Import):
            full = al.name if al.asname else al.name.split(".")[0]
            v = Module.get(full) if full.split(".")[0] == "tianshou" else Ext(full)
        else:
            base = st.module or ""
            if st.level:
                pk = module.name.split(".")
                pk = pk[: len(pk) - st.level + (1 if getattr(module, "is_pkg", False) else 0)]
                base = ".".join(pk + ([base] if base else []))
            if base.split(".")[0] == "tianshou":
                m2 = Module.get(base)
                sub = Module.get(base + "." + al.name) if m2 is None or al.name not in m2.defs else None
                if sub is not None:
                    v = sub
                elif m2 is not None:
                    v = module_lookup(ver, m2, al.name, interp)
                    if v is None:
                        v = Ext(base + "." + al.name)
            else:
                v = Ext(base + "." + al.name)
    elif isinstance(d, (ast.Assign, ast.AnnAssign)):
        if interp is not None and d.value is not None:
            fr = Frame(None, module)
            try:
                v = interp.eval(d.value, fr)
            except Unsupported as ex:
                if os.environ.get("PYVC_DEBUG"): print("opaque module value", module.name, name, ex)
                v = Opaque(f"{module.name}.{name}")
            return v
        return None
    if v is not None:
        module.values[name] = v
    return v


class Interp:
    MAXDEPTH = 40

    def __init__(self, c, con, uses):
        self.c, self.con, self.uses = c, con, uses
        self.ver = c.ver

    # ------------------------------------------------------------------ calls
    def call_contract_target(self, fn, a):
        """call the function under verification with the contract's parameters"""
        args, kw = self.bind_params(fn, a)
        return self.call_function(fn, args, kw, top=True)

    def bind_params(self, fn, a):
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        kwonly = [x.arg for x in fn.node.args.kwonlyargs]
        vals = {k: v for k, v in a.items() if not k.startswith("_")}
        args = []
        kw = {}
        pos_ok = True
        for n in names:
            if n in vals and pos_ok:
                args.append(vals[n])
            else:
                pos_ok = False
                if n in vals:
                    kw[n] = vals[n]
        for n in kwonly:
            if n in vals:
                kw[n] = vals[n]
        extra = set(vals) - set(names) - set(kwonly)
        if extra:
            # signature changed: try positional order given by the contract
            order = getattr(self.con, "argorder", None)
            if order and len(order) == len(names):
                return [vals[k] for k in order], {k: vals[k] for k in extra - set(order)} if fn.node.args.kwarg is not None else {}
            if fn.node.args.kwarg is None:
                raise Unsupported(f"signature of {fn.key} no longer has {sorted(extra)}")
            for k in extra:
                kw[k] = vals[k]
        return args, kw

    def call_function(self, fn, args, kw, top=False, self_cls=None, body_cb=None):
        c = self.c
        key = fn.key
        if not top and key in self.uses and self.uses[key] is not None:
            return self.apply_contract(self.uses[key], fn, args, kw)
        ov = getattr(self.con, "overrides", {})
        if not top and key in ov:
            return ov[key](c, args, kw)
        if not top:
            self.ver.inlined.add(key)
        if c.depth > self.MAXDEPTH:
            raise Unsupported("inlining too deep")
        fr = Frame(fn, fn.module, fn.cls, fn.closure)
        self.bind(fn, fr, args, kw)
        fr.yield_cb = body_cb
        c.depth += 1
        c.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            self.exec_block(fn.node.body, fr)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            c.frames.pop()
            c.depth -= 1

    def bind(self, fn, fr, args, kw):
        A = fn.node.args
        names = [x.arg for x in A.posonlyargs + A.args]
        defaults = A.defaults
        nd = len(names) - len(defaults)
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if A.vararg is None:
                raise PyRaise("TypeError")
            fr.locals[A.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif A.vararg is not None:
            fr.locals[A.vararg.arg] = ()
        for i, n in enumerate(names):
            if i < len(args):
                fr.locals[n] = args[i]
                if n in kw:
                    raise PyRaise("TypeError")
            elif n in kw:
                fr.locals[n] = kw.pop(n)
            elif i >= nd:
                fr.locals[n] = self.eval(defaults[i - nd], Frame(None, fn.module, fn.cls, fn.closure))
            else:
                raise PyRaise("TypeError", f"missing {n}")
        for x, d in zip(A.kwonlyargs, A.kw_defaults):
            if x.arg in kw:
                fr.locals[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr.locals[x.arg] = self.eval(d, Frame(None, fn.module, fn.cls, fn.closure))
            else:
                raise PyRaise("TypeError", f"missing {x.arg}")
        if A.kwarg is not None:
            fr.locals[A.kwarg.arg] = self.c.reg(PDict(kw), "kwargs")
        elif kw:
            raise PyRaise("TypeError", f"unexpected {list(kw)}")
        if names and fn.cls is not None:
            fr.self_ = fr.locals.get(names[0])
        fr.params = dict(fr.locals)

    def apply_contract(self, con_cls, fn, args, kw):
        c = self.c
        con = con_cls() if isinstance(con_cls, type) else con_cls
        fr = Frame(fn, fn.module, fn.cls, fn.closure)
        self.bind(fn, fr, args, kw)
        a = dict(fr.locals)
        self.ver.used_contracts.add(con.target)
        if hasattr(con, "bind_ghost"):
            con.bind_ghost(c, a)
        if hasattr(con, "apply"):
            return con.apply(c, a)
        if not getattr(con, "accepts", lambda c, a: True)(c, a):
            raise Unsupported(f"call of {con.target} outside its contract's argument types")
        for nm, f in con.pre(c, a):
            c.prove(f"call:{con.target.split(':')[1]}:pre:{nm}", f, "pre")
            c.assume(f)
        old = snapshot(a)
        for nm, cond in con.raises(c, a, old):
            if c.branch(B(cond)):
                raise PyRaise(nm)
        for cell in con.modifies(c, a):
            self.havoc_cell(cell)
        res = con.result(c, a)
        for nm, f in con.post(c, a, old, res):
            c.assume(f)
        return res

    def havoc_cell(self, cell):
        c = self.c
        if isinstance(cell, tuple):
            o, name = cell
            v = o.fields[name]
            c.set_field(o, name, self.fresh_like(v, name))
        elif isinstance(cell, Arr):
            n = c.arr("hv_" + (cell.label or "a").strip("@"), cell.shape, cell.dtype)
            c.set_arr(cell, n._f)
        elif isinstance(cell, Model):
            cell.m_havoc(c)
        else:
            raise Unsupported(f"havoc {cell}")

    def fresh_like(self, v, base, hint=None):
        c = self.c
        base = "h_" + str(base)
        if hint == "real":
            return c.Real(base)
        if is_bool(v):
            return c.Bool(base)
        if is_int(v):
            return c.Int(base)
        if is_real(v):
            return c.Real(base)
        if isinstance(v, Arr):
            dt = v.dtype
            shape = v.shape
            if hint and hint.startswith("dtype:"):
                dt = hint[6:]
            if hint == "varlen":
                shape = (c.nat(base + "_len"),) + tuple(v.shape[1:])
            return c.arr(base, shape, dt, kind=v.kind)
        if isinstance(v, PList):
            r = PList(label=None)
            c.reg(r, "hlist")
            self.havoc_list(r, v, hint, base)
            return r
        if v is None or isinstance(v, (str, FuncV, ClassV, Ext)):
            raise Unsupported(f"loop modifies {base} of kind {type(v).__name__}")
        raise Unsupported(f"cannot havoc {base}: {v!r}")

    def havoc_list(self, r, v, hint, base):
        c = self.c
        if hasattr(self.con, "havoc_list") and self.con.havoc_list(c, r):
            return
        dt = v.dtype or hint
        if dt is None and v.concrete and v.items:
            x = v.items[0]
            dt = "real" if is_real(x) else "bool" if is_bool(x) else "int" if is_int(x) else "arr" if isinstance(x, Arr) else "obj"
        if hint in ("real", "obj"):
            dt = hint
        if dt == "obj":
            raise Unsupported("symbolic list of objects")
        dt = dt or "int"
        if dt == "arr":
            # list of equally shaped arrays: element m, entry i -> F(m, i)
            x = v.items[0] if v.concrete else v.f_(z3.IntVal(0))
            if not all(isinstance(y, Arr) and y.dtype == x.dtype and len(y.shape) == len(x.shape) and
                       all(c._dim_eq(p, q) for p, q in zip(y.shape, x.shape)) for y in (v.items or [])):
                raise Unsupported("symbolic list of differently shaped arrays")
            F = z3.Function(c.fresh_name(base + "_m"), *([z3.IntSort()] * (1 + len(x.shape))), c.SORT[x.dtype]())
            shape, dty, kind = x.shape, x.dtype, x.kind
            r.items, r.n_, r.dtype = None, c.nat(base + "_n"), "arr"
            r.f_ = lambda m: c.lam(shape, lambda *i: F(I(m), *i), dty, kind)
            return
        n = c.nat(base + "_n")
        a = c.arr(base + "_e", (n,), dt)
        r.items, r.n_, r.f_, r.dtype = None, n, a._f, dt

    def call(self, f, args, kw):
        from . import npmodel
        c = self.c
        if isinstance(f, Prim):
            return f.fn(c, args, kw)
        if isinstance(f, FuncV):
            if "contextmanager" in f.deco():
                return CtxMgr(f, args, kw)
            return self.call_function(f, args, kw)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                d = f.func.deco()
                if "contextmanager" in d:
                    return CtxMgr(f.func, [f.self_, *args], kw)
                return self.call_function(f.func, [f.self_, *args], kw)
            return self.call(f.func, [f.self_, *args], kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Model):
            return f.m_call(c, args, kw)
        if isinstance(f, Obj):
            m = self.find_member(f.cls, "__call__")
            if m is not None:
                return self.call(self.bind_member(m, f), args, kw)
            # torch.nn.Module: __call__ -> forward (trusted: no hooks registered)
            m = self.find_member(f.cls, "forward")
            if m is not None:
                return self.call(self.bind_member(m, f), args, kw)
        if callable(f) and not isinstance(f, (Opaque,)):
            return f(c, args, kw)
        raise Unsupported(f"call of {f!r}")

    def call_ext(self, name, args, kw):
        from . import npmodel
        ex = getattr(self.con, "externals", {})
        if name in ex:
            self.ver.externals_used.add(f"{name} (contract of {type(self.con).__name__})")
            return ex[name](self.c, args, kw)
        fn = npmodel.lookup(name)
        if fn is not None:
            if name.split(".")[0] not in ("builtins",):
                self.ver.externals_used.add(name)
            return fn(self.c, args, kw)
        if name in ("typing.cast",):
            return args[1]
        raise Unsupported(f"external call {name}")

    def instantiate(self, cls, args, kw):
        c = self.c
        ov = getattr(self.con, "overrides", {})
        if cls.key in ov:
            return ov[cls.key](c, args, kw)
        hook = MODEL_CLASSES.get(cls.key)
        if hook is not None:
            return hook(c, args, kw)
        # exceptions
        for k in mro(self.ver, cls):
            if isinstance(k, Ext) and k.name.split(".")[-1] in EXC_PARENT or (isinstance(k, ClassV) and k.name in EXC_PARENT):
                return ExcInst(cls.name)
        names = [k.name for k in mro(self.ver, cls) if isinstance(k, ClassV)]
        o = c.reg(Obj(cls), "new_" + cls.name)
        init = self.find_member(cls, "__init__")
        decos = [d.id if isinstance(d, ast.Name) else d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else "" for d in cls.node.decorator_list]
        if init is None and "dataclass" in decos:
            flds = []
            for k in reversed(mro(self.ver, cls)):
                if isinstance(k, ClassV):
                    for n, st in k.anns:
                        if "ClassVar" in ast.unparse(st.annotation):
                            continue
                        flds = [x for x in flds if x[0] != n] + [(n, st, k)]
            args = list(args)
            for n, st, k in flds:
                if args:
                    o.fields[n] = args.pop(0)
                elif n in kw:
                    o.fields[n] = kw[n]
                elif st.value is not None:
                    v = st.value
                    fr = Frame(None, k.module, k)
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "field":
                        got = False
                        for kk in v.keywords:
                            if kk.arg == "default_factory":
                                o.fields[n] = self.call(self.eval(kk.value, fr), [], {})
                                got = True
                            elif kk.arg == "default":
                                o.fields[n] = self.eval(kk.value, fr)
                                got = True
                        if not got:
                            raise PyRaise("TypeError")
                    else:
                        o.fields[n] = self.eval(v, fr)
                else:
                    raise PyRaise("TypeError", n)
            return o
        if init is not None:
            self.call(self.bind_member(init, o), args, kw)
        return o

    # ------------------------------------------------------------------ members
    def find_member(self, cls, name, after=None):
        skipping = after is not None
        for k in mro(self.ver, cls):
            if skipping:
                if k is after:
                    skipping = False
                continue
            if isinstance(k, ClassV) and name in k.members:
                return (k, k.members[name])
        return None

    def bind_member(self, m, obj, cls=None):
        k, node = m
        if isinstance(node, ast.FunctionDef):
            f = FuncV(k.module, node, f"{k.name}.{node.name}", cls=k)
            d = f.deco()
            if "staticmethod" in d:
                return f
            if "classmethod" in d:
                return BoundV(f, obj.cls if isinstance(obj, Obj) else obj)
            return BoundV(f, obj)
        if isinstance(node, (ast.Assign, ast.AnnAssign)):
            return self.eval(node.value, Frame(None, k.module, k))
        raise Unsupported("class member")

    def getattr(self, o, name):
        from . import npmodel
        c = self.c
        if isinstance(o, Obj):
            m = self.find_member(o.cls, name) if isinstance(o.cls, ClassV) else None
            if m is not None and isinstance(m[1], ast.FunctionDef):
                f = FuncV(m[0].module, m[1], f"{m[0].name}.{m[1].name}", cls=m[0])
                d = f.deco()
                if "property" in d or "cached_property" in d:
                    return self.call_function(f, [o], {})
            if name in o.fields:
                v = o.fields[name]
                if v is UNDEF:
                    raise PyRaise("AttributeError", name)
                return v
            if name == "__dict__":
                return ObjDict(o)
            if name == "__class__":
                return o.cls
            if m is not None:
                return self.bind_member(m, o)
            if name in o.hidden:
                return o.hidden[name]
            ga = self.find_member(o.cls, "__getattr__") if isinstance(o.cls, ClassV) else None
            if ga is not None:
                return self.call(self.bind_member(ga, o), [name], {})
            if getattr(self.con, "opaque_attrs", False):
                v = Opaque(f"{o.label}.{name}")
                o.fields[name] = v
                return v
            raise PyRaise("AttributeError", name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            m = self.find_member(o, name)
            if m is None:
                raise PyRaise("AttributeError", name)
            k, node = m
            if isinstance(node, ast.FunctionDef):
                f = FuncV(k.module, node, f"{k.name}.{node.name}", cls=k)
                if "classmethod" in f.deco():
                    return BoundV(f, o)
                return f
            return self.bind_member(m, o)
        if isinstance(o, Module):
            v = module_lookup(self.ver, o, name, self)
            if v is None:
                raise Unsupported(f"{o.name}.{name}")
            return v
        if isinstance(o, Ext):
            v = npmodel.const(o.name + "." + name)
            return v if v is not None else Ext(o.name + "." + name)
        if isinstance(o, Model):
            return o.m_getattr(c, name)
        if isinstance(o, SuperV):
            m = self.find_member(o.obj.cls if isinstance(o.obj, Obj) else o.obj, name, after=o.cls)
            if m is None:
                if name in ("__init__", "__setattr__", "__init_subclass__"):
                    if name == "__setattr__":
                        return Prim("object.__setattr__", lambda cc, a, k: cc.set_field(o.obj, a[0], a[1]))
                    return Prim("object.__init__", lambda cc, a, k: None)
                ex = getattr(self.con, "super_ext", {})
                if name in ex:
                    return Prim("super." + name, lambda cc, a, k: ex[name](cc, o.obj, a, k))
                raise PyRaise("AttributeError", name)
            f = m[1]
            fv = FuncV(m[0].module, f, f"{m[0].name}.{f.name}", cls=m[0])
            if "property" in fv.deco():
                return self.call_function(fv, [o.obj], {})
            return self.bind_member(m, o.obj)
        if isinstance(o, ExcInst):
            if name == "args":
                return ()
            raise Unsupported("exception attribute " + name)
        return npmodel.value_attr(self, o, name)

    def setattr(self, o, name, v):
        c = self.c
        if isinstance(o, Obj):
            st = self.find_member(o.cls, "%set " + name) if isinstance(o.cls, ClassV) else None
            if st is not None:
                f = FuncV(st[0].module, st[1], f"{st[0].name}.{name}", cls=st[0])
                self.call_function(f, [o, v], {})
                return
            hook = getattr(o, "setattr_hook", None)
            if hook:
                hook(c, o, name, v)
                return
            sa = self.find_member(o.cls, "__setattr__") if isinstance(o.cls, ClassV) else None
            if sa is not None:
                self.call(self.bind_member(sa, o), [name, v], {})
                return
            c.set_field(o, name, v)
            return
        if isinstance(o, Model):
            o.m_setattr(c, name, v)
            return
        raise Unsupported(f"set attribute {name} of {o!r}")

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is UNDEF:
                    if getattr(f, "maybe_undef", None) and name in f.maybe_undef:
                        raise Unsupported(f"'{name}' may be unbound after the loop")
                    raise PyRaise("UnboundLocalError", name)
                return v
            f = f.closure
        v = module_lookup(self.ver, fr.module, name, self)
        if v is not None:
            return v
        from . import npmodel
        b = npmodel.builtin(name)
        if b is not None:
            return b
        if name == "__name__":
            return fr.module.name
        if name in EXC_PARENT:
            return ExcClass(name)
        raise Unsupported(f"name {name}")

    def assign_local(self, fr, name, v):
        c = self.c
        if c.loops:
            c.on_write(("local", name), fr, v)
        fr.locals[name] = v

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        c = self.c
        c.cur_line = (fr.module.name, getattr(st, "lineno", 0))
        t = type(st)
        if t is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            self.eval(st.value, fr)
        elif t is ast.Assign:
            v = self.eval(st.value, fr)
            for tg in st.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, fr), fr)
        elif t is ast.AugAssign:
            self.augassign(st, fr)
        elif t is ast.If:
            if self.truth(self.eval(st.test, fr)):
                self.exec_block(st.body, fr)
            else:
                self.exec_block(st.orelse, fr)
        elif t is ast.Return:
            raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)
        elif t is ast.Pass:
            pass
        elif t is ast.While:
            self.exec_while(st, fr)
        elif t is ast.For:
            self.exec_for(st, fr)
        elif t is ast.Assert:
            if not self.truth(self.eval(st.test, fr)):
                raise PyRaise("AssertionError")
        elif t is ast.Raise:
            self.exec_raise(st, fr)
        elif t is ast.Try:
            self.exec_try(st, fr)
        elif t is ast.With:
            self.exec_with(st.items, st.body, fr)
        elif t is ast.Break:
            raise BreakEx()
        elif t is ast.Continue:
            raise ContinueEx()
        elif t is ast.FunctionDef:
            self.assign_local(fr, st.name, FuncV(fr.module, st, (fr.func.qual + "." if fr.func else "") + st.name, closure=fr, cls=None))
        elif t is ast.Delete:
            for tg in st.targets:
                self.delete(tg, fr)
        elif t in (ast.Import, ast.ImportFrom):
            for al in st.names:
                fr.locals[al.asname or al.name] = Ext((getattr(st, "module", None) + "." if getattr(st, "module", None) else "") + al.name)
        elif t in (ast.Global, ast.Nonlocal):
            raise Unsupported("global/nonlocal")
        else:
            raise Unsupported(f"statement {t.__name__}")

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            self.assign_local(fr, tg.id, UNDEF)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            if isinstance(o, Obj) and self.mangle(tg.attr, fr) in o.fields:
                self.c.on_write(("field", o.label, self.mangle(tg.attr, fr)), o, None)
                del o.fields[self.mangle(tg.attr, fr)]
            else:
                raise Unsupported("del attribute")
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            k = self.eval_index(tg.slice, fr)
            if isinstance(o, PDict):
                if k not in o.d:
                    raise PyRaise("KeyError")
                self.c.on_write(("dict", o.label), o)
                del o.d[k]
            elif isinstance(o, Model) and hasattr(o, "m_delitem"):
                o.m_delitem(self.c, k)
            else:
                raise Unsupported("del item")

    def exec_raise(self, st, fr):
        if st.exc is None:
            cur = getattr(fr, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.eval_exc(st.exc, fr)
        raise v

    def eval_exc(self, node, fr):
        try:
            if isinstance(node, ast.Call):
                v = self.eval(node.func, fr)
            else:
                v = self.eval(node, fr)
        except Unsupported:
            raise
        if isinstance(v, ExcClass):
            return PyRaise(v.name)
        if isinstance(v, ExcInst):
            return v.orig if v.orig is not None else PyRaise(v.name)
        if isinstance(v, ClassV):
            return PyRaise(v.name)
        if isinstance(v, Ext):
            return PyRaise(v.name.split(".")[-1])
        raise Unsupported(f"raise {v!r}")

    def exec_try(self, st, fr):
        pend = None
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if self.handler_matches(h, e, fr):
                        if h.name:
                            self.assign_local(fr, h.name, ExcInst(e.name, e))
                        saved = getattr(fr, "cur_exc", None)
                        fr.cur_exc = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            pend = e
        if st.finalbody:
            self.exec_block(st.finalbody, fr)   # a return/raise in finally overrides
        if pend is not None:
            raise pend

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            v = self.eval(t, fr)
            nm = v.name.split(".")[-1] if isinstance(v, (ExcClass, Ext)) else v.name if isinstance(v, ClassV) else None
            if nm is None:
                raise Unsupported("except type")
            if exc_isinstance(e.name, nm):
                return True
        return False

    def exec_with(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        rest = items[1:]

        def run_body(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val, fr)
            self.exec_with(rest, body, fr)
        self.enter(cm, run_body)

    def enter(self, cm, run_body):
        if isinstance(cm, CtxMgr):
            state = {"n": 0, "ctl": None}

            def cb(val):
                state["n"] += 1
                if state["n"] > 1:
                    raise Unsupported("context manager yields twice")
                try:
                    run_body(val)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    state["ctl"] = e       # with-body left by control flow: generator continues normally
                return None
            self.call_function(cm.func, cm.args, cm.kw, body_cb=cb)
            if state["n"] == 0:
                raise PyRaise("RuntimeError")
            if state["ctl"] is not None:
                raise state["ctl"]
            return
        if isinstance(cm, Model) and hasattr(cm, "m_with"):
            cm.m_with(self.c, run_body)
            return
        if isinstance(cm, Opaque):
            run_body(cm)
            return
        raise Unsupported(f"with {cm!r}")

    # ---- assignment
    def assign(self, tg, v, fr):
        t = type(tg)
        if t is ast.Name:
            self.assign_local(fr, tg.id, v)
        elif t is ast.Attribute:
            self.setattr(self.eval(tg.value, fr), self.mangle(tg.attr, fr), v)
        elif t is ast.Subscript:
            from . import npmodel
            o = self.eval(tg.value, fr)
            idx = self.eval_index(tg.slice, fr)
            self.setitem(o, idx, v)
        elif t in (ast.Tuple, ast.List):
            items = self.unpack(v, len(tg.elts), [isinstance(x, ast.Starred) for x in tg.elts])
            for x, y in zip(tg.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, starred):
        if isinstance(v, Obj):
            raise Unsupported("unpack object")
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList) and v.concrete:
            items = list(v.items)
        elif isinstance(v, Arr) and isinstance(v.shape[0], int):
            from . import npmodel
            items = [npmodel.arr_getitem(self.c, v, k) for k in range(v.shape[0])]
        elif isinstance(v, IterV) and isinstance(v.n, int):
            items = [v.get(k) for k in range(v.n)]
        elif isinstance(v, GenV):
            items = v.items
        else:
            raise Unsupported(f"unpack {v!r}")
        if any(starred):
            k = starred.index(True)
            m = len(items) - (n - 1)
            return items[:k] + [self.c.reg(PList(items[k:k + m]), "l")] + items[k + m:]
        if len(items) != n:
            raise PyRaise("ValueError")
        return items

    def setitem(self, o, idx, v):
        from . import npmodel
        c = self.c
        if isinstance(o, Arr):
            npmodel.arr_setitem(c, o, idx, v)
        elif isinstance(o, PDict):
            c.on_write(("dict", o.label), o)
            o.d[self.hashable(idx)] = v
        elif isinstance(o, PList):
            if o.concrete and isinstance(idx, int):
                c.on_write(("list", o.label), o, v if is_scalar(v) else None)
                o.items[idx] = v
            elif not o.concrete and is_scalar(v) and is_int(idx):
                c.on_write(("list", o.label), o, v)
                f0, ii = o.f_, I(idx)
                o.f_ = lambda k: ite(k == ii, v, f0(k))
            else:
                raise Unsupported("list setitem")
        elif isinstance(o, Model):
            o.m_setitem(c, idx, v)
        elif isinstance(o, Obj):
            m = self.find_member(o.cls, "__setitem__")
            if m is None:
                raise PyRaise("TypeError")
            self.call(self.bind_member(m, o), [idx, v], {})
        else:
            raise Unsupported(f"setitem {o!r}")

    def hashable(self, k):
        if is_z3(k):
            p = as_py(k)
            if is_z3(p):
                raise Unsupported("symbolic dict key")
            return p
        return k

    def augassign(self, st, fr):
        from . import npmodel
        op = BINOPS[type(st.op)]
        tg = st.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, fr)
            rhs = self.eval(st.value, fr)
            if isinstance(cur, Arr):
                npmodel.arr_inplace(self.c, op, cur, rhs)
                return
            if isinstance(cur, PList) and op == "+":
                self.call(self.getattr(cur, "extend"), [rhs], {})
                return
            self.assign_local(fr, tg.id, self.binop(op, cur, rhs))
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            cur = self.getattr(o, self.mangle(tg.attr, fr))
            rhs = self.eval(st.value, fr)
            if isinstance(cur, Arr):
                npmodel.arr_inplace(self.c, op, cur, rhs)
                self.setattr(o, self.mangle(tg.attr, fr), cur)
                return
            self.setattr(o, self.mangle(tg.attr, fr), self.binop(op, cur, rhs))
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            idx = self.eval_index(tg.slice, fr)
            cur = self.getitem(o, idx)
            rhs = self.eval(st.value, fr)
            self.setitem(o, idx, self.binop(op, cur, rhs))
        else:
            raise Unsupported("augassign target")

    # ------------------------------------------------------------------ loops
    def loop_spec(self, fr, node):
        fn = fr.func
        if fn is None:
            return None, None
        nodes = [n for n in ast.walk(fn.node) if isinstance(n, (ast.While, ast.For))]
        nodes.sort(key=lambda n: (n.lineno, n.col_offset))
        k = nodes.index(node)
        loops = getattr(self.con, "loops", {})
        lid = (self.ver.cname, fn.key, k)
        for key in ((fn.qual, k), (fn.name, k)):
            if key in loops:
                return loops[key], lid
        if k in loops and (self.con.target is None or fn.key == self.con.target or
                           fn.qual.split(".")[-1] == self.con.target.split(":")[1].split(".")[-1]):
            return loops[k], lid
        # helper extracted from the target: reuse by order of appearance
        tkey = self.con.target
        if tkey and fn.key != tkey and isinstance(k, int) and k in loops and len(loops) == 1 and len(nodes) == 1:
            return loops[k], lid
        return None, lid

    def exec_for(self, st, fr):
        seq = self.eval(st.iter, fr)
        items = self.concrete_iter(seq)
        spec, lid = self.loop_spec(fr, st)
        if items is not None and spec is None:
            try:
                for x in items:
                    self.assign(st.target, x, fr)
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(st.orelse, fr)
            return
        itv = self.sym_iter(seq)
        self.cut_loop(st, fr, spec, lid, itv)

    def exec_while(self, st, fr):
        spec, lid = self.loop_spec(fr, st)
        if spec is None:
            # concrete guard: execute directly while the guard is decided
            n = 0
            while True:
                g = self.truth_value(self.eval(st.test, fr))
                g = as_py(g) if not isinstance(g, bool) else g
                if not isinstance(g, bool):
                    raise Unsupported(f"loop without invariant in {fr.func.key if fr.func else '?'}")
                if not g:
                    break
                n += 1
                if n > 64:
                    raise Unsupported("unbounded concrete loop")
                try:
                    self.exec_block(st.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.exec_block(st.orelse, fr)
            return
        self.cut_loop(st, fr, spec, lid, None)

    def cut_loop(self, st, fr, spec, lid, itv):
        c = self.c
        if spec is None:
            raise Unsupported(f"loop without invariant in {fr.func.key if fr.func else '?'}")
        if c.pure:
            raise Unsupported("loop in pure context")
        ver = self.ver
        modset = ver.modsets.setdefault(lid, {})
        pre = PreView({k: snapshot(v) for k, v in fr.locals.items() if v is not UNDEF})

        def LV(g, k=None, n=None):
            L = LoopView(c, fr, pre, g, k, n)
            L.__dict__["at"] = itv.get if itv is not None else None     # L.at(k): the k-th iterated value
            return L
        g = spec.ghost(c, LV({})) if spec.ghost else {}
        g = dict(g)
        n = itv.n if itv is not None else None
        if n is not None:
            n = I(n)
        # entry
        L = LV(g, z3.IntVal(0), n)
        if spec.setup:
            spec.setup(c, L)
        for nm, f in spec.inv(c, L):
            c.prove(f"loop{lid[2]}:entry:{nm}", f, "inv")
            c.assume(f)
        if spec.ran is not None:
            c.prove(f"loop{lid[2]}:entry:not-yet-run", z3.Not(B(spec.ran(c, L))), "inv")
        mode = c.choose(2, "loop")
        # havoc
        lf = LoopFrame()
        lf.frame, lf.modset, lf.lid = fr, modset, lid
        lf.pre_names = {k for k, v in fr.locals.items() if v is not UNDEF}
        lf.pre_vals = dict(fr.locals)
        lf.birth_mark = c.born
        lf.field_pre = {}
        k = c.Int("k") if itv is not None else None
        born_here = []
        for cell, hint in sorted(modset.items(), key=lambda kv: str(kv[0])):
            if cell[0] == "local":
                name = cell[1]
                if name not in lf.pre_names:
                    born_here.append(name)
                    continue
                if name in spec.havoc:
                    fr.locals[name] = spec.havoc[name](c, LV(g))
                else:
                    fr.locals[name] = self.fresh_like(fr.locals[name], name, hint)
            elif cell[0] == "arr":
                a = c.objs.get(cell[1])
                if a is None:
                    continue
                na = c.arr("h_" + cell[1].strip("@"), a.shape, a.dtype, kind=a.kind)
                a._f = na._f
            elif cell[0] == "field":
                o = c.objs.get(cell[1])
                if o is None or cell[2] not in o.fields:
                    continue
                lf.field_pre[cell] = o.fields[cell[2]]
                hk = f"{cell[2]}"
                if hk in spec.havoc:
                    o.fields[cell[2]] = spec.havoc[hk](c, LV(g))
                else:
                    o.fields[cell[2]] = self.fresh_like(o.fields[cell[2]], cell[2], hint)
            elif cell[0] == "list":
                o = c.objs.get(cell[1])
                if o is not None:
                    if "list:" in spec.havoc:
                        raise Unsupported("list havoc")
                    self.havoc_list(o, o, hint, "hl")
            elif cell[0] == "model":
                o = c.objs.get(cell[1])
                if o is not None:
                    o.m_havoc(c)
            else:
                raise Unsupported(f"loop modifies {cell}")
        for gk in list(g):
            gv = g[gk]
            if spec.step is not None:
                g[gk] = self.fresh_like(gv, "g_" + gk) if is_scalar(gv) else gv
        L = LV(g, k, n)
        if itv is not None:
            c.assume(0 <= k, k <= n if is_z3(n) else k <= n)
        for nm, f in spec.inv(c, L):
            c.assume(f)
        if spec.hint:
            for f in spec.hint(c, L):
                c.assume(f)
        if mode == 0:
            # arbitrary iteration
            if itv is not None:
                c.assume(k < n)
                self.assign(st.target, itv.get(k), fr)
            else:
                if not self.truth(self.eval(st.test, fr)):
                    raise EndPath()
            if itv is not None:
                pass
            c.loops.append(lf)
            v0 = spec.variant(c, L) if spec.variant else None
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                c.loops.remove(lf)
                for nm in born_here:
                    pass
                return
            c.loops.remove(lf)
            k2 = k + 1 if k is not None else None
            if spec.step is not None:
                g2 = dict(g)
                spec.step(c, LV(g2, k, n))
                L2 = LV(g2, k2, n)
            else:
                L2 = LV(g, k2, n)
            for nm, (_, props) in spec.born.items():
                for pn, f in props(c, L2, fr.locals[nm]):
                    c.prove(f"loop{lid[2]}:preserved:{nm}:{pn}", f, "inv")
            # kinds must be preserved
            for cell, hint in modset.items():
                if cell[0] == "local" and cell[1] in lf.pre_names:
                    now, was = fr.locals.get(cell[1]), lf.pre_vals[cell[1]]
                    if type(now) is not type(was) and not (is_scalar(now) and is_scalar(was)) and cell[1] not in spec.havoc:
                        raise Unsupported(f"loop changes the kind of {cell[1]}")
            for nm, f in spec.inv(c, L2):
                c.prove(f"loop{lid[2]}:preserved:{nm}", f, "inv")
            if spec.variant:
                v1 = spec.variant(c, L2)
                c.prove(f"loop{lid[2]}:terminates", z3.And(I(v0) > I(v1), I(v0) >= 0), "inv")
            raise EndPath()
        # after the loop
        if itv is not None:
            c.assume(k == n)
        else:
            if self.truth(self.eval(st.test, fr)):
                raise EndPath()
        fr.maybe_undef = getattr(fr, "maybe_undef", set()) | set(born_here)
        ran = None
        for nm in born_here:
            if nm in spec.born:
                if ran is None:
                    ran = c.entailed(n >= 1) if itv is not None else c.entailed(B(spec.ran(c, L)))
                if ran:
                    fr.locals[nm] = spec.born[nm][0](c, L)
                    for pn, f in spec.born[nm][1](c, L, fr.locals[nm]):
                        c.assume(f)
                    continue
            fr.locals[nm] = UNDEF
        if spec.post_hint:
            for f in spec.post_hint(c, L):
                c.assume(f)
        self.exec_block(st.orelse, fr)

    # ---- iteration protocols
    def concrete_iter(self, v):
        """list of items when the number of iterations is concrete, else None"""
        from . import npmodel
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PList) and v.concrete:
            return list(v.items)
        if isinstance(v, PSet):
            return list(v.items)
        if isinstance(v, PDict):
            return list(v.d.keys())
        if isinstance(v, GenV):
            return v.items
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SRange):
            a, b, s = as_py(v.start), as_py(v.stop), as_py(v.step)
            if all(isinstance(x, int) for x in (a, b, s)):
                return list(range(a, b, s))
            return None
        if isinstance(v, IterV) and isinstance(as_py(v.n), int):
            return [v.get(k) for k in range(as_py(v.n))]
        if isinstance(v, Arr) and v.shape and isinstance(as_py(v.shape[0]), int) and v.dom is None:
            return [npmodel.arr_getitem(self.c, v, k) for k in range(as_py(v.shape[0]))]
        if isinstance(v, Model):
            r = v.m_iter(self.c)
            return self.concrete_iter(r)
        return None

    def sym_step_range(self, a, b, s):
        """range(a, b, s) with a symbolic positive step: AT(k) = a + k*s characterised inductively (definitional)"""
        c = self.c
        if not c.entailed(I(s) > 0):
            raise Unsupported("range step of unknown sign")
        a, b, s = I(a), I(b), I(s)
        n = c.nat("trips")
        AT = z3.Function(c.fresh_name("range_at"), z3.IntSort(), z3.IntSort())
        q = z3.Int(c.fresh_name("?r"))
        c.assume(AT(0) == a, z3.Implies(b <= a, n == 0), z3.Implies(b > a, n >= 1))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(AT(q) >= a, AT(q) < b)), patterns=[AT(q)]))
        c.assume(AT(n) >= b)

        def get(k):
            k = I(k)
            if not c.pure:
                c.assume(z3.Implies(k >= 0, AT(k + 1) == AT(k) + s))
            return AT(k)
        return IterV(n, get)

    def sym_iter(self, v):
        from . import npmodel
        if isinstance(v, IterV):
            return v
        if isinstance(v, SRange):
            a, b, s = v.start, v.stop, v.step
            sp = as_py(s)
            if not isinstance(sp, int):
                return self.sym_step_range(a, b, s)
            if sp == 0:
                raise PyRaise("ValueError")
            if sp == 1:
                n = smax(binop("-", b, a), 0)
            elif sp == -1:
                n = smax(binop("-", a, b), 0)
            elif sp > 0:
                n = smax(binop("//", binop("+", binop("-", b, a), sp - 1), sp), 0)
            else:
                n = smax(binop("//", binop("+", binop("-", a, b), -sp - 1), -sp), 0)
            return IterV(n, lambda k: binop("+", a, binop("*", sp, k)))
        if isinstance(v, Arr):
            if v.dom is not None:
                raise Unsupported("iterate masked array")
            return IterV(v.shape[0], lambda k: npmodel.arr_getitem(self.c, v, k, safe=True))
        if isinstance(v, PList):
            if v.concrete:
                items = v.items
                return IterV(len(items), lambda k: items[k] if isinstance(k, int) else v.f(k))
            return IterV(v.n, lambda k: v.f(k))
        if isinstance(v, Model):
            return self.sym_iter(v.m_iter(self.c))
        it = self.concrete_iter(v)
        if it is not None:
            return self.sym_iter(self.c.reg(PList(it), "l"))
        raise Unsupported(f"iterate {v!r}")

    # ------------------------------------------------------------------ expressions
    def truth_value(self, v):
        """value -> python bool or z3 Bool"""
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return v
        if v is None:
            return False
        if is_num(v):
            return B(v) if is_z3(v) else bool(v)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PList):
            return len(v.items) > 0 if v.concrete else v.n > 0
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, PSet):
            return bool(v.items)
        if isinstance(v, Arr):
            if len(v.shape) == 0:
                return self.truth_value(v.f())
            if all(as_py(s) == 1 for s in v.shape if not is_z3(as_py(s))) and all(isinstance(as_py(s), int) for s in v.shape):
                return self.truth_value(v.f(*[0] * len(v.shape)))
            raise PyRaise("ValueError", "truth of array") if False else Unsupported("truth value of an array")
        if isinstance(v, Model):
            return v.m_bool(self.c)
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                m = self.find_member(v.cls, nm)
                if m is not None:
                    return self.truth_value(self.call(self.bind_member(m, v), [], {}))
            return True
        if isinstance(v, (FuncV, BoundV, ClassV, Ext, Prim, Module)):
            return True
        if isinstance(v, Opaque):
            return self.c.Bool("opaque")
        raise Unsupported(f"truth of {v!r}")

    def truth(self, v):
        return self.c.branch(self.truth_value(v))

    def eval(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        """private names (__x) of a class body"""
        if name.startswith("__") and not name.endswith("__"):
            f = fr
            while f is not None and f.cls is None:
                f = f.closure
            if f is not None:
                return "_" + f.cls.name.lstrip("_") + name
        return name

    def ev_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.concrete_iter(self.eval(x.value, fr))
                if it is None:
                    raise Unsupported("starred")
                out += it
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def ev_List(self, e, fr):
        sym = [x for x in e.elts if isinstance(x, ast.Starred)]
        if sym:
            vals = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, fr)
                    it = self.concrete_iter(v)
                    if it is None:
                        vals.append(("sym", self.sym_iter(v)))
                    else:
                        vals.append(("con", it))
                else:
                    vals.append(("con", [self.eval(x, fr)]))
            if all(k == "con" for k, _ in vals):
                return self.c.reg(PList([y for _, v in vals for y in v]), "list")
            n, f = 0, None
            parts = []
            for k, v in vals:
                ln = len(v) if k == "con" else v.n
                get = (lambda i, vv=v: PList(vv).f(i) if not isinstance(i, int) else vv[i]) if k == "con" else v.get
                parts.append((n, ln, get))
                n = binop("+", n, ln)

            def ff(i):
                r = None
                for off, ln, get in reversed(parts):
                    if isinstance(ln, int) and ln == 0:
                        continue
                    val = get(binop("-", i, off))
                    r = val if r is None else ite(cmp(">=", i, binop("+", off, ln)), r, val)
                return r
            probe = ff(z3.Int("?probe"))
            dt = "real" if is_real(probe) else "bool" if is_bool(probe) else "int"
            return self.c.reg(PList(None, n, ff, dt), "list")
        return self.c.reg(PList([self.eval(x, fr) for x in e.elts]), "list")

    def ev_Set(self, e, fr):
        return PSet([self.eval(x, fr) for x in e.elts])

    def ev_Dict(self, e, fr):
        d = PDict()
        self.c.reg(d, "dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if isinstance(o, PDict):
                    d.d.update(o.d)
                else:
                    raise Unsupported("** in dict")
            else:
                d.d[self.hashable(self.eval(k, fr))] = self.eval(v, fr)
        return d

    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                try:
                    x = self.eval(v.value, fr)
                except PyRaise:
                    raise
                except Unsupported:
                    x = None
                parts.append(x if isinstance(x, str) else str(x) if isinstance(x, int) else "?")
        return "".join(parts)

    def ev_FormattedValue(self, e, fr):
        return "?"

    def ev_BinOp(self, e, fr):
        return self.binop(BINOPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        from . import npmodel
        return npmodel.binop_any(self, op, a, b)

    def ev_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        from . import npmodel
        t = type(e.op)
        if t is ast.Not:
            return b_not(self.truth_value(v))
        if t is ast.USub:
            if isinstance(v, (Arr, Model)):
                return npmodel.binop_any(self, "-", 0, v)
            return -v if not is_z3(v) else binop("-", 0, v)
        if t is ast.UAdd:
            return v
        if t is ast.Invert:
            if isinstance(v, Arr):
                return npmodel.ew(self.c, lambda x: b_not(x), [v], "bool")
            if is_bool(v):
                return b_not(v)
        raise Unsupported("unary op")

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            # keep symbolic conjunctions pure when the rest has no effects and both are boolean
            tv = self.truth_value(v)
            t = self.c.branch(tv)
            if isand and not t:
                return v if not is_z3(v) else False
            if not isand and t:
                return v if not is_z3(v) or not is_bool(v) else True
        return v

    def ev_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for i, (op, rt) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rt, fr)
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                res = b_and(self.truth_value(res), self.truth_value(r))
            if len(e.ops) > 1 and i < len(e.ops) - 1 and res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return r if t is ast.Is else b_not(r)
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else b_not(r)
        return npmodel.cmp_any(self, CMPOPS[t], a, b)

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.c.Bool("is_none")
            x = b if a is None else a
            if isinstance(x, Model) and hasattr(x, "m_is_none"):
                return x.m_is_none(self.c)
            return a is None and b is None
        if isinstance(a, (Ext, ExcClass)) or isinstance(b, (Ext, ExcClass)):
            return a == b
        if is_bool(a) and is_bool(b):
            return cmp("==", a, b)
        if is_scalar(a) and is_scalar(b):
            return a is b or (not is_z3(a) and not is_z3(b) and a == b)
        return a is b

    def contains(self, cont, x):
        from . import npmodel
        if isinstance(cont, Model):
            return cont.m_contains(self.c, x)
        if isinstance(cont, PDict):
            return self.hashable(x) in cont.d
        if isinstance(cont, Obj):
            m = self.find_member(cont.cls, "__contains__")
            if m:
                return self.truth_value(self.call(self.bind_member(m, cont), [x], {}))
        if isinstance(cont, str):
            return x in cont
        if isinstance(cont, SRange) and is_int(x):
            return b_and(cmp("<=", cont.start, x), cmp("<", x, cont.stop))
        if isinstance(cont, (Arr, PList)) and self.concrete_iter(cont) is None:
            n = cont.shape[0] if isinstance(cont, Arr) else cont.n
            return self.c.exists(lambda i: cmp("==", cont.f(i), x), 0, n)
        items = self.concrete_iter(cont)
        if items is None:
            raise Unsupported("membership")
        r = False
        for y in items:
            if y is x:
                return True
            if is_scalar(x) and is_scalar(y):
                r = b_or(r, cmp("==", x, y))
            elif isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                r = b_or(r, x == y if type(x) is type(y) else False)
            elif isinstance(x, (Ext, ClassV)):
                r = b_or(r, x == y)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                r = b_or(r, x == y)
            else:
                raise Unsupported("membership of objects")
        return r

    def ev_IfExp(self, e, fr):
        t = self.truth_value(self.eval(e.test, fr))
        if isinstance(t, bool):
            return self.eval(e.body if t else e.orelse, fr)
        if self.c.pure:
            a, b = self.eval(e.body, fr), self.eval(e.orelse, fr)
            if is_scalar(a) and is_scalar(b):
                return ite(t, a, b)
            raise Unsupported("conditional on symbolic test")
        return self.eval(e.body if self.c.branch(t) else e.orelse, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Lambda(self, e, fr):
        return FuncV(fr.module, e, (fr.func.qual if fr.func else "") + ".<lambda>", closure=fr)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def ev_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def ev_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        # generic class subscription (list[Any])
        if isinstance(o, (ClassV, Ext)) or (isinstance(o, Prim) and o.name in ("list", "dict", "tuple", "set", "type", "defaultdict")):
            return o
        return self.getitem(o, self.eval_index(e.slice, fr))

    def getitem(self, o, idx):
        from . import npmodel
        c = self.c
        if isinstance(o, Arr):
            return npmodel.arr_getitem(c, o, idx)
        if isinstance(o, PDict):
            k = self.hashable(idx)
            if k not in o.d:
                raise PyRaise("KeyError")
            return o.d[k]
        if isinstance(o, (tuple, str)):
            if isinstance(idx, SliceV):
                g = lambda x: as_py(x)
                return o[slice(g(idx.lo), g(idx.hi), g(idx.step))]
            i = as_py(idx)
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    raise PyRaise("IndexError")
                return o[i]
            if all(is_scalar(x) for x in o):
                return PList(list(o)).f(i)
            raise Unsupported("symbolic tuple index")
        if isinstance(o, PList):
            return npmodel.list_getitem(c, o, idx)
        if isinstance(o, Model):
            return o.m_getitem(c, idx)
        if isinstance(o, Obj):
            m = self.find_member(o.cls, "__getitem__")
            if m is None:
                raise PyRaise("TypeError")
            return self.call(self.bind_member(m, o), [idx], {})
        if isinstance(o, IterV):
            if getattr(o, "islist", False) and is_int(idx):
                i = I(idx)
                ok = z3.And(-I(o.n) <= i, i < I(o.n))
                if not c.pure and not c.branch(ok):
                    raise PyRaise("IndexError")
                return o.get(z3.simplify(z3.If(i < 0, i + I(o.n), i)))
            if getattr(o, "islist", False):
                raise Unsupported("slice of a symbolic list of objects")
            raise PyRaise("TypeError")
        raise Unsupported(f"getitem of {o!r}")

    def ev_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.self_ is None and f.closure is not None:
                f = f.closure
            if f.cls is None:
                raise Unsupported("super outside class")
            return SuperV(f.cls, f.self_)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                it = self.concrete_iter(v)
                if it is None:
                    args.append(StarV(v))
                else:
                    args += it
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, PDict):
                    kw.update(d.d)
                elif isinstance(d, Model) and hasattr(d, "m_kwargs"):
                    kw.update(d.m_kwargs(self.c))
                else:
                    raise Unsupported("** call")
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    # comprehensions
    def ev_ListComp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, e)
        if isinstance(r, list):
            return self.c.reg(PList(r), "list")
        if isinstance(r, (PList, Model)):
            return r
        if isinstance(r, IterV):
            r.islist = True
        return r

    def ev_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, e)
        if isinstance(r, list):
            return GenV(r)
        return r

    def ev_SetComp(self, e, fr):
        r = self.comp(e.generators, e.elt, fr, e)
        if isinstance(r, list):
            return PSet(r)
        raise Unsupported("set comprehension")

    def ev_DictComp(self, e, fr):
        r = self.comp(e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), fr)
        if not isinstance(r, list):
            raise Unsupported("dict comprehension")
        d = self.c.reg(PDict(), "dict")
        for k, v in r:
            d.d[self.hashable(k)] = v
        return d

    def comp(self, gens, elt, fr, node=None):
        from . import npmodel
        sub = Frame(fr.func, fr.module, fr.cls, closure=fr)
        sub.self_ = None
        seq = self.eval(gens[0].iter, fr)
        items = self.concrete_iter(seq)
        if items is not None:
            out = []
            self._comp_rec(gens, 0, elt, sub, out, items)
            return out
        if len(gens) != 1:
            raise Unsupported("comprehension over symbolic sequence")
        c = self.c
        itv = self.sym_iter(seq)
        if gens[0].ifs:
            def pred(x):
                s2 = Frame(fr.func, fr.module, fr.cls, closure=fr)
                c.pure += 1
                saved, c.loops = c.loops, []
                try:
                    self.assign(gens[0].target, x, s2)
                    r = True
                    for q in gens[0].ifs:
                        r = b_and(r, self.truth_value(self.eval(q, s2)))
                    return B(r)
                finally:
                    c.pure -= 1
                    c.loops = saved
            same = isinstance(elt, ast.Name) and isinstance(gens[0].target, ast.Name) and elt.id == gens[0].target.id
            if isinstance(seq, Model) and hasattr(seq, "m_filter") and same:
                return seq.m_filter(c, pred)
            # the kept positions, in order
            keep = npmodel.nonzero(c, c.lam((itv.n,), lambda i: pred(itv.get(I(i))), "bool"))
            base, kf = itv, keep.snap()
            itv = IterV(keep.shape[0], lambda m: base.get(kf(I(m))))
        spec = self.comp_spec(fr, node)
        if isinstance(spec, Loop):
            # an effectful comprehension is the loop that appends its element to a list, annotated like any other loop (local comp_)
            sub.locals["comp_"] = c.reg(PList([]), "list")
            call = ast.Call(func=ast.Attribute(value=ast.Name(id="comp_", ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[elt], keywords=[])
            st = ast.For(target=gens[0].target, iter=gens[0].iter, body=[ast.Expr(value=call)], orelse=[])
            ast.copy_location(st, node), ast.fix_missing_locations(st)
            self.cut_loop(st, sub, spec, (self.ver.cname, fr.func.key, "comp"), itv)
            return sub.locals["comp_"]
        if spec is not None:
            return self.cut_comp(spec, gens[0].target, elt, itv, fr)

        def getk(k):
            s2 = Frame(fr.func, fr.module, fr.cls, closure=fr)
            c.pure += 1
            saved = c.loops
            c.loops = []
            try:
                self.assign(gens[0].target, itv.get(k), s2)
                return self.eval(elt, s2)
            finally:
                c.pure -= 1
                c.loops = saved
        K = c.Int("cmp")
        probe = getk(K)
        if isinstance(seq, Model) and hasattr(seq, "m_map"):
            r = seq.m_map(c, K, probe)
            if r is not None:
                return r
        if is_scalar(probe):
            pz = probe

            def f(i):
                return z3.substitute(pz, (K, I(i))) if is_z3(pz) else pz
            dt = "real" if is_real(probe) else "bool" if is_bool(probe) else "int"
            return c.reg(PList(None, itv.n, f, dt), "list")
        return IterV(itv.n, getk)

    def comp_spec(self, fr, node):
        comps = getattr(self.con, "comps", None)
        if not comps or fr.func is None or node is None:
            return None
        nodes = [n for n in ast.walk(fr.func.node) if isinstance(n, (ast.ListComp, ast.GeneratorExp))]
        nodes.sort(key=lambda n: (n.lineno, n.col_offset))
        return comps.get((fr.func.name, nodes.index(node) if node in nodes else -1))

    def cut_comp(self, spec, target, elt, itv, fr):
        c, n = self.c, I(itv.n)
        if c.pure:
            raise Unsupported("comprehension contract in pure context")
        if c.choose(2, "comp") == 0:
            k = c.Int("cmp")
            c.assume(0 <= k, k < n)
            if spec.hint:
                for f in spec.hint(c, k):
                    c.assume(f)
            lf = LoopFrame()
            lf.frame, lf.modset, lf.lid = fr, {}, ("comp",)
            lf.pre_names, lf.pre_vals, lf.birth_mark, lf.field_pre = set(fr.locals), dict(fr.locals), c.born, {}
            sub = Frame(fr.func, fr.module, fr.cls, closure=fr)
            sub.self_ = None
            c.loops.append(lf)
            self.assign(target, itv.get(k), sub)
            v = self.eval(elt, sub)
            c.loops.remove(lf)
            if any(cell[0] != "local" for cell in lf.modset):
                raise Unsupported(f"comprehension modifies {sorted(map(str, lf.modset))}")
            want = spec.elem(c, k)
            if isinstance(want, Arr):
                if not isinstance(v, Arr) or v.dom is not None or len(v.shape) != len(want.shape):
                    raise Unsupported("comprehension element shape")
                c.prove("comp:element-length", z3.And(*[I(x) == I(y) for x, y in zip(v.shape, want.shape)]), "inv")
                if spec.props:
                    for nm, f in spec.props(c, k, v):
                        c.prove("comp:" + nm, f, "inv")
                    raise EndPath()
                a, b = v.snap(), want.snap()
                ix = [z3.Int(c.fresh_name("?e")) for _ in want.shape]
                rng = z3.And(*[z3.And(0 <= i, i < I(d)) for i, d in zip(ix, want.shape)])
                e = cmp("==", a(*ix), b(*ix))
                c.prove("comp:element", z3.ForAll(ix, z3.Implies(rng, B(e))) if ix else B(e), "inv")
            else:
                c.prove("comp:element", B(cmp("==", v, want)), "inv")
            raise EndPath()
        k0 = z3.Int(c.fresh_name("cmp?"))
        e = spec.elem(c, k0)
        if spec.props:
            for nm, f in spec.props(c, k0, e):
                c.assume(z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < n), f)))
        if isinstance(e, Arr):
            return c.reg(PList(None, n, lambda k: spec.elem(c, I(k)), "ragged"), "list")
        dt = "real" if is_real(e) else "bool" if is_bool(e) else "int"
        return c.reg(PList(None, n, lambda k: spec.elem(c, I(k)), dt), "list")

    def _comp_rec(self, gens, gi, elt, sub, out, items=None):
        if gi == len(gens):
            out.append(self.eval(elt, sub))
            return
        g = gens[gi]
        if items is None:
            items = self.concrete_iter(self.eval(g.iter, sub))
            if items is None:
                raise Unsupported("nested comprehension over symbolic sequence")
        for x in items:
            saved = self.c.loops
            self.c.loops = []
            try:
                self.assign(g.target, x, sub)
            finally:
                self.c.loops = saved
            ok = True
            for cond in g.ifs:
                if not self.truth(self.eval(cond, sub)):
                    ok = False
                    break
            if ok:
                self._comp_rec(gens, gi + 1, elt, sub, out)

    def ev_Starred(self, e, fr):
        raise Unsupported("starred")

    def ev_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f is not None and f.yield_cb is None:
            f = f.closure
        cb = f.yield_cb if f is not None else None
        if cb is None:
            cb = getattr(self.con, "on_yield", None)
            if cb is None:
                raise Unsupported("yield")
            return cb(self.c, fr, v)
        return cb(v)


class CtxMgr:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class GenV:
    def __init__(self, items):
        self.items = items


class StarV:
    def __init__(self, v):
        self.v = v


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcClass:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExcClass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExcInst:
    def __init__(self, name, orig=None):
        self.name, self.orig = name, orig


DICT_METHODS = set(dir(dict))


class ObjDict(Model):
    pytype = ("dict",)

    def m_len(self, c):
        return len(self.o.fields)

    def m_bool(self, c):
        return bool(self.o.fields)

    def __init__(self, o):
        self.o = o

    def m_getitem(self, c, k):
        if k not in self.o.fields:
            raise PyRaise("KeyError")
        return self.o.fields[k]

    def m_setitem(self, c, k, v):
        c.set_field(self.o, k, v)

    def m_contains(self, c, k):
        return k in self.o.fields

    def m_iter(self, c):
        return list(self.o.fields)

    def m_getattr(self, c, name):
        if name == "items":
            return Prim("items", lambda cc, a, k: [(x, y) for x, y in self.o.fields.items()])
        if name == "values":
            return Prim("values", lambda cc, a, k: list(self.o.fields.values()))
        if name == "keys":
            return Prim("keys", lambda cc, a, k: list(self.o.fields.keys()))
        if name == "update":
            def upd(cc, a, k):
                for kk, vv in a[0].d.items():
                    cc.set_field(self.o, kk, vv)
            return Prim("update", upd)
        if name == "get":
            return Prim("get", lambda cc, a, k: self.o.fields.get(a[0], a[1] if len(a) > 1 else None))
        if name == "pop":
            def pop(cc, a, k):
                if a[0] in self.o.fields:
                    cc.on_write(("field", self.o.label, a[0]), self.o, None)
                    return self.o.fields.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise PyRaise("KeyError")
            return Prim("pop", pop)
        if name in DICT_METHODS:
            raise Unsupported("__dict__." + name)
        raise PyRaise("AttributeError", name)


MODEL_CLASSES = {}     # repository class key -> host constructor (assumed contract of that class)
