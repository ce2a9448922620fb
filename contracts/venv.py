"""P20: contracts on the vectorised environment: every row comes from the environment it is reported under, whatever the number of environments,
the ids asked for, the readiness order and the state (which environments are still busy) the call finds."""
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc.models import Rec, Fn

VE = "tianshou.env.venvs:BaseVectorEnv"
ASK = ("None", "int", "list")
TRUST = ("a worker answers recv() with the result of the last action sent to it (uninterpreted functions of worker and action; one process per "
         "worker); worker_class.wait returns pairwise different members of the list it is given, in any order, possibly none (P20's bounded "
         "harness runs the real workers); observations are scalars here (np.stack row i = i-th item); list.index/append/pop/in over id lists")
RL = z3.RealSort()
IN = z3.IntSort()
OUT = {nm: z3.Function("w_" + nm, IN, RL, RL) for nm in ("obs", "rew", "term", "trunc", "robs")}
ATTR, SEEDED, FRAME = z3.Function("w_attr", IN, RL), z3.Function("w_seeded", IN, RL, RL), z3.Function("w_frame", IN, RL, RL)


class Info(Model):
    """the info dict of one result: whose it is, what action led to it, and the env_id written into it (-1: none)"""
    pytype = ("dict",)

    def __init__(self, c, who, act, eid):
        self.who, self.act, self.eid = I(who), R(act), I(eid)
        c.reg(self, "info")

    def m_snap(self, memo):
        r = object.__new__(Info)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        return r

    def m_setitem(self, c, key, v):
        if key != "env_id":
            raise Unsupported("info field " + str(key))
        c.on_write(("model", self.label), self)
        self.eid = I(v)

    def m_ite(self, c, cond, o):
        return Info(c, z3.If(cond, self.who, o.who), z3.If(cond, self.act, o.act), z3.If(cond, self.eid, o.eid))

    def m_getitem(self, c, key):
        if key == "env_id":
            return self.eid
        raise Unsupported("info field " + str(key))


class Infos(Model):
    """array of info dicts"""
    pytype = ("ndarray",)

    def __init__(self, c, n, f):
        self.n, self.at = n, f
        c.reg(self, "infos")

    def m_snap(self, memo):
        memo[id(self)] = self
        return self

    def m_len(self, c):
        return self.n


class Ids(Model):
    """a python list of pairwise different environment ids (or of the workers with these ids); pos(x): where x stands (-1 or stale: nowhere)"""
    pytype = ("list",)

    def __init__(self, c, name, fleet=None, n=None, at=None, pos=None, kind=None):
        self.fleet, self.kind = fleet, kind or (Worker if fleet is not None else None)
        if at is None:
            self.fresh(c, name)
        else:
            self.n, self.at, self.pos = n, at, pos
        c.reg(self, name)

    def fresh(self, c, name="ids"):
        self.n = c.nat(name + "_n")
        F = z3.Function(c.fresh_name(name + "_at"), IN, IN)
        P = z3.Function(c.fresh_name(name + "_pos"), IN, IN)
        self.at, self.pos = (lambda i: F(I(i))), (lambda x: P(I(x)))
        i = z3.Int("?i")
        c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), P(F(i)) == i), patterns=[F(i)]))

    def mem(self, x):
        return z3.And(0 <= self.pos(x), self.pos(x) < I(self.n), self.at(self.pos(x)) == I(x))

    def before(self, x, k):
        """x is among the first k"""
        return z3.And(0 <= self.pos(x), self.pos(x) < I(k), self.at(self.pos(x)) == I(x))

    def m_snap(self, memo):
        r = object.__new__(Ids)
        memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        return r

    def m_havoc(self, c):
        self.fresh(c)

    def out(self, c, i):
        return self.wrap(c, self.at(i))

    def wrap(self, c, x):
        return self.kind(c, self.fleet, x) if self.kind is not None else x

    def key(self, x):
        if self.kind is None and not is_int(x) or self.kind is not None and type(x) is not self.kind:
            raise Unsupported("id list asked about another kind of object")
        return I(x) if self.kind is None else I(x.k)

    def put(self, c, n, at, pos):
        c.on_write(("model", self.label), self)
        self.n, self.at, self.pos = n, at, pos

    def m_len(self, c):
        return self.n

    def m_bool(self, c):
        return I(self.n) > 0

    def m_iter(self, c):
        n, at = self.n, self.at
        return IterV(n, lambda i: self.wrap(c, at(i)))

    def m_contains(self, c, x):
        return self.mem(self.key(x))

    def m_list(self, c):
        return Ids(c, "copy", self.fleet, self.n, self.at, self.pos, self.kind)

    def m_getitem(self, c, i):
        if not is_int(i):
            raise Unsupported("slice of an id list")
        if not c.pure and not c.branch(z3.And(-I(self.n) <= I(i), I(i) < I(self.n))):
            raise PyRaise("IndexError")
        return self.out(c, z3.If(I(i) < 0, I(i) + I(self.n), I(i)))

    def m_filter(self, c, pred):
        r = Ids(c, "kept", self.fleet, kind=self.kind)
        wrap = lambda x: self.wrap(c, x)
        x, i = z3.Int("?x"), z3.Int("?i")
        c.assume(c.forall(lambda i: z3.And(self.mem(r.at(i)), pred(wrap(r.at(i)))), 0, r.n), I(r.n) <= I(self.n))
        c.assume(z3.ForAll([x], z3.Implies(z3.And(self.mem(x), pred(wrap(x))), r.mem(x)), patterns=[r.pos(x)]))
        return r

    def take(self, c, i):
        n, at, pos = I(self.n), self.at, self.pos
        i = z3.simplify(I(i))
        x = at(i)
        self.put(c, n - 1, lambda m: z3.If(I(m) < i, at(m), at(I(m) + 1)),
                 lambda y: z3.If(I(y) == x, z3.IntVal(-1), z3.If(pos(y) > i, pos(y) - 1, pos(y))))
        return self.wrap(c, x)

    def add(self, c, x):
        x = self.key(x)
        n, at, pos = I(self.n), self.at, self.pos
        c.prove("never-listed-twice", z3.Not(self.mem(x)), "post")
        self.put(c, n + 1, lambda m: z3.If(I(m) == n, x, at(m)), lambda y: z3.If(I(y) == x, n, pos(y)))

    def find(self, c, x):
        x = self.key(x)
        if not c.branch(self.mem(x)):
            raise PyRaise("ValueError")
        return self.pos(x)

    def m_map(self, c, k, e):
        """[x.parent_remote for x in workers]: the connections of the same ids"""
        if isinstance(e, Conn) and z3.simplify(e.k).eq(z3.simplify(I(self.at(k)))):
            return Ids(c, "conns", self.fleet, self.n, self.at, self.pos, Conn)

    def m_getattr(self, c, name):
        if name == "extend":
            def extend(cc, a, kw):
                o = a[0]
                if not isinstance(o, Ids):
                    raise Unsupported("extend by something else than an id list")
                n, at, pos, on, oat, opos = I(self.n), self.at, self.pos, I(o.n), o.at, o.pos
                cc.prove("never-listed-twice", cc.forall(lambda i: z3.Not(self.mem(oat(i))), 0, on), "post")
                omem = o.mem
                self.put(cc, n + on, lambda m: z3.If(I(m) < n, at(m), oat(I(m) - n)), lambda y: z3.If(omem(y), n + opos(y), pos(y)))
            return Prim(name, extend)
        if name == "append":
            return Prim(name, lambda cc, a, k: self.add(cc, a[0]))
        if name == "index":
            return Prim(name, lambda cc, a, k: self.find(cc, a[0]))
        if name == "remove":
            return Prim(name, lambda cc, a, k: self.take(cc, self.find(cc, a[0])) and None)
        if name == "pop":
            def pop(cc, a, k):
                i = I(a[0]) if a else I(self.n) - 1
                if not cc.branch(z3.And(-I(self.n) <= i, i < I(self.n))):
                    raise PyRaise("IndexError")
                return self.take(cc, z3.If(i < 0, i + I(self.n), i))
            return Prim(name, pop)
        if name == "copy":
            return Prim(name, lambda cc, a, k: Ids(cc, "copy", self.fleet, self.n, self.at, self.pos, self.kind))
        raise Unsupported("list method " + name)


def pat(ids):
    """instantiate at the list's elements (only while its element function is a plain function)"""
    e = ids.at(z3.Int("?p"))
    return [ids.at] if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None


class Asked:
    """what the id argument stands for: n ids, the i-th and the position of an id"""
    def __init__(self, case, K, v):
        if case == "None":
            self.n, self.at, self.pos = K, (lambda i: I(i)), (lambda x: I(x))
        elif case == "int":
            self.n, self.at, self.pos = z3.IntVal(1), (lambda i: I(v)), (lambda x: z3.IntVal(0))
        else:
            self.n, self.at, self.pos = v.n, v.at, v.pos

    def before(self, x, k):
        return z3.And(0 <= self.pos(x), self.pos(x) < I(k), self.at(self.pos(x)) == I(x))

    def mem(self, x):
        return self.before(x, self.n)


class Fleet(Model):
    """self.workers: any number of workers; ghost: which are busy, with what action"""
    pytype = ("list",)

    def __init__(self, c, mode="step"):
        self.c, self.K, self.mode = c, c.Int("workers"), mode
        self.busy, self.pend = c.arr("busy", (self.K,), "bool"), c.arr("pend", (self.K,))
        self.val, self.seeds = c.arr("attr_set", (self.K,)), c.arr("seeds", (self.K,))
        self.hits, self.shut = c.arr("hits", (self.K,), "int"), c.arr("shut", (self.K,), "bool")
        c.reg(self, "workers")

    def m_snap(self, memo):
        memo[id(self)] = self
        return self

    def m_len(self, c):
        return self.K

    def m_iter(self, c):
        return IterV(self.K, lambda k: Worker(c, self, I(k)))

    def m_getitem(self, c, i):
        if not is_int(i):
            raise Unsupported("slice of the workers")
        if not c.pure and not c.branch(z3.And(-self.K <= I(i), I(i) < self.K)):
            raise PyRaise("IndexError")
        return Worker(c, self, z3.simplify(z3.If(I(i) < 0, I(i) + self.K, I(i))))

    def put(self, arr, k, v):
        f = arr.snap()
        self.c.set_arr(arr, lambda i: z3.If(I(i) == I(k), v, f(i)))

    def write(self, arr, k, v):
        self.put(arr, k, v)
        self.put(self.hits, k, self.hits.snap()(I(k)) + 1)


class Conn(Model):
    """the pipe end of one subprocess worker"""
    pytype = ("Connection",)

    def __init__(self, c, fleet, k):
        self.fleet, self.k = fleet, I(k)

    def m_snap(self, memo):
        memo[id(self)] = self
        return self

    def m_cmp(self, c, op, o):
        if op in ("==", "is") and isinstance(o, Conn):
            return self.k == o.k
        raise Unsupported("comparison of connections")


class Worker(Model):
    pytype = ("EnvWorker",)

    def __init__(self, c, fleet, k):
        self.fleet, self.k = fleet, I(k)

    def m_snap(self, memo):
        memo[id(self)] = self
        return self

    def m_ite(self, c, cond, o):
        return Worker(c, self.fleet, z3.If(cond, self.k, o.k))

    def m_cmp(self, c, op, o):
        if op in ("==", "is") and isinstance(o, Worker):
            return self.k == o.k
        raise Unsupported("comparison of workers")

    def m_getattr(self, c, name):
        F, k = self.fleet, self.k
        if name == "parent_remote":
            return Conn(c, F, k)
        if name == "send":
            def send(cc, a, kw):
                if F.mode == "reset":
                    cc.prove("send:a-reset-is-asked-for", z3.BoolVal(a[0] is None), "post")
                    cc.prove("send:options-passed-on", z3.BoolVal(set(kw) == {"options"}), "post")
                    v = R(kw.get("options", 0))
                else:
                    if a[0] is None or not is_scalar(a[0]):
                        raise Unsupported("send of something else than an action")
                    v = R(a[0])
                cc.prove("send:not-stepping", z3.Not(F.busy.snap()(k)), "post")
                F.put(F.busy, k, z3.BoolVal(True))
                F.put(F.pend, k, v)
            return Prim(name, send)
        if name == "recv":
            def recv(cc, a, kw):
                cc.prove("recv:a-result-is-due", F.busy.snap()(k), "post")
                p = F.pend.snap()(k)
                F.put(F.busy, k, z3.BoolVal(False))
                if F.mode == "reset":
                    return (OUT["robs"](k, p), Info(cc, k, p, -1))
                return tuple(OUT[x](k, p) for x in ("obs", "rew", "term", "trunc")) + (Info(cc, k, p, -1),)
            return Prim(name, recv)
        if name == "get_env_attr":
            def get(cc, a, kw):
                if not cc.pure:
                    cc.prove("attr:key", z3.BoolVal((a[0] if a else kw.get("key")) == "the_key"), "post")
                return ATTR(k)
            return Prim(name, get)
        if name == "set_env_attr":
            def put(cc, a, kw):
                m = dict(zip(("key", "value"), a), **kw)
                cc.prove("attr:key", z3.BoolVal(m.get("key") == "the_key"), "post")
                F.write(F.val, k, R(m["value"]))
            return Prim(name, put)
        if name == "seed":
            def seed(cc, a, kw):
                s = (list(a) + list(kw.values()) + [None])[0]
                v = NOSEED if s is None else R(s)
                F.write(F.seeds, k, v)
                return SEEDED(k, v)
            return Prim(name, seed)
        if name == "render":
            return Prim(name, lambda cc, a, kw: FRAME(k, R(kw.get("quality", -1))))
        if name == "close":
            return Prim(name, lambda cc, a, kw: F.write(F.shut, k, z3.BoolVal(True)))
        raise Unsupported("worker." + name)


NOSEED = z3.Real("no_seed")
ROW = ("obs", "rew", "term", "trunc")


def stack(c, v, ragged=False):
    """numpy.stack / numpy.array of a list of scalars or of info dicts"""
    if isinstance(v, (tuple, list)):
        v = PList(list(v))
    if isinstance(v, PList) and v.concrete:
        items = list(v.items)
        if not items:
            raise PyRaise("ValueError")
        if all(isinstance(x, Info) for x in items):
            pick = lambda f: (lambda i: f(items[0]) if len(items) == 1 else z3.If(I(i) == 0, f(items[0]), f(items[-1])))
            if len(items) > 1:
                raise Unsupported("several concrete infos")
            return Infos(c, len(items), lambda i: items[0])
        return c.lam((len(items),), lambda i: v.f(i), "real")
    iv = c.it.sym_iter(v)
    e = iv.get(z3.IntVal(0))
    if isinstance(e, Info):
        return Infos(c, I(iv.n), lambda i: iv.get(I(i)))
    if is_scalar(e):
        return c.lam((I(iv.n),), lambda i: R(iv.get(I(i))), "real")
    raise Unsupported("stack of structured items")


class _V(Contract):
    mode = "step"
    is_async = False
    trusted = (TRUST,)
    cls = "BaseVectorEnv"

    @property
    def externals(self):
        def st(c, a, k):
            x = a[0]
            if c.ragged and self.is_obs(c, x):
                raise PyRaise("ValueError")
            return stack(c, x)
        return {"numpy.stack": st, "numpy.array": lambda c, a, k: stack(c, a[0])}

    def is_obs(self, c, x):
        c.stacked = getattr(c, "stacked", 0) + 1
        return c.stacked == 1

    def havoc_list(self, c, r):
        """the local result list: rows with unknown contents"""
        if self.mode == "reset":
            W = {k: z3.Function(c.fresh_name("h_" + k), IN, s) for k, s in dict(obs=RL, who=IN, act=RL, eid=IN).items()}
            mk = lambda m: (W["obs"](I(m)), Info(c, W["who"](I(m)), W["act"](I(m)), W["eid"](I(m))))
        else:
            W = {k: z3.Function(c.fresh_name("h_" + k), IN, s) for k, s in dict(obs=RL, rew=RL, term=RL, trunc=RL, who=IN, act=RL, eid=IN).items()}
            mk = lambda m: tuple(W[x](I(m)) for x in ROW) + (Info(c, W["who"](I(m)), W["act"](I(m)), W["eid"](I(m))),)
        r.items, r.n_, r.dtype, r.f_ = None, c.nat("rows"), "obj", mk
        return True

    def make(self, c, case):
        c.ragged = False
        F = self.F = Fleet(c, self.mode)
        self.ready, self.waiting = Ids(c, "ready"), Ids(c, "waiting")
        self.conn = Ids(c, "conn", F)
        self.asy = self.is_async if not isinstance(self.is_async, str) else case[-1] == "async"
        self.closed = c.Bool("closed")
        m = Module.get("tianshou.env.venvs")
        self.wn, self.to = c.Int("wait_num"), c.Real("timeout")
        self.wcls = Rec(c, "worker_class", dict(wait=Fn(c, "wait", self.wait)))
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["BaseVectorEnv"]), dict(
            workers=F, env_num=F.K, is_closed=self.closed, is_async=self.asy, ready_id=self.ready, waiting_id=self.waiting, waiting_conn=self.conn,
            wait_num=self.wn, timeout=self.to, worker_class=self.wcls, _env_fns=Opaque("env_fns"))), "venv")
        self.o = o
        return o

    def wait(self, c, a, kw):
        m = dict(zip(("workers", "wait_num", "timeout"), a), **kw)
        ws = m["workers"]
        if not isinstance(ws, Ids):
            raise Unsupported("wait on something else than the waiting list")
        c.prove("wait:on-the-waiting-environments", z3.BoolVal(ws is self.o.fields["waiting_conn"]), "post")
        c.prove("wait:asked-number-and-time", z3.And(I(m["wait_num"]) == self.wn, R(m.get("timeout", 0)) == self.to), "post")
        r = Ids(c, "came", self.F)
        c.assume(c.forall(lambda i: ws.mem(r.at(i)), 0, r.n, pats=pat(r)))
        return r

    def ids(self, c, kind):
        if kind == "None":
            return None
        if kind == "int":
            return c.Int("one_id")
        return Ids(c, "asked")

    # ---- the invariant of the bookkeeping
    def book(self, c, ready, waiting, conn, busy):
        K = self.F.K
        return [("waiting-list-and-connections-agree", z3.And(I(waiting.n) == I(conn.n), c.forall(lambda i: waiting.at(i) == conn.at(i), 0, waiting.n, pats=pat(waiting)))),
                ("ids-exist", z3.And(c.forall(lambda i: z3.And(0 <= waiting.at(i), waiting.at(i) < K), 0, waiting.n, pats=pat(waiting)),
                                     c.forall(lambda i: z3.And(0 <= ready.at(i), ready.at(i) < K), 0, ready.n, pats=pat(ready)))),
                ("ready-or-waiting-never-both", c.forall(lambda x: z3.Xor(ready.mem(x), waiting.mem(x)), 0, K)),
                ("waiting-means-stepping", c.forall(lambda x: busy(x) == waiting.mem(x), 0, K))]

    def books(self, c, a=None):
        f = self.o.fields
        for nm in ("ready_id", "waiting_id", "waiting_conn"):
            if not isinstance(f[nm], Ids):
                raise Unsupported("bookkeeping list of another kind")
        return self.book(c, f["ready_id"], f["waiting_id"], f["waiting_conn"], self.F.busy.snap())

    def asked(self, kind, v):
        return Asked(kind, self.F.K, v)

    def pre(self, c, a):
        kind = c.case[0]
        A = self.A = self.asked(kind, a.get(self.idarg))
        K = self.F.K
        out = [("some", K >= 1), ("ids", z3.And(I(A.n) >= 1, c.forall(lambda i: z3.And(0 <= A.at(i), A.at(i) < K), 0, A.n)))]
        if self.asy:
            out += self.books(c)
        else:
            out += [("none-stepping", c.forall(lambda x: z3.Not(self.F.busy.snap()(x)), 0, K))]
        return out

    idarg = "id"

    def prepare(self, c, a):
        self.busy0, self.pend0 = self.F.busy.snap(), self.F.pend.snap()
        self.R0, self.W0, self.C0 = self.ready.m_snap({}), self.waiting.m_snap({}), self.conn.m_snap({})

    def refused(self, c):
        return c.exists(lambda i: z3.Or(self.W0.mem(self.A.at(i)), z3.Not(self.R0.mem(self.A.at(i)))), 0, self.A.n)

    def assert_inv(self, c, L):
        return [("all-ready-so-far", c.forall(lambda i: z3.And(self.R0.mem(self.A.at(i)), z3.Not(self.W0.mem(self.A.at(i)))), 0, L.k))]

    def untouched(self, c):
        b, p = self.F.busy.snap(), self.F.pend.snap()
        f = self.o.fields
        out = [("nothing-sent", c.forall(lambda x: z3.And(b(x) == self.busy0(x), p(x) == self.pend0(x)), 0, self.F.K))]
        for nm, was in (("ready_id", self.R0), ("waiting_id", self.W0), ("waiting_conn", self.C0)):
            out.append((nm + "-kept", z3.And(I(f[nm].n) == I(was.n), c.forall(lambda i: f[nm].at(i) == was.at(i), 0, was.n))))
        return out


def row_ok(row, e, act, mode="step"):
    """one result row is environment e's answer to that action, and says so"""
    if mode == "reset":
        o, i = row
        return z3.And(R(o) == OUT["robs"](I(e), act), i.who == I(e), i.act == act)
    return z3.And(*[R(v) == OUT[nm](I(e), act) for nm, v in zip(ROW, row)], row[4].who == I(e), row[4].act == act, row[4].eid == I(e))


class StepSync(_V):
    """synchronous step: row i is environment id[i]'s answer to action i (in the order asked), every asked environment got exactly its own
    action and one call, no other environment is touched; for any number of environments, ids in any order, observations stackable or not"""
    target = VE + ".step"
    argorder = ("self", "action", "id")
    cases = tuple((k, r) for k in ASK for r in (False, True))
    is_async = False

    def params(self, c, case):
        o = self.make(c, case)
        c.ragged = case[1]
        self.act = c.arr("action", (c.nat("n_act"),))
        self.af = self.act.snap()
        return dict(self=o, action=self.act, id=self.ids(c, case[0]))

    def raises(self, c, a, old):
        return [("AssertionError", z3.Or(self.closed, I(self.act.shape[0]) != I(self.A.n)))]

    def post_exc(self, c, a, old, exc):
        return self.untouched(c)

    def pend_of(self, x):
        return self.af(self.A.pos(x))

    def sending(self, c, L):
        b, p, A = self.F.busy.snap(), self.F.pend.snap(), self.A
        return [("sent-so-far", c.forall(lambda x: z3.And(b(x) == A.before(x, L.k), p(x) == z3.If(A.before(x, L.k), self.pend_of(x), self.pend0(x))), 0, self.F.K))]

    def receiving(self, c, L):
        b, p, A = self.F.busy.snap(), self.F.pend.snap(), self.A
        out = [("received-so-far", c.forall(lambda x: z3.And(b(x) == z3.And(A.mem(x), z3.Not(A.before(x, L.k))), p(x) == z3.If(A.mem(x), self.pend_of(x), self.pend0(x))), 0, self.F.K)),
               ("one-row-each", I(L.result.n) == L.k)]
        if not L.result.concrete:
            out.append(("rows-are-the-environments-asked", c.forall(lambda i: row_ok(L.result.f_(i), A.at(i), self.af(i)), 0, L.k)))
        return out

    @property
    def loops(self):
        return {("step", 0): Loop(self.sending), ("step", 1): Loop(self.receiving)}

    def post(self, c, a, old, res):
        A = self.A
        b, p = self.F.busy.snap(), self.F.pend.snap()
        obs, rew, term, trunc, info = res
        fs = [x.snap() for x in (obs, rew, term, trunc)]
        return [("one-row-per-environment-asked", z3.And(*[I(x.shape[0]) == I(A.n) for x in (obs, rew, term, trunc)], I(info.n) == I(A.n))),
                ("rows-in-the-order-asked", c.forall(lambda i: row_ok(tuple(f(i) for f in fs) + (info.at(i),), A.at(i), self.af(i)), 0, A.n)),
                ("each-got-its-own-action", c.forall(lambda x: p(x) == z3.If(A.mem(x), self.pend_of(x), self.pend0(x)), 0, self.F.K)),
                ("nobody-left-stepping", c.forall(lambda x: z3.Not(b(x)), 0, self.F.K))]


class StepSyncNone(StepSync):
    """synchronous step without an action is refused"""
    only_exceptional = True
    cases = (("None", False),)

    def params(self, c, case):
        d = super().params(c, case)
        d["action"] = None
        return d

    def raises(self, c, a, old):
        return [("AssertionError", self.closed), ("ValueError", z3.Not(self.closed))]


class StepAsync(StepSync):
    """asynchronous step: ids that are still stepping are refused and nothing changes; otherwise each asked environment receives its own action,
    every row returned is the answer of the environment whose id it carries, rows are of pairwise different environments that were waiting,
    and afterwards an environment is ready exactly when it is not waiting - nothing lost, nothing duplicated"""
    cases = tuple((k, r) for k in ASK for r in (False,)) + (("list", True),)
    is_async = True

    def raises(self, c, a, old):
        return [("AssertionError", z3.Or(self.closed, self.refused(c), I(self.act.shape[0]) != I(self.A.n)))]

    # the environments that may answer: waiting before, or asked now
    def due(self, x):
        return z3.Or(self.W0.mem(x), self.A.mem(x))

    def pend1(self, x):
        return z3.If(self.A.mem(x), self.pend_of(x), self.pend0(x))

    def sending(self, c, L):
        f, A = self.o.fields, self.A
        b, p, w, cn = self.F.busy.snap(), self.F.pend.snap(), f["waiting_id"], f["waiting_conn"]
        return [("sent-so-far", c.forall(lambda x: z3.And(b(x) == z3.Or(self.busy0(x), A.before(x, L.k)), p(x) == z3.If(A.before(x, L.k), self.pend_of(x), self.pend0(x))), 0, self.F.K)),
                ("waiting-so-far", c.forall(lambda x: w.mem(x) == z3.Or(self.W0.mem(x), A.before(x, L.k)), 0, self.F.K)),
                ("waiting-agree", z3.And(I(w.n) == I(cn.n), c.forall(lambda i: z3.And(w.at(i) == cn.at(i), 0 <= w.at(i), w.at(i) < self.F.K), 0, w.n)))]

    def polling(self, c, L):
        r = L.ready_conns
        if isinstance(r, PList):
            return [("none-yet", z3.BoolVal(r.concrete and not r.items))]
        return self.came_ok(c, r)

    def came_ok(self, c, r):
        return [("were-waiting", c.forall(lambda i: z3.And(self.due(r.at(i)), 0 <= r.at(i), r.at(i) < self.F.K), 0, r.n, pats=pat(r)))]

    def receiving(self, c, L):
        f, r = self.o.fields, L.ready_conns
        b, p, w, cn, rd = self.F.busy.snap(), self.F.pend.snap(), f["waiting_id"], f["waiting_conn"], f["ready_id"]
        K = self.F.K
        out = [("still-waiting", c.forall(lambda x: w.mem(x) == z3.And(self.due(x), z3.Not(r.before(x, L.k))), 0, K)),
               ("ready-again", c.forall(lambda x: rd.mem(x) == z3.Or(z3.And(self.R0.mem(x), z3.Not(self.A.mem(x))), r.before(x, L.k)), 0, K)),
               ("stepping-is-waiting", c.forall(lambda x: z3.And(b(x) == w.mem(x), p(x) == self.pend1(x)), 0, K)),
               ("waiting-agree", z3.And(I(w.n) == I(cn.n), c.forall(lambda i: z3.And(w.at(i) == cn.at(i), 0 <= w.at(i), w.at(i) < K), 0, w.n))),
               ("ready-exist", c.forall(lambda i: z3.And(0 <= rd.at(i), rd.at(i) < K), 0, rd.n)),
               ("one-row-each", I(L.result.n) == L.k)]
        if not L.result.concrete:
            out.append(("rows-of-those-that-came", c.forall(lambda i: row_ok(L.result.f_(i), r.at(i), self.pend1(r.at(i))), 0, L.k)))
        return out

    @property
    def loops(self):
        def fresh(c, L):
            r = Ids(c, "came", self.F)
            return r
        return {("step", 2): Loop(self.sending), ("step", 3): Loop(self.polling, havoc={"ready_conns": fresh}), ("step", 4): Loop(self.receiving),
                ("_assert_id", 0): Loop(self.assert_inv)}

    def post(self, c, a, old, res):
        obs, rew, term, trunc, info = res
        fs = [x.snap() for x in (obs, rew, term, trunc)]
        n = info.n
        e = lambda i: info.at(i).eid
        f = self.o.fields
        w, rd = f["waiting_id"], f["ready_id"]
        j, k = z3.Int("?j"), z3.Int("?k")
        K = self.F.K
        ret = lambda x: c.exists(lambda i: e(i) == x, 0, n)
        return [("as-many-of-each", z3.And(*[I(x.shape[0]) == I(n) for x in (obs, rew, term, trunc)], I(n) >= 1)),
                ("every-row-is-its-environments-answer", c.forall(lambda i: z3.And(self.due(e(i)), row_ok(tuple(g(i) for g in fs) + (info.at(i),), e(i), self.pend1(e(i)))), 0, n)),
                ("no-environment-twice", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < I(n)), e(j) != e(k)))),
                ("returned-ones-are-ready", c.forall(lambda i: z3.And(rd.mem(e(i)), z3.Not(w.mem(e(i)))), 0, n)),
                ("the-others-keep-waiting", c.forall(lambda x: z3.Implies(z3.And(self.due(x), z3.Not(ret(x))), w.mem(x)), 0, K)),
                ("ready-ones-not-asked-stay-ready", c.forall(lambda x: z3.Implies(z3.And(self.R0.mem(x), z3.Not(self.A.mem(x))), rd.mem(x)), 0, K))] + self.books(c)


class StepFetch(StepAsync):
    """asynchronous step without an action: nothing is sent; the rows are of waiting environments"""
    cases = (("None", False),)

    def params(self, c, case):
        d = super().params(c, case)
        d["action"] = None
        return d

    def raises(self, c, a, old):
        return [("AssertionError", self.closed)]

    def pre(self, c, a):
        out = super().pre(c, a)
        self.A = Asked("int", self.F.K, z3.IntVal(-1))     # nobody is asked
        return out


class Reset(_V):
    """reset: row i is the answer of environment id[i] to a reset with the given options; every asked environment is reset exactly once and no
    other is touched; asynchronously, environments still stepping are refused and nothing changes"""
    target = VE + ".reset"
    argorder = ("self", "env_id")
    mode = "reset"
    idarg = "env_id"
    is_async = "case"
    cases = tuple((k, r, m) for k in ASK for r in (False,) for m in ("sync", "async")) + (("list", True, "sync"),)

    def params(self, c, case):
        o = self.make(c, case)
        c.ragged = case[1]
        self.opt = c.Real("options")
        return dict(self=o, env_id=self.ids(c, case[0]), options=self.opt)

    def raises(self, c, a, old):
        return [("AssertionError", z3.Or(self.closed, self.refused(c)) if self.asy else self.closed)]

    def post_exc(self, c, a, old, exc):
        return self.untouched(c)

    def state(self, c, k1, k2):
        """the first k1 were sent to, the first k2 answered"""
        b, p, A = self.F.busy.snap(), self.F.pend.snap(), self.A
        return c.forall(lambda x: z3.And(b(x) == z3.Or(self.busy0(x), z3.And(A.before(x, k1), z3.Not(A.before(x, k2)))),
                                         p(x) == z3.If(A.before(x, k1), self.opt, self.pend0(x))), 0, self.F.K)

    def sending(self, c, L):
        return [("sent-so-far", self.state(c, L.k, 0))]

    def receiving(self, c, L):
        r = L.comp_
        out = [("received-so-far", self.state(c, self.A.n, L.k)), ("one-row-each", I(r.n) == L.k)]
        if not r.concrete:
            out.append(("rows-are-the-environments-asked", c.forall(lambda i: row_ok(r.f_(i), self.A.at(i), self.opt, "reset"), 0, L.k)))
        return out

    @property
    def loops(self):
        return {("reset", 0): Loop(self.sending), ("_assert_id", 0): Loop(self.assert_inv)}

    @property
    def comps(self):
        return {("reset", 0): Loop(self.receiving)}

    def post(self, c, a, old, res):
        obs, info = res
        A, f = self.A, obs.snap()
        b, p = self.F.busy.snap(), self.F.pend.snap()
        return [("one-row-per-environment-asked", z3.And(I(obs.shape[0]) == I(A.n), I(info.n) == I(A.n))),
                ("rows-in-the-order-asked", c.forall(lambda i: row_ok((f(i), info.at(i)), A.at(i), self.opt, "reset"), 0, A.n)),
                ("exactly-these-were-reset", c.forall(lambda x: z3.And(b(x) == self.busy0(x), p(x) == z3.If(A.mem(x), self.opt, self.pend0(x))), 0, self.F.K))] + \
            (self.books(c) if self.asy else [])


class GetAttr(_V):
    """get_env_attr: the i-th value is that of environment id[i]; asynchronously, environments still stepping are refused"""
    target = VE + ".get_env_attr"
    argorder = ("self", "key", "id")
    is_async = "case"
    cases = tuple((k, m) for k in ASK for m in ("sync", "async"))

    def params(self, c, case):
        return dict(self=self.make(c, case), key="the_key", id=self.ids(c, case[0]))

    def raises(self, c, a, old):
        return [("AssertionError", z3.Or(self.closed, self.refused(c)) if self.asy else self.closed)]

    @property
    def loops(self):
        return {("_assert_id", 0): Loop(self.assert_inv)}

    def post(self, c, a, old, res):
        A = self.A
        iv = c.it.sym_iter(res)
        return [("one-value-per-environment-asked", I(iv.n) == I(A.n)),
                ("values-of-the-environments-asked", c.forall(lambda i: R(iv.get(i)) == ATTR(A.at(i)), 0, A.n))] + self.untouched(c)


class SetAttr(GetAttr):
    """set_env_attr: exactly the asked environments are given the value, once each"""
    target = VE + ".set_env_attr"
    argorder = ("self", "key", "value", "id")

    def params(self, c, case):
        self.v = c.Real("value")
        return dict(self=self.make(c, case), key="the_key", value=self.v, id=self.ids(c, case[0]))

    def prepare(self, c, a):
        super().prepare(c, a)
        self.val0, self.hits0 = self.F.val.snap(), self.F.hits.snap()

    def given(self, c, k):
        v, h, A = self.F.val.snap(), self.F.hits.snap(), self.A
        return c.forall(lambda x: z3.And(v(x) == z3.If(A.before(x, k), self.v, self.val0(x)), h(x) == self.hits0(x) + z3.If(A.before(x, k), 1, 0)), 0, self.F.K)

    @property
    def loops(self):
        return {("_assert_id", 0): Loop(self.assert_inv), ("set_env_attr", 0): Loop(lambda c, L: [("given-so-far", self.given(c, L.k))])}

    def post(self, c, a, old, res):
        return [("exactly-the-asked-ones-once", self.given(c, self.A.n))] + self.untouched(c)


class AssertId(GetAttr):
    """_assert_id: refuses exactly when one of the ids is waiting or not ready"""
    target = VE + "._assert_id"
    argorder = ("self", "id")
    cases = (("int", "async"), ("list", "async"))

    def params(self, c, case):
        v = self.ids(c, case[0])
        self.one = v
        return dict(self=self.make(c, case), id=c.reg(PList([v]), "list") if case[0] == "int" else v)

    def asked(self, kind, v):
        return Asked(kind, self.F.K, self.one)

    def raises(self, c, a, old):
        return [("AssertionError", self.refused(c))]

    def post(self, c, a, old, res):
        return self.untouched(c)


class _All(_V):
    """methods over all the workers"""
    is_async = False

    def pre(self, c, a):
        return [("some", self.F.K >= 1)]

    def raises(self, c, a, old):
        return [("AssertionError", self.closed)]

    def listed(self, c, res, n):
        if isinstance(res, PList) and res.concrete:
            return c.lam((len(res.items),), lambda i: res.f(i), "real").snap(), len(res.items)
        iv = c.it.sym_iter(res)
        return (lambda i: R(iv.get(i))), iv.n


class Seed(_All):
    """seed: environment i is given the i-th seed (seed + i for one number, none for None) exactly once and the i-th answer is its own"""
    target = VE + ".seed"
    argorder = ("self", "seed")
    cases = (("None",), ("int",), ("list",))

    def params(self, c, case):
        o = self.make(c, case)
        k = case[0]
        if k == "None":
            v, self.want = None, lambda i: NOSEED
        elif k == "int":
            s = c.Int("seed")
            v, self.want = s, lambda i: z3.ToReal(s + I(i))
        else:
            n = c.nat("n_seeds")
            arr = c.arr("seed_list", (n,), "int").snap()
            self.m = n
            v, self.want = c.reg(PList(None, n, lambda i: arr(I(i)), "int"), "list"), lambda i: z3.ToReal(arr(I(i)))
        return dict(self=o, seed=v)

    def prepare(self, c, a):
        self.s0, self.h0 = self.F.seeds.snap(), self.F.hits.snap()

    def raises(self, c, a, old):
        out = super().raises(c, a, old)
        return out + ([("ValueError", z3.And(z3.Not(self.closed), self.m != self.F.K))] if c.case[0] == "list" else [])

    def upto(self, c, k):
        s, h = self.F.seeds.snap(), self.F.hits.snap()
        return c.forall(lambda x: z3.And(s(x) == z3.If(x < k, self.want(x), self.s0(x)), h(x) == self.h0(x) + z3.If(x < k, 1, 0)), 0, self.F.K)

    def inv(self, c, L):
        r = L.comp_
        out = [("seeded-so-far", self.upto(c, L.k)), ("one-each", I(r.n) == L.k)]
        if not r.concrete:
            out.append(("answers", c.forall(lambda i: R(r.f_(i)) == SEEDED(i, self.want(i)), 0, L.k)))
        return out

    def havoc_list(self, c, r):
        h = z3.Function(c.fresh_name("h_seed"), IN, RL)
        r.items, r.n_, r.dtype, r.f_ = None, c.nat("rows"), "real", lambda m: h(I(m))
        return True

    @property
    def comps(self):
        # the comprehension over the workers is the second (the first builds the seeds of the int case)
        return {("seed", 1): Loop(self.inv)}

    def post(self, c, a, old, res):
        f, n = self.listed(c, res, self.F.K)
        return [("each-environment-its-own-seed-once", self.upto(c, self.F.K)), ("one-answer-each", I(n) == self.F.K),
                ("answers-in-order", c.forall(lambda i: R(f(i)) == SEEDED(i, self.want(i)), 0, self.F.K))]


class Render(_All):
    """render: one frame per environment, in order, with the given options; asynchronously refused while environments are stepping"""
    target = VE + ".render"
    argorder = ("self",)
    is_async = "case"
    cases = (("None", "sync"), ("None", "async"))

    def params(self, c, case):
        self.q = c.Real("quality")
        return dict(self=self.make(c, case), quality=self.q)

    def raises(self, c, a, old):
        out = super().raises(c, a, old)
        return out + ([("RuntimeError", z3.And(z3.Not(self.closed), I(self.waiting.n) > 0))] if self.asy else [])

    def post(self, c, a, old, res):
        f, n = self.listed(c, res, self.F.K)
        return [("one-frame-each", I(n) == self.F.K), ("frames-in-order", c.forall(lambda i: R(f(i)) == FRAME(i, self.q), 0, self.F.K))]


class Close(_All):
    """close: every worker is closed exactly once, and the vectorised environment refuses further use"""
    target = VE + ".close"
    argorder = ("self",)
    cases = (("None",),)

    def params(self, c, case):
        return dict(self=self.make(c, case))

    def prepare(self, c, a):
        self.s0, self.h0 = self.F.shut.snap(), self.F.hits.snap()

    def upto(self, c, k):
        s, h = self.F.shut.snap(), self.F.hits.snap()
        return c.forall(lambda x: z3.And(s(x) == z3.Or(x < k, self.s0(x)), h(x) == self.h0(x) + z3.If(x < k, 1, 0)), 0, self.F.K)

    @property
    def loops(self):
        return {("close", 0): Loop(lambda c, L: [("closed-so-far", self.upto(c, L.k))])}

    def post(self, c, a, old, res):
        return [("every-worker-closed-once", self.upto(c, self.F.K)), ("marked-closed", B(self.o.fields["is_closed"]))]


SUB = "tianshou.env.worker.subproc:SubprocEnvWorker"
DUM = "tianshou.env.worker.dummy:DummyEnvWorker"


class SubprocWait(Contract):
    """subprocess wait: pairwise different members of the list it is given, and without a time limit at least the number asked for or all of
    them; the list given is not changed"""
    target = SUB + ".wait"
    argorder = ("workers", "wait_num", "timeout")
    cases = (False, True)
    trusted = ("multiprocessing.connection.wait returns pairwise different members of the list it is given, each ready to be read; the clock only moves forward",)

    @property
    def externals(self):
        def ready(c, a, kw):
            ws = a[0]
            if not isinstance(ws, Ids) or ws.kind is not Conn:
                raise Unsupported("wait on something else than connections")
            r = Ids(c, "news", ws.fleet, kind=Conn)
            c.assume(c.forall(lambda i: ws.mem(r.at(i)), 0, r.n, pats=[r.at]))
            return r
        return {"multiprocessing.connection.wait": ready, "time.time": lambda c, a, k: c.Real("now")}

    def params(self, c, case):
        F = Fleet(c)
        self.ws = Ids(c, "workers", F)
        self.w0 = self.ws.m_snap({})
        self.wn = c.Int("wait_num")
        return dict(workers=self.ws, wait_num=self.wn, timeout=c.Real("timeout") if case else None)

    def pre(self, c, a):
        return [("asked-some", self.wn >= 1)]

    def setup(self, c, L):
        v = L.ready_conns
        if isinstance(v, PList) and v.concrete and not v.items:
            L.frame.locals["ready_conns"] = Ids(c, "ready_conns", L.conns.fleet, z3.IntVal(0), lambda i: z3.IntVal(-1), lambda x: z3.IntVal(-1), Conn)

    def inv(self, c, L):
        r, m, w = L.ready_conns, L.remain_conns, self.w0
        x = z3.Int(c.fresh_name("?x"))
        return [("ready-and-remaining-split-the-list", z3.ForAll([x], z3.And(w.mem(x) == z3.Or(r.mem(x), m.mem(x)), z3.Not(z3.And(r.mem(x), m.mem(x))))))]

    def out_inv(self, c, L):
        v = L.comp_
        r = L.frame.closure.locals["ready_conns"]
        out = [("one-each", I(v.n) == L.k)]
        if not v.concrete:
            out.append(("the-worker-of-each", c.forall(lambda i: v.f_(i).k == r.at(i), 0, L.k)))
        return out

    def havoc_list(self, c, r):
        h = z3.Function(c.fresh_name("h_w"), IN, IN)
        r.items, r.n_, r.dtype, r.f_ = None, c.nat("rows"), "obj", lambda m: Worker(c, self.ws.fleet, h(I(m)))
        return True

    @property
    def loops(self):
        return {("wait", 0): Loop(self.inv, setup=self.setup, havoc={"remain_conns": lambda c, L: Ids(c, "remain", self.ws.fleet, kind=Conn)})}

    @property
    def comps(self):
        return {("wait", 2): Loop(self.out_inv)}

    def post(self, c, a, old, res):
        w, now = self.w0, a["workers"]
        iv = c.it.sym_iter(res)
        k = (lambda i: z3.IntVal(-1)) if isinstance(res, PList) and res.concrete and not res.items else (lambda i: iv.get(i).k)
        i, j, x = z3.Int("?i"), z3.Int("?j"), z3.Int("?x")
        out = [("members-of-the-list", c.forall(lambda i: w.mem(k(i)), 0, iv.n)),
               ("pairwise-different", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < I(iv.n)), k(i) != k(j)))),
               ("list-not-changed", z3.And(I(now.n) == I(w.n), c.forall(lambda i: now.at(i) == w.at(i), 0, w.n))),
               ("a-new-list", z3.BoolVal(res is not now))]
        if not c.case:
            out.append(("enough-or-all", z3.Or(I(iv.n) >= self.wn, c.forall(lambda i: c.exists(lambda m: k(m) == w.at(i), 0, iv.n), 0, w.n))))
        return out


class DummyWait(Contract):
    """sequential wait: every worker it is given, in a list of its own"""
    target = DUM + ".wait"
    argorder = ("workers", "wait_num", "timeout")

    def params(self, c, case):
        self.ws = Ids(c, "workers", Fleet(c))
        self.w0 = self.ws.m_snap({})
        return dict(workers=self.ws, wait_num=c.Int("wait_num"), timeout=None)

    def post(self, c, a, old, res):
        iv = c.it.sym_iter(res)
        return [("all-of-them", z3.And(I(iv.n) == I(self.w0.n), c.forall(lambda i: iv.get(i).k == self.w0.at(i), 0, iv.n))), ("a-new-list", z3.BoolVal(res is not a["workers"]))]


class DummySend(Contract):
    """sequential worker: send(action) steps its environment once with that action (None resets it with the options), recv returns that very result"""
    target = DUM + ".send"
    cases = ("step", "reset")
    trusted = ("the environment's step and reset are recorded calls",)

    def params(self, c, case):
        ev = c.events
        self.out = dict(step=Opaque("step-result"), reset=Opaque("reset-result"))
        env = Rec(c, "env", {n: Fn(c, n, lambda cc, a, k, n=n: ev.append((n, list(a), dict(k))) or self.out[n]) for n in ("step", "reset")})
        m = Module.get("tianshou.env.worker.dummy")
        self.o = c.reg(Obj(c.it.ver.get_class(m, m.defs["DummyEnvWorker"]), dict(env=env, result=Opaque("stale"), is_closed=False)), "worker")
        self.act, self.opt = c.arr("action", (c.nat("dim"),)), Opaque("options")
        return dict(self=self.o, action=self.act if case == "step" else None, **({} if case == "step" else {"options": self.opt}))

    def run(self, it, fn, a):
        it.call_contract_target(fn, a)
        return it.call(it.getattr(self.o, "recv"), [], {})

    def post(self, c, a, old, res):
        ev = c.events
        if c.case == "step":
            return [("stepped-once-with-the-action", z3.BoolVal(len(ev) == 1 and ev[0][0] == "step" and len(ev[0][1]) == 1 and ev[0][1][0] is self.act and not ev[0][2])),
                    ("its-result-is-received", z3.BoolVal(res is self.out["step"]))]
        return [("reset-once-with-the-options", z3.BoolVal(len(ev) == 1 and ev[0][0] == "reset" and not ev[0][1] and set(ev[0][2]) == {"options"} and ev[0][2]["options"] is self.opt)),
                ("its-result-is-received", z3.BoolVal(res is self.out["reset"]))]


PROOFS = {"P20": [StepSync, StepSyncNone, StepAsync, StepFetch, Reset, GetAttr, SetAttr, AssertId, Seed, Render, Close, SubprocWait, DummyWait, DummySend]}
LEMMAS = {}
