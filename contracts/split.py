"""P17: Batch.split as a generator with a ghost account of what has been handed out."""
import z3
from pyvc.values import *
from pyvc.engine import *

BM = "tianshou.data.batch"


class Rows(Model):
    """self[index]: the rows of the batch at those positions (Batch.__getitem__ with an index array, P18)"""
    pytype = ("Batch",)

    def __init__(self, idx):
        self.idx = idx


class Split(Contract):
    """for every length, size and flag combination: the minibatches handed out are consecutive, non-overlapping pieces of one
    ordering of all rows (the identity without shuffling, a permutation with it), of the documented sizes, and end exactly
    when every row has been handed out"""
    target = BM + ":Batch.split"
    cases = tuple((sh, me) for sh in (True, False) for me in (True, False))
    trusted = ("Batch.__len__ is the number of rows n; Batch.__getitem__(index array) selects those rows of every field (P18)",
               "np.random.permutation(n) is some permutation of 0..n-1")

    @property
    def overrides(self):
        return {BM + ":Batch.__len__": lambda c, a, k: self.n, BM + ":Batch.__getitem__": lambda c, a, k: Rows(a[1])}

    def params(self, c, case):
        m = Module.get(BM)
        o = c.reg(Obj(c.it.ver.get_class(m, m.defs["Batch"])), "batch")
        self.n = c.nat("rows")
        self.out = c.reg(Obj(o.cls, {"taken": z3.IntVal(0), "pieces": z3.IntVal(0), "closed": False}), "ghost")
        return dict(self=o, size=c.Int("size"), shuffle=case[0], merge_last=case[1])

    def size(self, a):
        return z3.If(a["size"] == -1, self.n, a["size"])

    def prepare(self, c, a):
        self.a0 = dict(a)

    def raises(self, c, a, old):
        return [("AssertionError", self.size(old) < 1)]

    def on_yield(self, c, fr, v):
        n, s, g = self.n, self.size(self.a0), self.out.fields
        if not isinstance(v, Rows) or not isinstance(v.idx, Arr):
            raise Unsupported("split yields something else than an index selection of the batch")
        j, ln = v.idx.snap(), I(v.idx.shape[0])
        T = I(g["taken"])
        order = self.order(c, fr)
        merge = self.a0["merge_last"]
        c.prove("piece-continues-where-the-last-ended", c.forall(lambda k: j(k) == order(T + k), 0, ln))
        c.prove("piece-not-empty", ln >= 1)
        c.prove("never-beyond-the-last-row", T + ln <= n)
        c.prove("nothing-after-the-last-piece", z3.Not(B(g["closed"])))
        last = T + ln == n
        c.prove("every-piece-but-the-last-has-size-rows", z3.Or(ln == s, last))
        if merge:
            # a remainder never stands alone (unless it is the whole batch): it is merged into the last full piece
            c.prove("remainder-merged", z3.Or(ln == s, z3.And(last, z3.Or(T == 0, ln > s), ln < 2 * s)))
        else:
            c.prove("remainder-is-the-last-piece", z3.Or(ln == s, z3.And(last, ln < s)))
        c.set_field(self.out, "taken", T + ln)
        c.set_field(self.out, "closed", z3.And(last))

    def order(self, c, fr):
        """the row order handed out: the identity without shuffling, otherwise the permutation that was drawn"""
        if not self.a0["shuffle"]:
            return lambda k: I(k)
        perms = [o for l, o in c.objs.items() if isinstance(o, Arr) and "inv" in o.meta]
        if len(perms) != 1:
            raise Unsupported("no unique permutation")
        self.perm = perms[0]
        c.prove("one-permutation-of-all-rows", I(perms[0].shape[0]) == self.n)
        return perms[0].snap()

    def inv(self, c, L):
        g = self.out.fields
        n = self.n
        out = [("taken", z3.And(z3.If(L.k == L.n, z3.And(I(g["taken"]) == n), I(g["taken"]) == I(L.at(L.k))))),
               ("closed", B(g["closed"]) == (z3.And(L.k > 0, I(g["taken"]) == n)))]
        s = self.size(self.a0)
        out.append(("remainder-unchanged", z3.Implies(L.k < L.n, PYMOD(n - I(L.at(L.k)), s) == PYMOD(n, s))))
        if self.a0["merge_last"]:
            out.append(("remainder-not-alone", z3.Implies(z3.And(0 < L.k, L.k < L.n, PYMOD(n, s) > 0), n - I(L.at(L.k)) > s)))
        return out

    def hint(self, c, L):
        # instance of (x - s) mod s == x mod s for s > 0
        s, x = self.size(self.a0), self.n - I(L.at(L.k))
        return [z3.Implies(s > 0, z3.And(PYMOD(x - s, s) == PYMOD(x, s)))]

    @property
    def loops(self):
        return {0: Loop(self.inv, hint=self.hint)}

    def post(self, c, a, old, res):
        return [("every-row-handed-out", I(self.out.fields["taken"]) == self.n)]


PROOFS = {"P17": [Split]}
