"""Reference model of the replay buffers (plain Python lists) and a driver that runs random histories on both."""
import numpy as np
from tianshou.data import (Batch, CachedReplayBuffer, HERReplayBuffer, HERVectorReplayBuffer, PrioritizedReplayBuffer,
                           PrioritizedVectorReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer)


class Sub:
    """one sub-buffer: the chronological list of (slot, row) it holds"""

    def __init__(self, cap, offset=0):
        self.cap, self.offset = cap, offset
        self.ep_ret, self.ep_len, self.ep_start = 0.0, 0, 0
        self.clear()

    def clear(self):
        self.order = []            # [(slot, row)] oldest first
        self.ins = 0

    def reset(self, keep=False):
        self.clear()
        self.ep_start = 0
        if not keep:
            self.ep_ret, self.ep_len = 0.0, 0

    def _put(self, row):
        slot = self.ins
        self.order = [(s, r) for s, r in self.order if s != slot] + [(slot, row)]
        self.ins = (slot + 1) % self.cap
        return slot

    def add(self, row):
        slot = self._put(row)
        self.ep_ret += row["rew"]
        self.ep_len += 1
        start = self.ep_start
        done = row["terminated"] or row["truncated"]
        res = (slot, self.ep_ret if done else 0.0, self.ep_len if done else 0, start)
        if done:
            self.ep_ret, self.ep_len, self.ep_start = 0.0, 0, self.ins
        return res

    def extend(self, rows):
        slots = [self._put(r) for r in rows]
        if self.ep_len == 0 and slots:
            self.ep_start = self.ins
        return slots

    # queries, all in local slots
    def slots(self):
        return [s for s, _ in self.order]

    def row(self, slot):
        return dict(self.order)[slot] if False else next(r for s, r in self.order if s == slot)

    def done(self, k):
        r = self.order[k][1]
        return bool(r["terminated"] or r["truncated"])

    def prev(self, slot):
        k = self.slots().index(slot)
        return slot if k == 0 or self.done(k - 1) else self.order[k - 1][0]

    def next(self, slot):
        k = self.slots().index(slot)
        return slot if k == len(self.order) - 1 or self.done(k) else self.order[k + 1][0]

    def unfinished(self):
        return [self.order[-1][0]] if self.order and not self.done(len(self.order) - 1) else []


class Model:
    def __init__(self, caps):
        self.subs, o = [], 0
        for c in caps:
            self.subs.append(Sub(c, o))
            o += c
        self.total = o

    def sub_of(self, idx):
        for s in self.subs:
            if s.offset <= idx < s.offset + s.cap:
                return s
        raise IndexError(idx)

    def all(self):
        return [s.offset + k for s in self.subs for k in s.slots()]

    def row(self, idx):
        s = self.sub_of(idx)
        return s.row(idx - s.offset)

    def prev(self, idx):
        s = self.sub_of(idx)
        return s.offset + s.prev(idx - s.offset)

    def next(self, idx):
        s = self.sub_of(idx)
        return s.offset + s.next(idx - s.offset)

    def unfinished(self):
        return [s.offset + k for s in self.subs for k in s.unfinished()]

    def length(self):
        return sum(len(s.order) for s in self.subs)


# ----------------------------------------------------------------------------------------------- rows
def reward_fn(ag, g):
    return -np.abs(ag - g).sum(-1) if ag.ndim > 1 else -np.abs(ag - g)


class RowMaker:
    """rows with unique content, so that any mix-up is visible"""

    def __init__(self, rng, kind="vec", stacked=0, p_done=0.3, extra=True, vec_rew=False, late=None):
        self.late, self.now = late, 0        # from the late-th operation on, rows carry fields never seen before
        self.rng, self.kind, self.stacked, self.p_done, self.extra = rng, kind, stacked, p_done, extra
        self.t = 0
        self.forced = None

    def obs(self, t):
        if self.kind == "vec":
            o = np.array([t, t + 0.5, -t], np.float64)
        elif self.kind == "img":
            o = np.full((2, 2), t % 251, np.uint8) + np.arange(4, dtype=np.uint8).reshape(2, 2)
        elif self.kind == "dict":
            return {"a": np.array([t, 2 * t], np.float32), "b": {"c": np.array(t, np.int64)}}
        elif self.kind == "goal":
            return {"observation": np.array([t, t + 0.25]), "achieved_goal": np.array([t * 1.0, -t]), "desired_goal": np.array([-1000.0 - t, 7.0])}
        else:
            o = np.array(t, np.int64)
        if self.stacked:
            return np.stack([o - 1] * (self.stacked - 1) + [o])
        return o

    def __call__(self, done=None):
        self.t += 1
        t = self.t
        d = self.rng.rand() < self.p_done if done is None else done
        term = bool(d and self.rng.rand() < 0.6)
        trunc = bool(d and (not term or self.rng.rand() < 0.3))
        row = {"obs": self.obs(t), "act": np.array([t % 7, t * 0.125]), "rew": float(self.rng.randint(-8, 9)) / 4 + 0.0,
               "terminated": term, "truncated": trunc, "obs_next": self.obs(t + 100000 if self.kind not in ("img",) else t + 7)}
        if self.extra:
            row["info"] = {"id": np.array(t, np.int64), "n": {"x": np.array([t, t + 1.0])}}
            row["policy"] = {"logp": np.array(-t * 0.5)}
        if self.late is not None and self.now >= self.late:
            row["info"] = dict(row.get("info", {}), late=np.array([t * 3.0, 1.0]))
            row["policy"] = dict(row.get("policy", {}), late=np.array(t, np.int64))
        return row


def to_batch(row):
    r = dict(row)
    r["rew"] = np.array(r["rew"]) if not isinstance(r["rew"], np.ndarray) else r["rew"]
    r["terminated"], r["truncated"] = np.array(r["terminated"]), np.array(r["truncated"])
    return Batch(r)


def stack_rows(rows):
    def st(vs):
        if isinstance(vs[0], dict):
            return {k: st([v[k] for v in vs]) for k in vs[0]}
        return np.stack([np.asarray(v) for v in vs])
    return Batch(st(rows))


def fields(row, save_obs_next=True, last_only=False):
    """flat {path: value} of a row as the buffer is expected to hold it"""
    out = {}

    def rec(p, v):
        if isinstance(v, dict):
            for k in v:
                rec(p + (k,), v[k])
        else:
            out[p] = np.asarray(v)
    for k, v in row.items():
        if k == "obs_next" and not save_obs_next:
            continue
        if last_only and k in ("obs", "obs_next"):
            v = v[-1]
        rec((k,), v)
    out[("done",)] = np.asarray(row["terminated"] or row["truncated"])
    return out


def get_path(b, path):
    b = getattr(b, path[0])
    for k in path[1:]:
        b = b[k]
    return b


# ----------------------------------------------------------------------------------------------- the pair real/model
class Pair:
    def __init__(self, kind, caps, rows, **opts):
        self.kind, self.caps, self.rows, self.opts = kind, list(caps), rows, dict(opts)
        o = self.opts
        if kind == "single":
            self.real = ReplayBuffer(caps[0], **o)
        elif kind == "prio":
            self.real = PrioritizedReplayBuffer(caps[0], 0.6, 0.4, **o)
        elif kind == "her":
            self.real = HERReplayBuffer(caps[0], compute_reward_fn=reward_fn, horizon=50, future_k=8, **o)
        elif kind == "vector":
            assert len(set(caps)) == 1
            self.real = VectorReplayBuffer(sum(caps), len(caps), **o)
        elif kind == "vector-ceil":     # total size not divisible: every sub-buffer gets the ceiling
            self.real = VectorReplayBuffer(sum(caps) - (len(caps) - 1), len(caps), **o)
        elif kind == "priovec":
            self.real = PrioritizedVectorReplayBuffer(sum(caps), len(caps), alpha=0.6, beta=0.4, **o)
        elif kind == "hervec":
            self.real = HERVectorReplayBuffer(sum(caps), len(caps), compute_reward_fn=reward_fn, horizon=50, future_k=8, **o)
        elif kind == "manager":
            self.real = ReplayBufferManager([ReplayBuffer(c, **o) for c in caps])
        elif kind == "cached":          # caps = [main, cache...], equal caches
            self.real = CachedReplayBuffer(ReplayBuffer(caps[0], **o), len(caps) - 1, caps[1])
        else:
            raise ValueError(kind)
        self.model = Model(caps)
        self.vector = kind not in ("single", "prio", "her")
        self.log = []
        self.save_next = not o.get("ignore_obs_next", False)
        self.last_only = o.get("save_only_last_obs", False)

    # ---- operations: each performs the real call and returns (result of real, expected result)
    def add(self, ids=None, dones=None, stacked=None, rows=None):
        self.rows.now = len(self.log)
        if not self.vector:
            row = self.rows(None if dones is None else dones[0]) if rows is None else rows[0]
            self.log.append(("add", self.brief(row)))
            if stacked:
                got = self.real.add(stack_rows([row]), buffer_ids=[0])
            else:
                got = self.real.add(to_batch(row))
            want = [self.model.subs[0].add(row)]
            self.last_rows = [row]
            return got, want
        n = len(self.caps) - (self.kind == "cached")
        use = list(range(n)) if ids is None else list(ids)
        rows = [self.rows(None if dones is None else dones[k]) for k in range(len(use))] if rows is None else rows
        self.log.append(("add", ids, [self.brief(r) for r in rows]))
        b = stack_rows(rows)
        self.last_rows = rows
        arg = None if ids is None else (np.array(ids) if len(self.log) % 2 else list(ids))
        got = self.real.add(b, buffer_ids=arg)
        want = []
        for r, i in zip(rows, use):
            s = self.model.subs[i + (self.kind == "cached")]
            k, ret, ln, st = s.add(r)
            want.append([k + s.offset, ret, ln, st + s.offset])
        if self.kind == "cached":
            main = self.model.subs[0]
            for j, (r, i) in enumerate(zip(rows, use)):
                if r["terminated"] or r["truncated"]:
                    s = self.model.subs[i + 1]
                    slots = main.extend([x for _, x in s.order])
                    s.reset()
                    want[j][0], want[j][3] = slots[-1], slots[0]
        return got, [tuple(w) for w in want]

    def brief(self, r):
        return {"id": int(self.rows.t), "rew": r["rew"], "term": r["terminated"], "trunc": r["truncated"]}

    def reset(self, keep=False):
        self.log.append(("reset", keep))
        self.real.reset(keep) if keep else self.real.reset()
        for s in self.model.subs:
            s.reset(keep)

    def transfer(self, src):
        """bulk transfer from a Pair of kind 'single'"""
        self.log.append(("update", src.caps[0], [x for x in src.log]))
        o = (src.real.stack_num, src.real._sample_avail)
        got = self.real.update(src.real)
        assert (src.real.stack_num, src.real._sample_avail) == o, "the bulk transfer changed the options of its source"
        want = self.model.subs[0].extend([r for _, r in src.model.subs[0].order])
        return got, want


def check_rows(R, pair, idxs=None, what="stored data"):
    """every stored transition is held unmodified in every field (read through the public field accessors)"""
    idxs = list(pair.model.all()) if idxs is None else list(idxs)
    want = {}
    for i in idxs:
        for path, v in fields(pair.model.row(i), pair.save_next, pair.last_only).items():
            want.setdefault(path, []).append((i, v))
    for path, ivs in want.items():
        col = np.asarray(get_path(pair.real, path))
        ii = np.array([i for i, _ in ivs])
        R.equal(col[ii], np.stack([v for _, v in ivs]), f"{what}: field {'.'.join(path)} at indices {ii.tolist()}", history=pair.log)


def check_add(R, pair, got, want):
    idx, ret, ln, st = got
    R.equal(np.asarray(idx).ravel(), np.array([w[0] for w in want]), "reported index", history=pair.log)
    R.equal(np.asarray(ret, float).ravel(), np.array([w[1] for w in want], float), "reported episode return", 1e-9, history=pair.log)
    R.equal(np.asarray(ln).ravel(), np.array([w[2] for w in want]), "reported episode length", history=pair.log)
    for k, w in enumerate(want):
        if w[2]:
            R.equal(int(np.asarray(st).ravel()[k]), w[3], "reported episode start", history=pair.log)


def rand_caps(rng, kind, big=False):
    n = 1 if kind in ("single", "prio", "her") else int(rng.randint(1, 5))
    m = 12 if big else 6
    if kind == "manager":
        return [int(rng.randint(1, m)) for _ in range(n)]
    if kind == "cached":
        return [int(rng.randint(1, 2 * m))] + [int(rng.randint(1, m))] * n
    return [int(rng.randint(1, m))] * n


def rand_ids(rng, n):
    """buffer ids of one add: none, or a random non-empty selection in random order"""
    if rng.rand() < 0.3:
        return None
    k = int(rng.randint(1, n + 1))
    return [int(x) for x in rng.permutation(n)[:k]]


OBS = ("vec", "img", "dict", "scalar")


def random_history(R, rng, kind, steps, on_op, caps=None, opts=None, rows=None, resets=True, transfers=True, fresh=False):
    caps = caps or rand_caps(rng, kind)
    opts = {} if opts is None else opts
    rows = rows or RowMaker(rng, OBS[rng.randint(len(OBS))] if kind not in ("her", "hervec") else "goal",
                            stacked=0, p_done=float(rng.choice([0.1, 0.3, 0.6])), extra=bool(rng.rand() < 0.7),
                            late=int(rng.randint(1, 8)) if rng.rand() < 0.25 else None)
    pair = Pair(kind, caps, rows, **opts)
    n = len(caps) - (kind == "cached")
    if fresh:
        on_op(pair, "new", None, None)
    for _ in range(steps):
        u = rng.rand()
        if resets and u < 0.06 and pair.log:
            keep = bool(rng.rand() < 0.4)
            pair.reset(keep)
            on_op(pair, "reset", keep, None)
        elif transfers and u < 0.16 and kind in ("single", "prio") and pair.log:
            o = dict(opts)
            if rng.rand() < 0.5:     # the options of the source must not matter for what is moved
                o["stack_num"], o["sample_avail"] = int(rng.randint(1, 6)), bool(rng.rand() < 0.7)
            src = Pair("single", [int(rng.randint(1, 8))], rows, **o)
            for _ in range(int(rng.randint(1, 12))):
                src.add(stacked=bool(rng.rand() < 0.5))
            got, want = pair.transfer(src)
            on_op(pair, "update", got, want)
        elif not pair.vector:
            got, want = pair.add(stacked=bool(rng.rand() < 0.4))
            on_op(pair, "add", got, want)
        else:
            got, want = pair.add(rand_ids(rng, n))
            on_op(pair, "add", got, want)
    return pair
