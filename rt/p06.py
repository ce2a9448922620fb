"""P06: sampling returns stored transitions only; frame stacks stay within the episode."""
import numpy as np
from rt import bufmodel as bm
from tianshou.data import Batch

RULE = ("random histories, then every sample size class (negative, 0, n, omitted), every stored index stacked with several stack "
        "numbers, with and without sample_avail / ignore_obs_next; non-trivial when something is stored")


def stack_idx(m, i, n):
    out = [i]
    for _ in range(n - 1):
        out.insert(0, m.prev(out[0]))
    return out


def has_full(m, i, n):
    st = stack_idx(m, i, n)
    return len(set(st)) == n


def leaf(row, path):
    for k in path:
        row = row[k]
    return np.asarray(row)


def check(R, pair, rng):
    m, b = pair.model, pair.real
    al = m.all()
    sn = b.stack_num
    avail_only = pair.opts.get("sample_avail", False) and sn > 1
    ok = [i for i in al if not avail_only or has_full(m, i, sn)]
    R.equal(len(b.sample_indices(-1)), 0, "negative size samples nothing", history=pair.log)
    R.equal(len(b.sample_indices(-3)), 0, "negative size samples nothing", history=pair.log)
    if not al:
        return
    if not pair.kind.startswith("prio"):
        R.equal(np.asarray(b.sample_indices(0), int), np.array(ok, int), "size 0 lists the admissible indices, oldest first", history=pair.log, opts=pair.opts)
    if ok:
        for n in (1, 2, 5, 37):
            s = np.asarray(b.sample_indices(n))
            R.equal(s.shape, (n,), f"sampling {n} returns {n} indices", history=pair.log)
            bad = [int(i) for i in s if int(i) not in ok] if not pair.kind.startswith("prio") else [int(i) for i in s if int(i) not in al]
            R.expect(not bad, "sampled indices that are not admissible stored transitions", bad=bad, stored=al, admissible=ok, history=pair.log, opts=pair.opts)
        s = np.asarray(b.sample_indices(None))
        R.equal(len(s), len(ok) if avail_only and pair.vector else len(al), "omitted size returns as many as are stored", history=pair.log)
        R.expect(set(s.tolist()) <= set(ok if avail_only else al), "omitted size: admissible only", got=s, admissible=ok, history=pair.log)
    # stacking through get and through indexing
    for n in {1, sn, int(rng.randint(2, 6))}:
        for key in ("obs", "act"):
            paths = [p for p in bm.fields(m.row(al[0]), pair.save_next, pair.last_only) if p[0] == key]
            got = b.get(np.array(al), key, stack_num=n)
            for p in paths:
                g = got
                for kk in p[1:]:
                    g = g[kk]
                want = []
                for i in al:
                    st = [bm.fields(m.row(j), pair.save_next, pair.last_only)[p] for j in stack_idx(m, i, n)]
                    want.append(st[0] if n == 1 else np.stack(st))
                R.equal(np.asarray(g), np.stack(want), f"stack of {n} frames of {'.'.join(p)}", history=pair.log, indices=al)
            i = al[int(rng.randint(len(al)))]
            if paths[0][1:] == ():
                st = [bm.fields(m.row(j), pair.save_next, pair.last_only)[paths[0]] for j in stack_idx(m, i, n)]
                R.equal(np.asarray(b.get(i, key, stack_num=n)), st[0] if n == 1 else np.stack(st), f"stack of a single index {i}", history=pair.log)
    batch = b[np.array(al)]
    for key in ("obs", "obs_next", "act", "rew", "info"):
        for p in [q for q in bm.fields(m.row(al[0])) if q[0] == key]:
            g = batch
            for kk in p:
                g = g[kk]
            want = []
            for i in al:
                src = m.next(i) if key == "obs_next" and not pair.save_next else i
                q = ("obs",) + p[1:] if key == "obs_next" and not pair.save_next else p
                st = [bm.fields(m.row(j), True, pair.last_only)[q] for j in stack_idx(m, src, sn)]
                stacked = sn > 1 and key in ("obs", "obs_next", "info")
                want.append(np.stack(st) if stacked else st[-1])
            R.equal(np.asarray(g), np.stack(want), f"retrieved field {'.'.join(p)}", history=pair.log, opts=pair.opts, indices=al)
    if not pair.kind.startswith("her"):
        got, idx = b.sample(4) if ok else (None, None)
        if ok:
            for j, i in enumerate(idx):
                R.equal(np.asarray(got.act[j]), np.asarray(m.row(int(i))["act"]), "sample() returns the data of its indices", history=pair.log)
                R.equal(float(got.rew[j]), float(m.row(int(i))["rew"]), "sample() returns the data of its indices", history=pair.log)


def run(R):
    kinds = ["single", "vector", "manager", "cached", "prio", "priovec"]
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1200):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            kind = kinds[k % len(kinds)]
            opts = {"stack_num": int(rng.choice([1, 2, 3, 4, 5, 6, 8], p=[.2, .2, .2, .1, .1, .1, .1]))}
            if rng.rand() < 0.4:
                opts["ignore_obs_next"] = True
            if rng.rand() < 0.5 and not kind.startswith("prio"):
                opts["sample_avail"] = True
            with R.case("history", k=k, kind=kind, opts=opts):
                rows = bm.RowMaker(rng, ("vec", "dict", "img", "scalar")[rng.randint(4)], p_done=float(rng.choice([0.05, 0.1, 0.3])), extra=bool(rng.rand() < 0.6))
                stop = set(rng.randint(0, 40, size=3).tolist())
                n = [0]

                def f(p, w, g, x):
                    n[0] += 1
                    if n[0] in stop:
                        check(R, p, rng)
                pair = bm.random_history(R, rng, kind, int(rng.randint(3, 40)), f, opts=opts, rows=rows)
                if pair.log:
                    check(R, pair, rng)
