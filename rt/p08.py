"""P08: the cached buffer moves whole finished episodes to main."""
import numpy as np
from rt import bufmodel as bm

RULE = ("random histories of a CachedReplayBuffer over small main/cache capacities (episodes longer than a cache, episodes longer than "
        "main, several episodes finishing in one add, arbitrary id selections); non-trivial when an episode is moved")


def state(R, pair, got, want, before):
    b, m = pair.real, pair.model
    if want is not None:
        idx, ret, ln, st = got
        R.equal(np.asarray(idx).ravel(), np.array([w[0] for w in want]), "reported indices are where the data now lives", history=pair.log)
        for k, w in enumerate(want):
            if w[2]:
                R.equal(int(np.asarray(st)[k]), w[3], "reported start of a moved episode", history=pair.log)
        R.equal(np.asarray(ret, float), np.array([w[1] for w in want], float), "reported return", 1e-9, history=pair.log)
        R.equal(np.asarray(ln), np.array([w[2] for w in want]), "reported length", history=pair.log)
    R.equal(len(b), m.length(), "length", history=pair.log)
    R.equal([len(x) for x in b.buffers], [len(s.order) for s in m.subs], "lengths of main and caches", history=pair.log)
    R.equal(len(b.main_buffer), len(m.subs[0].order), "main length", history=pair.log)
    if not pair.opts.get("sample_avail"):   # otherwise only indices with a full frame stack are listed (P06)
        R.equal(np.asarray(b.sample_indices(0), int), np.array(m.all(), int), "enumeration", history=pair.log)
        R.equal(np.asarray(b.main_buffer.sample_indices(0), int), np.array(m.subs[0].slots(), int), "main enumeration", history=pair.log)
    if m.length():
        bm.check_rows(R, pair)
        R.equal(np.asarray(b.unfinished_index(), int), np.array(m.unfinished(), int), "unfinished listing", history=pair.log)
        al = np.array(m.all())
        R.equal(np.asarray(b.prev(al)), np.array([m.prev(i) for i in al]), "prev over main and caches", history=pair.log)
        R.equal(np.asarray(b.next(al)), np.array([m.next(i) for i in al]), "next over main and caches", history=pair.log)
    main = m.subs[0]
    R.expect(not main.order or main.done(len(main.order) - 1), "oracle self-check: the newest of main ends an episode")


def run(R):
    with R.family("random histories"):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            n = int(rng.randint(1, 4))
            caps = [int(rng.randint(1, 14))] + [int(rng.randint(1, 7))] * n
            opts = {"stack_num": int(rng.randint(2, 5)), "sample_avail": bool(rng.rand() < 0.5)} if rng.rand() < 0.3 else {}
            if rng.rand() < 0.2:
                opts["ignore_obs_next"] = True
            with R.case("history", k=k, caps=caps, opts=opts):
                rows = bm.RowMaker(rng, ("vec", "dict")[rng.randint(2)], p_done=float(rng.choice([0.15, 0.4, 0.8])), extra=bool(rng.rand() < 0.5))
                bm.random_history(R, rng, "cached", int(rng.randint(4, 45)), lambda p, w, g, x: state(R, p, g, x if w == "add" else None, None), caps=caps, opts=opts, rows=rows)
