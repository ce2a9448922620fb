"""P10: hindsight relabelling."""
import os
import tempfile
import numpy as np
from rt import bufmodel as bm
from tianshou.data import HERReplayBuffer, HERVectorReplayBuffer

RULE = ("random goal-conditioned histories (episodes wrapping around the buffer, unfinished ones, ignore_obs_next), then samples of many "
        "sizes interleaved with adds/resets/saves; every stored field is compared with the original and every substituted goal traced to "
        "a later step of the same episode; non-trivial when at least one goal was substituted")


def reward_fn(ag, g):
    return -np.abs(ag - g).sum(-1)


def episodes(sub):
    eps, cur = [], []
    for k, (s, r) in enumerate(sub.order):
        cur.append(s)
        if sub.done(k):
            eps.append(cur)
            cur = []
    return eps + ([cur] if cur else [])


def after_goal(pair, sub, slot):
    """goal achieved by the transition at slot (in its next observation)"""
    r = sub.row(slot)
    if pair.save_next:
        return r["obs_next"]["achieved_goal"]
    return sub.row(sub.next(slot))["obs"]["achieved_goal"]


def check_sample(R, pair, sampled, batch):
    b, m = pair.real, pair.model
    n_rel = 0
    for sub in m.subs:
        for ep in episodes(sub):
            gl = [sub.offset + s for s in ep]
            dg = np.asarray(b.obs.desired_goal)[gl]
            orig = np.stack([sub.row(s)["obs"]["desired_goal"] for s in ep])
            changed = [bool(not np.array_equal(x, y)) for x, y in zip(dg, orig)]
            hit = [k for k, g in enumerate(gl) if g in sampled]
            rew = np.asarray(b.rew)[gl]
            rew0 = np.array([sub.row(s)["rew"] for s in ep])
            if not any(changed):
                R.equal(rew, rew0, "reward of an episode that keeps its goal", 1e-6, history=pair.log, sampled=sampled)
                if pair.save_next:
                    R.equal(np.asarray(b.obs_next.desired_goal)[gl], np.stack([sub.row(s)["obs_next"]["desired_goal"] for s in ep]), "next-goal of an episode that keeps its goal", history=pair.log)
                continue
            n_rel += 1
            first = changed.index(True)
            R.expect(bool(hit), "an episode no sampled transition belongs to was relabelled", episode=gl, sampled=sampled, history=pair.log)
            R.expect(all(changed[first:]), "relabelling is consistent over the rest of the episode", episode=gl, changed=changed, history=pair.log)
            R.expect(first <= min(hit), "every sampled transition of a relabelled episode is relabelled", episode=gl, changed=changed, sampled=sampled, history=pair.log)
            g = dg[first]
            R.expect(all(np.array_equal(x, g) for x in dg[first:]), "one goal for the rest of the episode", goals=dg, history=pair.log)
            src = [k for k in range(len(ep)) if np.array_equal(after_goal(pair, sub, ep[k]), g)]
            R.expect(bool(src), "the substituted goal was not achieved in this episode", goal=g, episode=gl, history=pair.log)
            R.expect(max(src) >= max(hit), "the substituted goal was achieved before a transition it is used for", goal=g, achieved_at=src, sampled_positions=hit, episode=gl, history=pair.log)
            for k, s in enumerate(ep):
                want = reward_fn(after_goal(pair, sub, s), g) if k >= first else rew0[k]
                R.equal(float(rew[k]), float(want), "reward recomputed from the achieved and the new goal" if k >= first else "reward before the relabelled part", 1e-5,
                        index=gl[k], goal=g, history=pair.log)
                if pair.save_next:
                    R.equal(np.asarray(b.obs_next.desired_goal)[gl[k]], g if k >= first else sub.row(s)["obs_next"]["desired_goal"], "goal of the next observation", history=pair.log)
    for path in (("obs", "observation"), ("obs", "achieved_goal"), ("obs_next", "observation"), ("obs_next", "achieved_goal"), ("act",), ("terminated",), ("truncated",), ("done",)):
        if path[0] == "obs_next" and not pair.save_next:
            continue
        al = m.all()
        R.equal(np.asarray(bm.get_path(b, path))[al], np.stack([bm.fields(m.row(i))[path] for i in al]), f"{'.'.join(path)} is not touched by relabelling", history=pair.log)
    if batch is not None and len(sampled):
        R.equal(np.asarray(batch.obs.desired_goal), np.asarray(b.obs.desired_goal)[sampled], "sampled batch carries the relabelled goals")
        R.equal(np.asarray(batch.rew), np.asarray(b.rew)[sampled], "sampled batch carries the recomputed rewards")
    return n_rel


def originals(R, pair, what):
    al = pair.model.all()
    if al:
        bm.check_rows(R, pair, what=what)


def run(R):
    with R.family("random histories"):
        total = 0
        for k in R.cases(None if R.thorough else 1200):
            rng = R.rng("rand", k)
            R.seed_all("rand", k)
            vec = k % 3 == 2
            n = int(rng.randint(1, 4)) if vec else 1
            cap = int(rng.randint(3, 12))
            maxlen = int(rng.randint(2, min(cap, 6) + 1))
            opts = {"ignore_obs_next": True} if rng.rand() < 0.3 else {}
            fk = float(rng.choice([1.5, 4, 8, 1000]))
            with R.case("history", k=k, vec=vec, n=n, cap=cap, horizon=maxlen, future_k=fk, opts=opts):
                rows = bm.RowMaker(rng, "goal", p_done=0.3, extra=False)
                pair = bm.Pair("vector" if vec else "single", [cap] * n, rows, **opts)
                cls = HERVectorReplayBuffer if vec else HERReplayBuffer
                pair.real = cls(cap * n, n, compute_reward_fn=reward_fn, horizon=maxlen, future_k=fk, **opts) if vec else cls(cap, reward_fn, maxlen, fk, **opts)
                b = pair.real
                for _ in range(int(rng.randint(5, 30))):
                    u = rng.rand()
                    if u < 0.6 or not pair.model.length():
                        ids = None if not vec else [int(i) for i in rng.permutation(n)[:rng.randint(1, n + 1)]]
                        dn = []
                        for i in (ids if ids is not None else range(n)):
                            ln = pair.model.subs[i].ep_len + 1
                            dn.append(True if ln >= maxlen else None)
                        pair.add(ids, dones=dn, stacked=bool(rng.rand() < 0.5))
                        originals(R, pair, "after add the original data is back")
                    elif u < 0.93:
                        sz = [None, 0, 1, 3, 8][rng.randint(5)]
                        pair.log.append(("sample", sz))
                        batch, idx = b.sample(sz)
                        total += check_sample(R, pair, np.asarray(idx).tolist(), batch)
                    elif u < 0.97:
                        pair.log.append(("save",))
                        with tempfile.TemporaryDirectory() as d:
                            f = os.path.join(d, "b.hdf5")
                            b.save_hdf5(f)
                            originals(R, pair, "after save the original data is back")
                            pair2 = bm.Pair(pair.kind, pair.caps, rows, **opts)
                            pair2.real, pair2.model = type(b).load_hdf5(f), pair.model
                            originals(R, pair2, "the saved file holds the original data")
                    else:
                        pair.reset(False)
        R.notes.append(f"relabelled episodes observed: {total}")
