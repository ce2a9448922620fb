"""P26: interval gates of the loggers."""
import itertools
import tempfile
import numpy as np
from tianshou.utils import BaseLogger, TensorboardLogger

RULE = ("every short sequence of (kind, step) calls for small intervals plus long random ones, on a recording BaseLogger and on TensorboardLogger with "
        "a recording writer; non-trivial when at least one call is skipped and one is written")
KINDS = ("train", "test", "update", "info")
TAG = {"train": "train/env_step", "test": "test/env_step", "update": "update/gradient_step", "info": "info/epoch"}


class Rec(BaseLogger):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.out = []

    def write(self, step_type, step, data):
        self.out.append((str(step_type), step, dict(data)))

    def prepare_dict_for_logging(self, log_data):
        return {"p_" + k: v for k, v in log_data.items()}

    def finalize(self):
        pass

    def save_data(self, *a, **k):
        pass

    def restore_data(self):
        return 0, 0, 0

    @staticmethod
    def restore_logged_data(p):
        return {}


class Writer:
    """records what a SummaryWriter is told"""

    def __init__(self):
        self.out, self.flushes, self.closed = [], 0, 0

    def add_scalar(self, tag, v, global_step=None, **k):
        self.out.append(("scalar", str(tag), v, global_step))

    def add_histogram(self, tag, v, global_step=None, **k):
        self.out.append(("hist", str(tag), np.asarray(v).tolist(), global_step))

    def add_figure(self, tag, v, global_step=None, **k):
        self.out.append(("fig", str(tag), v, global_step))

    def flush(self):
        self.flushes += 1

    def close(self):
        self.closed += 1


def drive(R, lg, iv, calls):
    last = dict.fromkeys(KINDS, -1)
    want = []
    for j, (kind, step) in enumerate(calls):
        data = {"v": j}
        getattr(lg, f"log_{kind}_data")(data, step)
        R.equal(list(data.items()), [("v", j)], "logged data left alone")
        if step - last[kind] >= iv[kind]:
            want.append((TAG[kind], step, {"p_v": j}))
            last[kind] = step
        R.expect(lg.out == want, "written records", got=lg.out[-3:], want=want[-3:], after=(kind, step))


def run(R):
    with R.family("all short sequences", 0.4):
        steps = (0, 1, 2, 3)
        ivs = list(itertools.product((1, 2, 3), repeat=2))
        for n, (i1, i2) in enumerate(ivs):
            for a, b in ((0, 1), (1, 2), (2, 3), (3, 0)):
                ka, kb = KINDS[a], KINDS[b]
                iv = dict.fromkeys(KINDS, 2)
                iv[ka], iv[kb] = i1, i2
                with R.case("short", kinds=(ka, kb), intervals=iv):
                    for calls in itertools.product([(q, s) for q in (ka, kb) for s in steps], repeat=3):
                        drive(R, Rec(*[iv[q] for q in KINDS]), iv, calls)
    with R.family("random sequences", 0.3):
        for k in R.cases(None if R.thorough else 1500):
            rng = R.rng("l", k)
            iv = {q: int(rng.choice([1, 2, 5, 10, 1000])) for q in KINDS}
            mono = k % 2
            calls, cur = [], dict.fromkeys(KINDS, 0)
            for _ in range(rng.randint(1, 40)):
                q = KINDS[rng.randint(4)]
                cur[q] = cur[q] + int(rng.choice([0, 1, 2, 7, 600])) if mono else int(rng.randint(0, 60))
                calls.append((q, cur[q]))
            with R.case("random", intervals=iv, calls=calls):
                drive(R, Rec(*[iv[q] for q in KINDS]), iv, calls)
                drive(R, Rec(train_interval=iv["train"], test_interval=iv["test"], update_interval=iv["update"], info_interval=iv["info"]), iv, calls)
    with R.family("default intervals", 0.02):
        with R.case("defaults"):
            iv = {"train": 1000, "test": 1, "update": 1000, "info": 1}
            drive(R, Rec(), iv, [(q, s) for s in (0, 1, 998, 999, 1000, 1998, 1999, 2998) for q in KINDS])
    with R.family("tensorboard"):
        for k in R.cases(None if R.thorough else 800):
            rng = R.rng("t", k)
            iv = {q: int(rng.choice([1, 2, 5])) for q in KINDS}
            si = int(rng.choice([1, 2, 3]))
            flush = bool(rng.rand() < 0.5)
            calls, cur = [], dict.fromkeys(KINDS, 0)
            for _ in range(rng.randint(1, 15)):
                q = KINDS[rng.randint(4)]
                cur[q] += int(rng.choice([0, 1, 2, 7]))
                calls.append((q, cur[q]))
            with R.case("tensorboard", intervals=iv, calls=calls, flush=flush, save=si):
                w = Writer()
                lg = TensorboardLogger(w, iv["train"], iv["test"], iv["update"], iv["info"], si, flush)
                last, want = dict.fromkeys(KINDS, -1), []
                for j, (kind, step) in enumerate(calls):
                    data = {"a": float(j), "n": {"b": j, "deep": {"c": 2.5}}, "arr": np.arange(3), "s": "text", "none": None}
                    getattr(lg, f"log_{kind}_data")(data, step)
                    if step - last[kind] >= iv[kind]:
                        last[kind] = step
                        want += [("scalar", TAG[kind], step, step), ("scalar", f"{kind}/a", float(j), step), ("scalar", f"{kind}/n/b", j, step),
                                 ("scalar", f"{kind}/n/deep/c", 2.5, step)]
                    R.expect(sorted(map(str, w.out)) == sorted(map(str, want)), "scalars written", got=w.out[-5:], want=want[-5:])
                R.expect(bool(w.flushes) == (flush and bool(want)), "flushed after writing", got=w.flushes)
                w.out.clear()
                lg.write("train/env_step", 3, {"h": np.array([1.0, 2.0]), "x": 1})
                R.expect(sorted(map(str, w.out)) == sorted(map(str, [("scalar", "train/env_step", 3, 3), ("hist", "train/h", [1.0, 2.0], 3), ("scalar", "train/x", 1, 3)])), "arrays go to a histogram", got=w.out)
                w.out.clear()
                saved, lastsave = [], -1
                for e in range(rng.randint(1, 8)):
                    lg.save_data(e, e * 10, e * 7, lambda a, b, c: saved.append((a, b, c)) or "")
                    if e - lastsave >= si:
                        lastsave = e
                    R.expect((saved[-1][0] if saved else -1) == lastsave, "checkpoint interval", got=saved, epoch=e)
                R.equal(saved, [(e, e * 10, e * 7) for e, _, _ in saved], "checkpoint counters")
                tags = [(t, v, s) for _, t, v, s in w.out if t.startswith("save/") and v == s]
                for e, es, gs in saved:
                    for t, v in (("save/epoch", e), ("save/env_step", es), ("save/gradient_step", gs)):
                        R.expect((t, v, v) in tags, "checkpoint metadata", tag=t, value=v, got=tags[-6:])
    with R.family("restore"):
        for k in R.cases(3):
            rng = R.rng("re", k)
            with R.case("restore", k=k):
                from torch.utils.tensorboard import SummaryWriter
                with tempfile.TemporaryDirectory() as d:
                    w = SummaryWriter(d)
                    lg = TensorboardLogger(w, 1, 1, 1, 1)
                    R.equal(lg.restore_data(), (0, 0, 0), "nothing saved yet")
                    e = 1 + int(rng.randint(5))
                    for i in range(1, e + 1):
                        lg.save_data(i, i * 100, i * 3, lambda *_: "")
                    w.flush()
                    R.equal(TensorboardLogger(w).restore_data(), (e, e * 100, e * 3), "restored counters")
                    w.close()
