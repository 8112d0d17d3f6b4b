"""Seeds and randomness (C16)."""
import contextlib, io, json, random
import numpy as np
from rec import *
from drivers.energy import CLS

MAKE = {"DW": lambda s: CLS["DW"](0.8, 1.0, s), "OU": lambda s: CLS["OU"](0.8, 1.0, s),
        "L63": lambda s: CLS["L63"](10.0, [10.0, 28.0, 2.667], s), "L96": lambda s: CLS["L96"](4.0, 8.0, s, 10)}
WEAK = {"DW": lambda s: CLS["DW"](1e-12, 1.0, s), "OU": lambda s: CLS["OU"](1e-16, 1.0, s),
        "L63": lambda s: CLS["L63"](1e-16, [10.0, 28.0, 2.667], s), "L96": lambda s: CLS["L96"](1e-16, 8.0, s, 10)}


class Bits:
    def __init__(self):
        self.known = {}

    def __call__(self, *arrays):
        key = b"|".join(np.ascontiguousarray(a, dtype=float).tobytes() for a in arrays)
        return self.known.setdefault(key, len(self.known) + 1)


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def operate(mod, op, dt, t0, steps):
    """Result of the operation, and the noise in it."""
    if op == "path":
        mod.make_trajectory(t0, t0 + steps * dt, dt)
        x = mod.sample_path
        return (x, mod.time_window), np.diff(x, axis=0)
    t, y, r = mod.collect_obs(int(0.4 / dt), 0.3, None)
    return (t, y, r), np.asarray(y) - np.take(mod.sample_path, t, axis=0)


def play(rec, name, models, seeds, history, dt=0.02, t0=0.0, make=MAKE, steps=12):
    """seeds: integer, or None for an unseeded object."""
    ids, noises, objs, events = Bits(), Bits(), {}, []
    for e in history:
        op, o = e["op"], e["o"]
        before = global_state()
        ev = dict(op=op, o=o, id=0, noise=0, outcome="ok", global_kept=True)
        if op == "global":
            np.random.seed(int(len(events) % 3))
            np.random.standard_normal(3)
            random.random()
        elif op == "new":
            objs[o], ev["outcome"], _ = attempt(make[models[o - 1]], seeds[o - 1])
        else:
            r, ev["outcome"], _ = attempt(operate, objs[o], op, dt, t0, steps)
            if r:
                ev["id"], ev["noise"] = ids(*r[0]), noises(np.round(r[1], 9 if make is MAKE else 13))
        ev["global_kept"] = op == "global" or before == global_state()
        events.append(ev)
    rec.trace(name, kind="history", events=events, models=models, unseeded=[s is None for s in seeds],
              seeds=[str(s) if s is not None else f"unseeded-{i}" for i, s in enumerate(seeds)])


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "SeedHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    worlds = [(["DW", "DW", "OU"], [0, 0, 0]), (["OU", "OU", "OU"], [7, 7, 8]), (["DW", "DW", "DW"], [2 ** 40 + 1, 2 ** 40 + 1, 0]),
              (["DW", "DW", "DW"], [3, 3, None]), (["OU", "OU", "DW"], [0, 0, 1])]
    heavy = [(["L63", "L63", "L63"], [0, 0, 5]), (["L63", "L63", "L96"], [11, 11, 11]), (["L96", "L96", "L63"], [0, 0, 0]),
             (["L96", "L96", "L96"], [4, 4, 1])]
    limit = 1500 if tier == "quick" else 6000
    order = rng.permutation(len(hists))
    for j, i in enumerate(order[:limit]):
        models, seeds = worlds[j % len(worlds)]
        h = hists[i]
        play(rec, f"{models} {seeds} {' '.join(e['op'] + str(e['o']) for e in h)}", models, seeds, h)
    for j, i in enumerate(order[:40 if tier == "quick" else 200]):
        models, seeds = heavy[j % len(heavy)]
        play(rec, f"{models} {seeds} {' '.join(e['op'] + str(e['o']) for e in hists[i])}", models, seeds, hists[i])
    # Long histories: behaviours one after another on the same objects
    # (creating an object again restarts its stream).
    for models, seeds in worlds + heavy[:1]:
        long = sum((hists[i] for i in order[:12]), [])
        play(rec, f"{models} {seeds} long", models, seeds, long)
    # Weak system noise: paths that are almost the same are not the same.
    for j, i in enumerate(order[:60 if tier == "quick" else 300]):
        models, seeds = (worlds[:4] + heavy[:3])[j % 7]
        play(rec, f"{models} {seeds} weak noise {j}", models, seeds, hists[i], make=WEAK)
    # Windows of other starts and steps.
    for j, i in enumerate(order[:90 if tier == "quick" else 400]):
        models, seeds = (worlds[:4] + heavy[:2])[j % 6]
        t0, dt = (1.0, -2.5, 40.0, 0.3)[j % 4], (0.02, 0.005, 0.013)[j % 3]
        play(rec, f"{models} {seeds} from {t0} by {dt} {j}", models, seeds, hists[i], dt, t0)
    # Long windows.
    for j, i in enumerate(order[:24 if tier == "quick" else 80]):
        models, seeds = (worlds[:2] + heavy[:1] + heavy[3:])[j % 4]
        play(rec, f"{models} {seeds} long window {j}", models, seeds, hists[i], 0.002, 0.0, MAKE, 5200 if j % 8 < 4 else 1100)
    # The system noise and the observation noise of different seeds differ,
    # for every small seed.
    for lo in (0, 40):
        many = list(range(lo, lo + 20))
        h = [dict(op=op, o=i + 1) for i in range(20) for op in ("new", "path", "obs")]
        play(rec, f"seeds {lo}..{lo + 19}", ["OU"] * 20, many, h)
    # Seeds as the NumPy integers and in the other forms that a caller may have.
    forms = [lambda s: np.int64(s), lambda s: np.uint32(s), lambda s: int(s), lambda s: np.arange(s, s + 1)[0], lambda s: np.int16(s)]
    for j, i in enumerate(order[:30]):
        model, s = ("DW", "OU", "L63")[j % 3 if j < 9 else j % 2], (0, 7, 1234)[j % 3]
        play(rec, f"{model} forms of the seed {s} {j}", [model] * 3, [forms[j % 5](s), forms[(j + 1 + j // 5) % 5](s), forms[(j + 2) % 5](s + 1)], hists[i])
    pool(rec, rng, 6000 if tier == "quick" else 40000)


def pool(rec, rng, count):
    """Many seeds of every size: no two of them give the same path."""
    base = [int(v) for v in rng.integers(0, 1 << 62, count // 2)] + [int(v) for v in rng.integers(0, 1 << 31, count // 2)]
    near = [v + s for v in [0, 1, 12345, base[0]] for s in [1 << k for k in range(0, 70, 1)] + [10 ** k for k in range(1, 20)]]
    seeds = sorted(set(base + near + [int(rng.integers(1, 1 << 60)) << 64, (1 << 128) + 5, (1 << 64) - 1, 1 << 64, (1 << 32) - 1, 1 << 32]))
    ids, out = Bits(), dict(kind="pool", count=len(seeds), different=0, again=0, outcome="ok", exc="")

    def first(s):
        m = CLS["OU"](0.8, 1.0, s)
        m.make_trajectory(0.0, 0.2, 0.1)
        return ids(m.sample_path)

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            got = [first(s) for s in seeds]
            out["different"] = len(set(got))
            out["again"] = sum(first(s) == g for s, g in zip(seeds, got))
    _, out["outcome"], out["exc"] = attempt(go)
    rec.trace(f"pool of seeds", **out)
