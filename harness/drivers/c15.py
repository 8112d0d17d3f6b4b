"""Observations (C15)."""
import json
import numpy as np
from rec import *
from drivers.energy import CLS

MAKE = {"DW": lambda s: CLS["DW"](0.8, 1.0, s), "OU": lambda s: CLS["OU"](0.8, 1.0, s),
        "L63": lambda s: CLS["L63"](10.0, [10.0, 28.0, 2.667], s), "L96": lambda s: CLS["L96"](4.0, 8.0, s, 10)}


def case(rec, name, model, seed, tk, x, density, rn, mask=None, quiet=False, exact=False, missing=None):
    """x: [n] or [n, d]."""
    single = model in ("DW", "OU")
    mod, outcome, exc = attempt(MAKE[model], seed)
    if missing != "both":
        if missing != "window":
            mod.time_window = tk
        if missing != "path":
            mod.sample_path = x
    keep = frozen(x, tk)
    given = frozen(rn, mask)
    res, outcome, exc = attempt(mod.collect_obs, density, rn, mask)
    comp = [0] if single else list(range(x.shape[1])) if not mask else \
        [i for i, v in enumerate(mask) if v] if isinstance(mask[0], bool) else list(mask)
    q = len(comp)
    var = np.asarray(rn, dtype=float)
    var = var * np.ones(q) if var.ndim == 0 else var if var.ndim == 1 else np.diag(var)
    pos, y, noise, shp, ints = [], [], [], [], True
    if outcome == "ok":
        try:
            t, y, noise = res
            ints = all(float(i) == int(i) for i in t)
            pos = [int(i) for i in t]
            noise = np.asarray(noise, dtype=float)
            noise = noise * np.eye(q) if noise.ndim == 0 else np.diag(noise) if noise.ndim == 1 else noise
            shp = shape(y)
            y = seq1(y) if single else enc(y)
        except Exception as e:  # noqa: BLE001
            outcome, exc = "unusable", type(e).__name__
    want = [len(pos)] if single else [len(pos), q]
    rec.trace(name, outcome=outcome, exc=exc, missing=missing is not None, exact=exact, n=len(tk), density=num(density),
              dt=num(tk[1] - tk[0]), first=num(tk[0]), last=num(tk[-1]), pos=pos, integers=bool(ints), y=y if outcome == "ok" else [],
              y_shape=shp, want_y_shape=want, x=seq1(x) if single else enc(x), mask=comp, noise=enc(noise) if outcome == "ok" else [],
              variance=enc(var), quiet=quiet, path_kept=bool(same(keep, [x, tk]) and (missing or mod.sample_path is x or same(keep[0], mod.sample_path))),
              inputs_kept=bool(same(given, [rn, mask])))


def walk(rng, n, d):
    x = np.cumsum(rng.standard_normal((n, d)), axis=0) * 0.3 + rng.uniform(-9, 9, d)
    return x.ravel() if d == 1 else x


def run(rec, rng, tier):
    seed = lambda: int(rng.integers(1, 1 << 30))
    with open(os.path.join(os.environ["BEHAVIOURS"], "ObsGrid.behaviours")) as f:
        grids = [json.loads(l) for l in f]
    for i, g in enumerate(grids):
        model = ("DW", "L63", "OU", "L96")[i % 4] if g["n"] < 20 else "DW"
        d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[model]
        tk = np.arange(g["n"]) / g["rate"]
        case(rec, f"{model} grid n={g['n']} density={g['dens']}", model, seed(), tk, walk(rng, g["n"], d), g["dens"], 1e-24,
             quiet=True, exact=True)
    # Other steps and starts; masks; all forms of the noise; paths made by the model.
    for r in range(12 if tier == "quick" else 80):
        for model in ("DW", "OU", "L63", "L96"):
            d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[model]
            dt = float(rng.choice([0.01, 0.02, 0.1, 0.3, 0.07, 0.005]))
            n = int(rng.integers(5, 80))
            t0 = float(rng.choice([0.0, 0.1, -3.0, 7.5]))
            tk = np.arange(t0, t0 + (n - 0.5) * dt, dt)
            dens = int(rng.integers(1, max(2, int(1 / dt) + 1)))
            if r % 6 == 5:
                dens = int(1 / dt) + int(rng.integers(2, 5))
            mask = None
            if d > 1 and r % 2:
                mask = [[0, 2], [1], [2, 1], [True, False, True] + [False] * (d - 3)][r // 2 % 4]
            case(rec, f"{model} {r} n={len(tk)} dt={dt} density={dens} mask={mask}", model, seed(), tk, walk(rng, len(tk), d),
                 dens, 1e-24, mask, quiet=True)
    # Densities that are not whole numbers, and below one; very small and
    # large steps, up to the largest density that is possible.
    for r, (dt, n, dens) in enumerate((dt, n, dens) for dt, n, many in (
            (0.05, 401, (0.5, 0.3, 0.99, 1.5, 7.25)), (0.0016, 130, (90, 250, 550, 620, 12.5)), (0.00041, 150, (1100, 2400, 400, 2000.5)),
            (0.25, 40, (4, 3, 0.4, 2.5)), (0.6, 30, (1, 0.5)), (0.5, 33, (2, 1, 0.25)), (0.0078125, 100, (128, 100, 64, 1)),
            (0.0125, 90, (79, 31.7, 60))) for dens in many):
        model = ("DW", "L63", "OU", "L96")[r % 4]
        d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[model]
        t0 = (0.0, -3.0, 7.5)[r % 3]
        case(rec, f"{model} density={dens} dt={dt} n={n}", model, seed(), t0 + np.arange(n) * dt, walk(rng, n, d), dens, 1e-24,
             [None, [0, 2], None, None][r % 4], quiet=True)
    # Every kind of mask.
    for model in ("L63", "L96"):
        d = {"L63": 3, "L96": 10}[model]
        masks = [[i] for i in range(d)] + [[i, j] for i in range(3) for j in range(3) if i != j] + \
            [list(range(d)), list(range(d))[::-1], [d - 1, 0], list(range(1, d)), [True] * d, [False] * (d - 1) + [True],
             [True] + [False] * (d - 1), [i % 2 == 0 for i in range(d)], [], None]
        tk = np.arange(24) * 0.05
        for i, mask in enumerate(masks):
            q = d if not mask else sum(mask) if isinstance(mask[0], bool) else len(mask)
            for rn in (1e-24, np.full(q, 1e-24), np.diag(np.full(q, 1e-24))):
                case(rec, f"{model} mask={mask} noise={np.ndim(rn)}", model, seed(), tk, walk(rng, 24, d), 4 + i % 3, rn, mask, quiet=True)
    for model in ("DW", "L63"):
        d = {"DW": 1, "L63": 3}[model]
        for missing in ("path", "window", "both"):
            case(rec, f"{model} without {missing}", model, 3, np.arange(9) * 0.1, walk(rng, 9, d), 2, 0.1, missing=missing)
    # The law of the noise.
    n = 3000 if tier == "quick" else 12000
    tk = np.arange(n) * 0.01
    forms = {"scalar": 0.7, "array0": np.array(2.5), "vector": np.array([0.1, 4.0, 30.0]), "matrix": np.diag([2.0, 0.5, 9.0]),
             "full": np.array([[2.0, 0.5, 0.1], [0.5, 1.0, 0.2], [0.1, 0.2, 3.0]])}
    for name, rn in forms.items():
        case(rec, f"L63 noise {name}", "L63", seed(), tk, walk(rng, n, 3), 100, rn, exact=True)
    for size in (1e-8, 1e-4, 1e4, 1e10):
        case(rec, f"L63 noise matrix of size {size}", "L63", seed(), tk, walk(rng, n, 3) * size ** 0.5, 90, np.array([[2.0, 0.0, 0.0], [0.0, 0.3, 0.0], [0.0, 0.0, 9.0]]) * size)
        case(rec, f"DW noise of size {size}", "DW", seed(), tk, walk(rng, n, 1) * size ** 0.5, 90, 0.7 * size)
    case(rec, "L63 noise of sizes", "L63", seed(), tk, walk(rng, n, 3), 90, np.array([1e-6, 1.0, 1e4]))
    case(rec, "L63 noise whole", "L63", seed(), tk, walk(rng, n, 3), 90, np.array([1, 4, 9]))
    case(rec, "OU noise whole", "OU", seed(), tk, walk(rng, n, 1), 90, 3)
    case(rec, "L63 noise scalar mask [0, 2]", "L63", seed(), tk, walk(rng, n, 3), 60, 3.0, [0, 2])
    case(rec, "L63 noise vector mask [2, 0]", "L63", seed(), tk, walk(rng, n, 3), 60, np.array([3.0, 0.2]), [2, 0])
    case(rec, "L63 noise scalar mask [1]", "L63", seed(), tk, walk(rng, n, 3), 90, 0.3, [1])
    case(rec, "DW noise scalar", "DW", seed(), tk, walk(rng, n, 1), 100, 0.04, exact=True)
    case(rec, "OU noise array", "OU", seed(), tk, walk(rng, n, 1), 80, np.array(5.0))
    case(rec, "L96 noise vector", "L96", seed(), tk[:1500], walk(rng, 1500, 10), 100, np.linspace(0.1, 5, 10), exact=True)
