"""The initial guess (C23)."""
import numpy as np
from rec import *
from drivers.vgp import *


def case(rec, name, p):
    n, d = p.n, p.d
    v, outcome, exc = attempt(p.build)
    x = np.zeros(0)
    kept = True
    if outcome == "ok":
        watch = [v.model.time_window, v.obs_y, v.obs_t, v.model.sigma, v.model.sample_path, v.arg_out["m0"], v.arg_out["s0"]]
        keep = frozen(*watch)
        x, outcome, exc = attempt(v.initialization)
        kept = same(keep, watch)
        x = np.zeros(0) if x is None else np.asarray(x, dtype=float)
    ok = x.shape == (n * d * d + n * d,)
    rec.trace(name, outcome=outcome, exc=exc, n=n, dim=d, single=p.single, dt=num(np.abs(p.tk[1] - p.tk[0])), tk=enc(p.tk),
              times=[int(i) for i in p.times], y=enc(p.y), sigma=enc(p.sigma_full), shape=shape(x),
              want_shape=[n * d * d + n * d], A=enc(x[:n * d * d].reshape(n, d, d)) if ok else [],
              b=enc(x[n * d * d:].reshape(n, d)) if ok else [], inputs_kept=bool(kept))


def run(rec, rng, tier):
    for r in range(4 if tier == "quick" else 25):
        for model in ("DW", "OU", "L63", "L96"):
            for where in ("first", "last", "ends", "neighbours", "some", "one", "all", "two"):
                n = int(rng.choice([4, 9, 16])) if model != "L96" else int(rng.choice([4, 7]))
                t = {"first": [0], "last": [n - 1], "ends": [0, n - 1], "neighbours": [1, 2, 3], "all": list(range(n)),
                     "one": [int(rng.integers(1, n - 1))], "two": sorted(rng.choice(n, 2, replace=False).tolist()),
                     "some": sorted(rng.choice(n, max(2, n // 3), replace=False).tolist())}[where]
                sigma = None
                if model == "L63" and r % 2:
                    sigma = spd(rng, 3, 4.0)
                p = Problem(rng, model, "euler", n, float(rng.choice([0.01, 0.1, 0.05, 0.0037219, 0.0025, 0.0005, 0.0078125])), float(rng.choice([0.0, -1.0, 4.0])), t,
                            sigma=sigma, dim=10 if model == "L96" else None)
                p.y = p.y * 3 + rng.uniform(-20, 20, p.d)
                case(rec, f"{model} {where} {r} n={n} times={t}", p)
    # Long windows.
    for model, n, step in (("DW", 2500, 17), ("OU", 1200, 5), ("L63", 700, 9)):
        p = Problem(rng, model, "euler", n, 0.0025, times=list(range(step - 2, n, step)))
        case(rec, f"{model} n={n}", p)
    # Larger systems with noise of their own in every component.
    for d in (11, 16, 40):
        for kind in ("vector", "full"):
            p = Problem(rng, "L96", "euler", 5, 0.01, times=[1, 4], dim=d, sigma=np.linspace(0.5, 9, d) if kind == "vector" else spd(rng, d, 2.0))
            case(rec, f"L96 D={d} noise {kind}", p)
    # Values of unusual size and kind.
    for model in ("DW", "OU", "L63", "L96"):
        d = {"L63": 3, "L96": 10}.get(model, 1)
        for size in (1e-9, 1e9):
            p = Problem(rng, model, "euler", 8, 0.0037219, times=[1, 4, 6], dim=10 if model == "L96" else None)
            p.y = p.y * size
            case(rec, f"{model} observations of size {size}", p)
            p = Problem(rng, model, "euler", 8, 0.01, times=[1, 4, 6], dim=10 if model == "L96" else None,
                        sigma=size * 1.7 if d == 1 else spd(rng, d, size))
            case(rec, f"{model} noise of size {size}", p)
        p = Problem(rng, model, "euler", 9, 0.02, times=[0, 3, 8], dim=10 if model == "L96" else None)
        p.y = np.full(p.y.shape, 2.5)
        case(rec, f"{model} equal observations", p)
        p = Problem(rng, model, "euler", 9, 0.02, times=[2, 3, 7], dim=10 if model == "L96" else None, sigma=4 if d == 1 else np.arange(1, d + 1))
        p.y = rng.integers(-5, 6, p.y.shape)
        case(rec, f"{model} whole numbers", p)
        p = Problem(rng, model, "euler", 60, 0.001, times=sorted(rng.choice(60, 25, replace=False).tolist()), dim=10 if model == "L96" else None) \
            if model != "L96" else Problem(rng, model, "euler", 16, 0.0012345, times=[3, 5, 9, 14], dim=10)
        case(rec, f"{model} many observations", p)
        p = Problem(rng, model, "rk4", 3, 0.5, times=[1], dim=10 if model == "L96" else None)
        case(rec, f"{model} three points", p)
