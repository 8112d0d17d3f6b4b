"""Sample paths (C14)."""
import numpy as np
from rec import *
from drivers.energy import CLS


def path(rec, name, model, sigma, theta, seed, t0, tf, dt, dim=None, quiet=False, setter=False, mu=None, paths=1):
    single = model in ("DW", "OU")
    d = 1 if single else dim or 3
    full = np.asarray(sigma, dtype=float)
    full = np.atleast_2d(full) if single else full * np.eye(d) if full.ndim == 0 else np.diag(full) if full.ndim == 1 else full

    def go():
        extra = (dim,) if model == "L96" else ()
        if setter:                       # parameters changed before the path is made
            mod = CLS[model](1.0 if single else 3.0, np.ones_like(np.asarray(theta, dtype=float)) if not np.isscalar(theta) else 1.0, seed, *extra)
            mod.sigma, mod.theta = (sigma if single else full.copy()), theta
            mod.make_trajectory(0.0, 0.3, 0.1)
        else:
            mod = CLS[model](sigma, theta, seed, *extra)
        many = []
        for i in range(paths):           # several draws of one object, or objects of other seeds
            if i and i % 2 == 0:
                mod = CLS[model](sigma, theta, seed + i, *extra)
            mod.make_trajectory(t0, tf, dt, **({} if mu is None else dict(mu=mu)))
            many.append((mod.sample_path, mod.time_window))
        x, tk = many[0] if paths == 1 else (np.concatenate([p[0] for p in many]), many[0][1])
        if not all(same(p[1], tk) for p in many):
            raise RuntimeError("windows differ")
        return np.array(x, dtype=float), np.array(tk, dtype=float), float(mod.time_step), same(mod.time_window, tk)
    res, outcome, exc = attempt(go)
    x, tk, step, kept = res if outcome == "ok" else (np.zeros(0), np.zeros(0), 0.0, True)
    n = len(x)
    rec.trace(name, model=model, outcome=outcome, exc=exc, dim=d, n=n, t0=num(t0), tf=num(tf), dt=num(dt),
              tk=enc(tk), x=seq1(x) if single else enc(x), shape=shape(x), want_shape=[n] if single else [n, d],
              theta=enc(np.atleast_1d(theta)), sigma=enc(full), quiet=quiet, mu=num(mu or 0.0), paths=paths,
              window_kept=bool(kept and (outcome != "ok" or abs(step - dt) <= 1e-9 * (1 + abs(t0) + abs(tf)))))


def run(rec, rng, tier):
    long = 1 if tier == "quick" else 4
    seed = lambda: int(rng.integers(1, 1 << 30))
    tiny = 1e-22
    # Drift and grid, exactly.
    for model in ("DW", "OU", "L63", "L96"):
        for r in range(6 if tier == "quick" else 30):
            t0 = float(rng.choice([0.0, -2.0, 1.25, 10.0]))
            dt = float(rng.choice([0.01, 0.005, 0.02, 0.1 if model in ("DW", "OU") else 0.01, 0.0078125, 0.0037219, 0.0005]))
            span = float(rng.choice([0.5, 1.0, 0.3333, 10 * dt, dt]))
            theta = {"DW": float(rng.uniform(0.3, 2)), "OU": float(rng.uniform(0.2, 4)),
                     "L63": rng.uniform(0.7, 1.3, 3) * [10.0, 28.0, 2.667], "L96": float(rng.uniform(2, 9))}[model]
            dim = int(rng.choice([10, 11, 17])) if model == "L96" else None
            if model == "L96" and r % 3 == 1:
                theta = rng.uniform(4, 9, dim)
            path(rec, f"{model} drift {r} t0={t0} span={span} dt={dt}", model, tiny, theta, seed(), t0, t0 + span, dt,
                 dim, quiet=True, setter=r % 3 == 2 and model != "L96")
    # The mean of the Ornstein-Uhlenbeck paths.
    for mu in (0.0, 1.0, -2.0, 0.37, -1e-3, 250.25, 3):
        for setter in (False, True):
            path(rec, f"OU mean {mu} {setter}", "OU", tiny, float(rng.uniform(0.2, 4)), seed(), -0.5, 1.0, 0.03, quiet=True, mu=mu, setter=setter)
        path(rec, f"OU mean {mu} noise", "OU", float(rng.uniform(0.2, 4)), 1.5, seed(), 0.0, 20.0 * long, 0.02, mu=mu)
    # Whole numbers as parameters and as ends of the window.
    for model, theta in (("DW", 1), ("OU", 2), ("L63", np.array([10, 28, 3])), ("L96", 8)):
        path(rec, f"{model} whole numbers", model, tiny, theta, seed(), 0, 1, 0.01, 10 if model == "L96" else None, quiet=True)
    # The grid, for starts, steps and lengths that are and are not
    # representable, with whole and broken numbers of steps.
    grids = [(t0, dt, m) for t0 in (0.0, 0.1, 0.3, -2.0, 1.25, 10.0) for dt in (0.1, 0.01, 0.3, 0.07, 0.0078125, 0.05)
             for m in (1, 2, 3, 7, 10, 20, 29, 2.5, 3.3333, 9.01)]
    for i, (t0, dt, m) in enumerate(grids):
        for model in ("DW", "OU", "L63", "L96"):
            heavy = model in ("L63", "L96")
            if (heavy and (dt > 0.01 or m > 10 or (i % 3 and tier == "quick"))) or (model == "DW" and dt > 0.1):
                continue
            theta = {"DW": 1.3, "OU": 2.0, "L63": [9.0, 27.0, 2.5], "L96": 7.0}[model]
            path(rec, f"{model} grid t0={t0} dt={dt} steps={m}", model, tiny, theta, seed(), t0, t0 + m * dt, dt,
                 10 if model == "L96" else None, quiet=True)
    # The law of the noise.
    def law(model, sigma, theta, dt, steps, dim=None, **kw):
        kind = {0: "scalar", 1: "vector", 2: "matrix"}[np.ndim(sigma)]
        t0 = float(rng.choice([0.0, 3.0]))
        path(rec, f"{model} noise {kind} dt={dt} steps={steps}", model, sigma, theta, seed(), t0, t0 + steps * dt, dt, dim, **kw)
    strong = np.array([[8.0, 6.0, -3.0], [6.0, 9.0, -1.0], [-3.0, -1.0, 4.0]])
    # Many short paths: few and large steps, windows of broken numbers of steps.
    for r, (model, dt, steps) in enumerate((m, dt, st) for m in ("DW", "OU", "L63", "L96")
                                           for dt, st in ((0.4, 2.5), (0.05, 1), (0.003, 4.2), (0.0041, 1.3)) if m in ("DW", "OU") or dt < 0.05):
        theta = {"DW": 1.0, "OU": 1.7, "L63": [10.0, 28.0, 2.667], "L96": 8.0}[model]
        sigma = {"DW": 0.6, "OU": 2.5, "L63": strong, "L96": np.linspace(1, 6, 10)}[model]
        t0 = float(rng.choice([0.0, -1.0, 3.0]))
        path(rec, f"{model} short paths dt={dt} steps={steps}", model, sigma, theta, seed(), t0, t0 + steps * dt, dt,
             10 if model == "L96" else None, paths=(300 if model in ("DW", "OU") else 200 if steps < 2 and model == "L63" else 80) * long)
    for dt in (0.01, 0.05):
        law("DW", float(rng.uniform(0.3, 2)), 1.0, dt, 4000 * long)
        law("OU", float(rng.uniform(0.3, 5)), 2.0, dt, 4000 * long)
    law("DW", 0.6, 1.0, 0.01, 4000 * long, setter=True)
    law("DW", 0.8, 1.0, 0.01, 22000 * long)
    law("OU", 1.5, 2.0, 0.0037219, 11000 * long)
    law("L63", np.array([4.0, 1.0, 9.0]), [10.0, 28.0, 2.667], 0.0025, 11000 * long)
    law("L63", 10.0, [10.0, 28.0, 2.667], 0.01, 3000 * long)
    law("L63", np.array([1.0, 25.0, 5.0]), [10.0, 28.0, 2.667], 0.01, 3000 * long)
    law("L63", strong, [10.0, 28.0, 2.667], 0.005, 3000 * long)
    law("L63", strong, [10.0, 28.0, 2.667], 0.01, 3000 * long, setter=True)
    for scale, dt in ((1e-4, 1e-4), (1e-9, 0.01), (30.0, 0.0002)):
        law("L63", strong * scale, [10.0, 28.0, 2.667], dt, 3000 * long)
    # Noise so strong that the drift becomes large, and strong drifts without noise.
    for scale, dt in ((4e4, 0.0005), (1e3, 0.001)):
        law("L63", strong * scale, [10.0, 28.0, 2.667], dt, 600 * long)
        law("L96", 10.0 * scale, 8.0, dt / 10, 300 * long, 10)
        law("DW", 0.05 * scale, 1.0, dt / 100, 800 * long)
    path(rec, "OU far mean", "OU", tiny, 40.0, seed(), 0.0, 0.5, 0.01, quiet=True, mu=5e4)
    path(rec, "L96 strong forcing", "L96", tiny, 25.0, seed(), 0.0, 0.05, 0.001, 10, quiet=True)
    path(rec, "L63 strong drift", "L63", tiny, [30.0, 90.0, 4.0], seed(), 0.0, 0.2, 0.001, quiet=True)
    # Windows far before and after zero.
    for t0 in (-30.0, -1000.0, 55.0, 4000.0):
        for model, theta in (("DW", 1.1), ("OU", 2.0), ("L63", [10.0, 28.0, 2.667]), ("L96", 8.0)):
            path(rec, f"{model} window from {t0}", model, 1e-3 if model != "OU" else 1e-22, theta, seed(), t0, t0 + 0.4, 0.0078125, 10 if model == "L96" else None,
                 quiet=model == "OU", mu=None)
            if model == "OU":
                path(rec, f"OU window from {t0} with a strong drift", model, 2.0, 8.0, seed(), t0, t0 + 150.0, 0.1, mu=-2.5)
    law("L96", 1e-3 * spd(rng, 10, 4.0, 1.5), 8.0, 0.0005, 1000 * long, 10)
    law("DW", 1e-6, 1.0, 0.001, 4000 * long)
    law("L96", 3.0, 8.0, 0.001, 10500, 10)
    law("OU", 1e6, 2.0, 0.001, 4000 * long)
    law("L96", 2.0, np.linspace(5, 9, 10), 0.01, 500 * long, 10)
    law("L96", 4.0, 8.0, 0.005, 1000 * long, 10)
    law("L96", np.linspace(1, 6, 11), 8.0, 0.01, 2200 * long, 11)
    law("L96", spd(rng, 10, 1.0, 1.5), 8.0, 0.004, 1000 * long, 10)
