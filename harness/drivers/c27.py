"""Where sample paths start (C27)."""
import numpy as np
from rec import *
from drivers.energy import CLS


def absent(mod):
    """Path, window and step of a model without a path are not to be had."""
    out = [attempt(getattr, mod, n)[1] for n in ("sample_path", "time_window", "time_step")]
    return out == ["error"] * 3


def case(rec, name, model, theta, paths, dim=None, sigma="0", dt="0"):
    """`paths': functions that return (start, mean, absent)."""
    def go():
        return [p() for p in paths]
    res, outcome, exc = attempt(go)
    res = res or []
    rec.trace(name, model=model, outcome=outcome, exc=exc, dim=dim or (3 if model == "L63" else 1), theta=enc(np.atleast_1d(theta)),
              sigma=num(sigma), dt=num(dt), starts=[enc(np.atleast_1d(r[0])) for r in res], mu=[num(r[1]) for r in res],
              absent=all(r[2] for r in res))


def run(rec, rng, tier):
    quick = tier == "quick"
    seed = lambda: None if rng.random() < 0.2 else int(rng.integers(0, 1 << 30))

    def windows():
        t0 = float(rng.choice([0.0, -2.0, 1.25]))
        dt = float(rng.choice([0.01, 0.02, 0.005, 0.0037219, 0.0005]))
        return t0, t0 + float(rng.choice([1, 3, 10.5])) * dt, dt

    def lorenz(model, theta, dim=None):
        d = dim or 3
        sig = rng.choice(["scalar", "vector", "matrix", "tiny"])
        sigma = {"scalar": 4.0, "vector": np.linspace(1, 6, d), "matrix": spd(rng, d, 3.0, 1.0), "tiny": 1e-8}[str(sig)]
        how = str(rng.choice(["new", "set", "again"]))

        def go():
            extra = (dim,) if model == "L96" else ()
            first = theta if how != "set" else np.asarray(theta) * 1.1
            mod = CLS[model](sigma, first, seed(), *extra)
            none = absent(mod)
            if how == "set":
                mod.theta = theta
            if how == "again":
                mod.make_trajectory(*windows())
            mod.make_trajectory(*windows())
            return mod.sample_path[0].copy(), 0.0, none
        return go
    for r in range(4 if quick else 12):
        theta = [[10.0, 28.0, 8.0 / 3.0], [10.0, 28.0, 2.6667], (rng.uniform(0.7, 1.3, 3) * [10.0, 28.0, 2.667]).tolist(), [10, 25, 3]][r % 4]
        case(rec, f"L63 {r}", "L63", theta, [lorenz("L63", theta) for _ in range(6)])
    for r, d in enumerate((10, 11, 17, 40) if quick else (10, 11, 12, 13, 17, 26, 33, 36, 40, 41, 50)):
        theta = [8.0, float(rng.uniform(2, 9)), 7, 8.17][r % 4]
        if r % 4 == 1:
            theta = rng.uniform(4, 9, d)
        case(rec, f"L96 D={d} {r}", "L96", theta, [lorenz("L96", theta, d) for _ in range(4)], dim=d)
    # Nearly equal parameters, one after another.
    for eps in (0.0, 1e-4, 1e-7, -1e-4, 0.0):
        theta = 8.0 + eps
        case(rec, f"L96 D=10 theta=8{eps:+}", "L96", theta, [lorenz("L96", theta, 10) for _ in range(2)], dim=10)
        theta = [10.0, 28.0 + eps, 2.667]
        case(rec, f"L63 theta=28{eps:+}", "L63", theta, [lorenz("L63", theta) for _ in range(2)])
    for theta in ([10.0, 28.0, 0.0], [0.0, 0.0, 0.0], [28.0, 10.0, 2.667], [10.0, 2.667, 28.0]):
        case(rec, f"L63 theta={theta}", "L63", theta, [lorenz("L63", theta) for _ in range(2)])
    for theta in (0.0, 0, -2.0, 8.0):
        case(rec, f"L96 D=11 theta={theta}", "L96", theta, [lorenz("L96", theta, 11) for _ in range(2)], dim=11)

    def ou(mu, how):
        def go():
            mod = CLS["OU"](float(np.exp(rng.uniform(-3, 2))), float(rng.uniform(0.2, 4)), seed())
            none = absent(mod)
            if how == "again":
                mod.make_trajectory(*windows(), mu=5.0)
            mod.make_trajectory(*windows(), **({} if mu is None else dict(mu=mu)))
            return mod.sample_path[0], mu or 0.0, none
        return go
    case(rec, "OU", "OU", 1.0, [ou(mu, how) for mu in (None, 0.0, 1.0, -2.0, 0.37, 3, -1e3) for how in ("new", "again") for _ in range(3)])

    def dw(sigma, theta, dt, how, state):
        def go():
            if how == "new" or "mod" not in state:
                state["mod"] = CLS["DW"](sigma, theta if how != "set" else 2.2 * theta, int(rng.integers(0, 1 << 30)))
                state["none"] = absent(state["mod"])
            mod = state["mod"]
            if how == "set":
                mod.theta = theta
            t0 = float(rng.choice([0.0, -2.0, 1.25]))
            mod.make_trajectory(t0, t0 + 2 * dt, dt)
            return mod.sample_path[0], 0.0, state["none"]
        return go
    for r in range(6 if quick else 20):
        theta, dt = [1.0, float(rng.uniform(0.8, 2)), 2, -1.3][r % 4], [0.01, 0.002, 0.3, 0.0037219, 0.8][r % 5]
        sigma = [0.8, float(rng.uniform(0.1, 1.0)), 1][r % 3]
        how = ["new", "again", "set"][r % 3]
        state = {}
        case(rec, f"DW {how} theta={theta} sigma={sigma} dt={dt}", "DW", theta, [dw(sigma, theta, dt, how, state) for _ in range(1500 if quick else 6000)],
             sigma=sigma, dt=dt)
