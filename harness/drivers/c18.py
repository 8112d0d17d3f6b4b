"""Complete simulations (C18)."""
import contextlib, io
import numpy as np
from rec import *
from src.var_bayes.simulation import Simulation

SCHEMES = ("Euler", "Heun", "RK2", "RK4")
THETA = {"DW": 1.0, "OU": 2.0, "L63": [10.0, 28.0, 2.667], "L96": 8.0}
DIM = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}
PATHS = ("at", "bt", "mt", "st", "Efx", "Edf", "lamt", "psit")


def config(rng, model, scheme, steps, dt, density, t0=0.0, **kw):
    given, model = model, model.upper()
    p = {"Output_Name": "Sim", "Model": given, "Ode-method": scheme, "Random-Seed": int(rng.integers(1, 1 << 30)),
         "Time-window": {"t0": t0, "tf": t0 + steps * dt, "dt": dt},
         "Noise": {"sys": round(float(rng.uniform(0.5, 1.5) if DIM[model] == 1 else rng.uniform(4, 12)), 3),
                   "obs": round(float(rng.uniform(0.04, 0.5) if DIM[model] == 1 else rng.uniform(0.5, 2)), 3)},
         "Observations": {"density": density, "operator": None}, "Drift": {"theta": THETA[model]},
         "Prior": {"mu0": round(float(rng.uniform(-1, 1)), 3), "tau0": round(float(rng.uniform(0.3, 1.5)), 3)}}
    p.update(kw)
    return p


def quietly(fun, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return attempt(fun, *args)


def start_value(params):
    """Free energy of the initial guess of an equal simulation (C10, C23)."""
    from src.var_bayes.simulation import FwdOde, BwdOde, GaussianLikelihood, PriorKL0, VarGP
    sim = Simulation("start")
    sim.setup(copy.deepcopy(params), None)
    m = sim.m_data
    dt, sch, one = params["Time-window"]["dt"], params["Ode-method"], m["single_dim"]
    v = VarGP(m["model"], m["m0"], m["s0"], FwdOde(dt, sch, one), BwdOde(dt, sch, one),
              GaussianLikelihood(m["obs_y"], m["obs_t"], m["obs_noise"], None, one),
              PriorKL0(m["mu0"], m["tau0"], one), m["obs_y"], m["obs_t"])
    return float(v.free_energy(v.initialization()))


def as_matrix(v, d):
    v = np.asarray(v, dtype=float)
    return v * np.eye(d) if v.ndim == 0 else np.diag(v) if v.ndim == 1 else v


def stored(params, o, m, f_start, keep=True):
    """The record of one completed simulation."""
    d = DIM[params["Model"].upper()]
    one = d == 1
    n = len(m["model"].time_window)
    r = dict(mt=[], st=[], lam=[], psi=[], Ef=[], Edf=[], A=[], b=[], F="0.0", shapes=[], want_shapes=[], names_complete=False)
    r["names_complete"] = set(o) == set(PATHS) | {"fx", "m0", "s0"}
    r["shapes"] = [shape(o[k]) if k in o else [-1] for k in PATHS]
    mat, vec = ([n], [n]) if one else ([n, d, d], [n, d])
    r["want_shapes"] = [mat, vec, vec, mat, vec, mat, vec, mat]
    if r["shapes"] == r["want_shapes"] and r["names_complete"]:
        v, w = (seq1, seq11) if one else (enc, enc)
        r.update(A=w(o["at"]), b=v(o["bt"]), mt=v(o["mt"]), st=w(o["st"]), lam=v(o["lamt"]), psi=w(o["psit"]),
                 Ef=v(o["Efx"]), Edf=w(o["Edf"]), F=num(np.asarray(o["fx"]).item()),
                 m0=enc(np.asarray(o["m0"], dtype=float).reshape(d)), S0=enc(np.asarray(o["s0"], dtype=float).reshape(d, d)))
    else:
        r.update(m0=enc(np.zeros(d)), S0=enc(np.eye(d)), names_complete=False)
    win = params["Time-window"]
    times = [int(i) for i in m["obs_t"]]
    r.update(model=params["Model"].upper(), scheme=params["Ode-method"].lower(), n=n, dim=d, dt=num(win["dt"]), h=num(win["dt"]),
             t0=num(win["t0"]), tf=num(win["tf"]), theta=enc(np.atleast_1d(params["Drift"]["theta"])),
             sigma=enc(as_matrix(params["Noise"]["sys"], d)), R=enc(as_matrix(params["Noise"]["obs"], d)), H=enc(np.eye(d)),
             times=times, y=enc(np.asarray(m["obs_y"], dtype=float).reshape(len(times), d)),
             mu0=enc(params["Prior"]["mu0"] * np.ones(d)), tau0=enc(params["Prior"]["tau0"] * np.eye(d)),
             ga=[], gb=[], Fstart=num(f_start), inputs_kept=bool(keep))
    return r


def failed(rec, name, outcome, exc):
    rec.trace(name, kind="run", outcome="error", exc=exc)


def case(rec, name, params, runs=1, before=None):
    given = copy.deepcopy(params)
    sim = Simulation("case")

    def go():
        # What the same object was used for earlier.
        if before is not None:
            sim.setup(before, None)
            sim.run()
        sim.setup(params, None)
        # The data as they are before the optimisation.
        data = frozen(sim.m_data["obs_t"], sim.m_data["obs_y"], sim.m_data["m0"], sim.m_data["s0"], sim.m_data["model"].sample_path)
        for _ in range(runs):
            sim.run()
        m = sim.m_data
        keep = same(data, [m["obs_t"], m["obs_y"], m["m0"], m["s0"], m["model"].sample_path]) and same(given, params)
        keep = keep and np.allclose(np.asarray(sim.output["m0"]), data[2]) and np.allclose(np.asarray(sim.output["s0"]), data[3])
        return stored(given, sim.output, m, start_value(given), keep)
    res, outcome, exc = quietly(go)
    if outcome != "ok":
        return failed(rec, name, outcome, exc)
    rec.trace(name, kind="run", outcome="ok", exc="", **res)


def run(rec, rng, tier):
    quick = tier == "quick"
    for r in range(2 if quick else 6):
        for model in ("DW", "OU", "L63"):
            for scheme in SCHEMES:
                dt = [0.02, 0.01, 0.05][int(rng.integers(3))] if model != "L63" else 0.01
                steps = int(rng.choice([20, 30])) if model != "L63" else int(rng.choice([8, 14]))
                dens = float(rng.choice([0.12, 0.25])) / dt if model != "L63" else 25
                t0 = float(rng.choice([0.0, 1.0, -0.5]))
                case(rec, f"{model} {scheme} {r}", config(rng, model, scheme, steps, dt, dens, t0))
    # steps with many digits, and windows that are not a whole number of steps
    for model, scheme, dt, extra in (("OU", "Euler", 0.0125, 0), ("DW", "RK4", 1 / 64, 0), ("OU", "Heun", 1 / 30, 0), ("DW", "RK2", 0.0301, 0.4),
                                     ("L63", "RK2", 0.00375, 0), ("L63", "Euler", 1 / 300, 0.5)):
        p = config(rng, model, scheme, 8 if model == "L63" else 20, dt, 3.3 / ((8 if model == "L63" else 20) * dt), -0.3)
        p["Time-window"]["tf"] += extra * dt
        case(rec, f"{model} {scheme} dt={dt:.6g}", p)
    # letter case, a single observation, an observation at almost every point, a second run
    case(rec, "l63 rk4 letter case", config(rng, "l63", "rk4", 8, 0.01, 25))
    case(rec, "dw heun twice", config(rng, "dw", "heun", 20, 0.02, 6), runs=2)
    case(rec, "L63 Heun twice", config(rng, "L63", "Heun", 8, 0.01, 25), runs=2)
    # one object for several simulations
    for model, scheme, other in (("OU", "Euler", "OU"), ("DW", "RK2", "OU"), ("OU", "Heun", "L63"), ("L63", "RK4", "DW"), ("L63", "Euler", "L63")):
        steps, dt, dens = (8, 0.01, 25) if model == "L63" else (20, 0.02, 6)
        old = (8, 0.01, 25) if other == "L63" else (steps if model != "L63" else 20, 0.02, 6)
        case(rec, f"{model} {scheme} after {other}", config(rng, model, scheme, steps, dt, dens), before=config(rng, other, scheme, *old))
    # noise given per component, and as matrices
    for scheme, how in zip(SCHEMES, (lambda v: list(v), lambda v: np.diag(v).tolist(), np.array, np.diag)):
        p = config(rng, "L63", scheme, 8, 0.01, 25)
        p["Noise"] = {"sys": how(np.round(rng.uniform(4, 12, 3), 3)), "obs": how(np.round(rng.uniform(0.5, 2, 3), 3))}
        case(rec, f"L63 {scheme} noise of components", p)
    # other drift parameters, priors per component, noise small or large
    for scheme, (model, theta) in zip(SCHEMES * 2, (("DW", 0.6), ("OU", 0.5), ("L63", (9.5, 30.0, 2.1)), ("DW", 1.4), ("OU", 5.0),
                                                    ("L63", np.array([10, 26, 3])), ("DW", 2), ("L63", [8, 20.0, 1.5]))):
        p = config(rng, model, scheme, 8 if model == "L63" else 20, 0.01 if model == "L63" else 0.02, 25 if model == "L63" else 8)
        p["Drift"] = {"theta": theta}
        if model == "L63":
            p["Prior"] = {"mu0": np.round(rng.uniform(-1, 1, 3), 3).tolist(), "tau0": np.round(rng.uniform(0.4, 1.5, 3), 3).tolist()}
        case(rec, f"{model} {scheme} theta {theta}", p)
    for model, scheme, sys, obs in (("DW", "Heun", 0.02, 0.001), ("OU", "RK4", 6, 3), ("DW", "Euler", 5.0, 4.0), ("OU", "RK2", 0.01, 0.5),
                                    ("L63", "Heun", 60.0, 0.01), ("L63", "RK4", 1, 12.0)):
        p = config(rng, model, scheme, 8 if model == "L63" else 20, 0.01 if model == "L63" else 0.02, 25 if model == "L63" else 8)
        p["Noise"] = {"sys": sys, "obs": obs}
        case(rec, f"{model} {scheme} noise {sys} {obs}", p)
    case(rec, "OU RK2 one observation", config(rng, "OU", "RK2", 20, 0.05, 1.5))
    case(rec, "DW Euler dense", config(rng, "DW", "EULER", 20, 0.05, 19.0))
    for scheme in SCHEMES[:1] if quick else SCHEMES:
        case(rec, f"L96 {scheme}", config(rng, "L96", scheme, 3, 0.01, 50))
