"""Drift energies of DW, OU and L63 (C04, C05)."""
import numpy as np
from rec import *
from src.dynamics.double_well import DoubleWell
from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck
from src.dynamics.lorenz_63 import Lorenz63
from src.dynamics.lorenz_96 import Lorenz96

CLS = {"DW": DoubleWell, "OU": OrnsteinUhlenbeck, "L63": Lorenz63, "L96": Lorenz96}


def grid(rng, n):
    t0 = float(rng.choice([0.0, -1.0, 2.5]))
    dt = float(rng.choice([0.01, 0.005, 0.125, 0.3, 0.0037219]))
    return t0 + dt * np.arange(n)


def splits(rng, n):
    k = int(rng.integers(0, max(1, n // 2) + 1))
    s = sorted(set(rng.integers(0, n, k).tolist()))
    if rng.random() < 0.3:
        s = sorted(set(s + [0]))
    if rng.random() < 0.3:
        s = sorted(set(s + [n - 1]))
    return s


WARM = ("fresh", "other", "near", "longer", "updated", "amid")


def warm(mod, how, rng, model, d, tk, args, sigma, theta):
    """What the model object has done before the recorded evaluation."""
    single = model in ("DW", "OU")
    if how == "updated":                    # the parameters of the record are set afterwards
        arg = lambda v, k: v * k if single else np.asarray(v, dtype=float) * k
        mod.sigma = float(sigma) * 3.0 if single else 3.0 * np.eye(d)
        mod.theta = arg(theta, 1.5)
    other = []
    for v in args[:4]:
        v = np.array(v, dtype=float)
        w = v * (1 + 1e-7) if how == "near" else v
        if how == "longer":
            w = np.concatenate((v, v[:1]))
        other.append(w[::-1].copy() if how in ("other", "updated") else w)
    n = len(tk) + (how == "longer")
    mod.time_window = tk[0] + (tk[1] - tk[0]) * np.arange(n)
    mod.sample_path = np.zeros(n) if single else np.zeros((n, d))
    mod.energy(*other, list(args[4]))
    if how == "updated":
        mod.sigma = float(sigma) if single else as_matrix(sigma, d)
        mod.theta = theta


def as_matrix(v, d):
    v = np.asarray(v, dtype=float)
    return v * np.eye(d) if v.ndim == 0 else np.diag(v) if v.ndim == 1 else v


def case(rec, name, model, sigma, theta, tk, obs_t, a, b, m, s, dim=None, how="fresh", rng=None, averages=False):
    """Record one evaluation of the energy. a, b, m, s as [n,d,d], [n,d], ..."""
    n, d = m.shape
    make = (lambda: CLS[model](sigma, theta, 3)) if dim is None else (lambda: CLS[model](sigma, theta, 3, dim))
    single = model in ("DW", "OU")
    args = [a.ravel(), b.ravel(), m.ravel(), s.ravel(), obs_t] if single else [a, b, m, s, obs_t]
    if " whole " in name:
        args[:4] = [v.astype(int) for v in args[:4]]
    keep = frozen(*args)

    def go():
        mod = make()
        if how not in ("fresh", "amid"):
            warm(mod, how, rng, model, d, tk, args, sigma, theta)
        mod.time_window = tk
        mod.sample_path = np.zeros(n) if single else np.zeros((n, d))
        return amid(lambda: mod.energy(*args), *args[:4]) if how == "amid" else mod.energy(*args)
    res, outcome, exc = attempt(go)
    if outcome == "ok":
        try:
            e, (ef, edf), (dm, ds, dth, dsig) = res
            e = float(e)
        except (TypeError, ValueError) as x:
            outcome, exc = "error", type(x).__name__
    if outcome != "ok":
        e, ef, edf, dm, ds, dth, dsig = 0.0, [], [], [], [], [], []
    shapes = [shape(v) for v in (ef, edf, dm, ds, dth, dsig)]
    if single:
        want = [[n], [n], [n], [n], [], []]
        ef, edf, dm, ds = seq1(ef), seq11(edf), seq1(dm), seq11(ds)
        dth = enc(np.atleast_1d(dth))
        dsig = enc(np.atleast_2d(dsig))
        full = np.array([[float(sigma)]])
    else:
        q = len(theta) if model == "L63" else d
        want = [[n, d], [n, d, d], [n, d], [n, d, d], [q], [d, d]]
        ef, edf, dm, ds, dth, dsig = [enc(v) for v in (ef, edf, dm, ds, dth, dsig)]
        full = as_matrix(sigma, d)
    if averages and outcome == "ok":
        a, b, dm, ds, dth, dsig, full = (np.zeros(0),) * 2 + ([],) * 4 + (np.zeros((1, 1)),)
    th = np.atleast_1d(theta)
    rec.trace(name, model=model, outcome=outcome, exc=exc, n=n, dim=d, tk=enc(tk[:2]),
              averages=averages, theta=enc(th), theta_out=enc(np.zeros(d if model == "L96" else th.size)), sigma=enc(full),
              A=enc(a), b=enc(b), m=enc(m), S=enc(s), E=num(e), Ef=ef, Edf=edf, dm=dm, ds=ds,
              dth=dth, dsig=dsig, shapes=shapes, want_shapes=want, inputs_kept=same(keep, args))


def moments(rng, n, d, kind):
    """Moments and linear drift of one trace."""
    m = rng.standard_normal((n, d)) * 1.5
    s = np.array([spd(rng, d, 0.7) for _ in range(n)])
    a = rng.standard_normal((n, d, d)) * 2
    b = rng.standard_normal((n, d)) * 2
    if kind == "attractor":
        m = m * 8 + np.array([0.0, 0.0, 25.0])[:d]
        s = s * 5
        a = a * 10
        b = b * 60
    elif kind == "flat":
        m = np.zeros((n, d))
    elif kind == "noA":
        a = np.zeros((n, d, d))
    elif kind == "nob":
        b = np.zeros((n, d))
    elif kind == "diag":
        s = s * np.eye(d)
    elif kind == "unit":           # one entry of each quantity at a time
        m = np.eye(d)[rng.integers(0, d, n)] * 1.0
        e = np.zeros((n, d, d))
        for i in range(n):
            e[i, rng.integers(d), rng.integers(d)] = 1.0
        a = e
        b = np.eye(d)[rng.integers(0, d, n)] * 1.0
    elif kind == "tiny":           # variances far below any fixed tolerance
        s = s * 1e-10
        m = m * (np.arange(n)[:, None] + 1e-5)
    elif kind == "huge":
        s, m = s * 1e6, m * 1e3
    elif kind == "minute":         # an energy that is close to zero, relative differences are not
        s, m, b = s * 1e-18, m * 1e-9, b * 1e-9
    elif kind == "same":           # neighbouring points that agree, or nearly so, in some of the quantities
        for v in (a, b, m, s):
            if rng.random() < 0.7:
                v[1:] = v[0] * (1 + rng.choice([0.0, 1e-7, 1e-6]) * np.arange(1, n).reshape((-1,) + (1,) * (v.ndim - 1)))
    elif kind == "slow":           # a smooth path on a fine grid
        t = np.linspace(0, 1e-3, n)
        a, b, m = (v[:1] + t.reshape((-1,) + (1,) * (v.ndim - 1)) * (v[1:2] - v[:1]) for v in (a, b, m))
        s = s[:1] + t[:, None, None] * (s[1:2] - s[:1])
    elif kind == "hold":           # some of the quantities stay exactly the same for a step
        a, b, m, s = hold(rng, a, b, m, s)
    elif kind == "whole":          # whole numbers (passed as such)
        a, b, m = (np.round(2 * v) for v in (a, b, m))
        s = np.array([2.0 * np.eye(d) + np.outer(v, v) for v in np.round(rng.uniform(-1.4, 1.4, (n, d)))])
    elif kind == "stretched":      # very different variances of the components
        w = np.logspace(-4, 3, d)[rng.permutation(d)] if d > 1 else np.array([1e-4])
        s = s * np.sqrt(w)[:, None] * np.sqrt(w)
    return a, b, m, s


KINDS = ("random", "attractor", "flat", "noA", "nob", "diag", "unit", "tiny", "huge", "same", "slow", "stretched", "hold", "whole", "minute")


def run(rec, rng, tier, correlated=True):
    reps = 2 if tier == "quick" else 12
    for model in ("DW", "OU", "L63"):
        d = 3 if model == "L63" else 1
        for kind in KINDS:
            for r in range(reps):
                n = 16 if kind == "hold" else int(rng.choice([2, 3, 8, 13]))
                a, b, m, s = moments(rng, n, d, kind)
                tk = grid(rng, n)
                if model == "L63":
                    sigma = [float(np.exp(rng.uniform(-1, 2))), np.exp(rng.uniform(-1, 2, 3)),
                             np.diag(np.exp(rng.uniform(-1, 2, 3)))][r % 3]
                    theta = [10.0, 28.0, 2.667] if r % 2 else list(rng.uniform(0.5, 20, 3))
                else:
                    sigma = float(np.exp(rng.uniform(-2, 2)))
                    theta = float(np.exp(rng.uniform(-1, 1.5)))
                case(rec, f"{model} {kind} {r} n={n}", model, sigma, theta, tk, splits(rng, n), a, b, m, s,
                     how=WARM[int(rng.integers(len(WARM)))], rng=rng)
    # Unusual drift parameters: negative, zero, whole, equal ones.
    for model, thetas in (("DW", (-1.5, 0.0, 1, -2, 1e-9, 300.0)), ("OU", (1, 1e-9, 300.0)),
                          ("L63", ([0.0, 28.0, 2.667], [10.0, 0.0, 2.667], [10.0, 28.0, 0.0], [0.0, 0.0, 0.0], [1, 1, 1], [10, 28, 3], [-10.0, -28.0, -2.0]))):
        for theta in thetas:
            for form in (theta,) if model != "L63" else (theta, np.array(theta)):
                d = 3 if model == "L63" else 1
                a, b, m, s = moments(rng, 5, d, "random")
                case(rec, f"{model} theta={form!r}", model, 0.5 if d == 1 else [0.5, 2.0, 1.0], form, grid(rng, 5), [2], a, b, m, s,
                     how=WARM[int(rng.integers(len(WARM) - 2))], rng=rng)
    # A linear drift that agrees with that of the model, in all or in part.
    for model, theta in (("DW", 1.3), ("OU", 2.0), ("L63", [10.0, 28.0, 2.667])):
        for part in ("matrix", "offset", "both", "nearly", "negative"):
            d = 3 if model == "L63" else 1
            a, b, m, s = moments(rng, 5, d, "random")
            if model == "L63":
                vs, vr, vb = theta
                lin = np.array([[[vs, -vs, 0.0], [w[2] - vr, 1.0, w[0]], [-w[1], -w[0], vb]] for w in m])
                free = np.array([[0.0, w[0] * w[2], -w[0] * w[1]] for w in m])
            else:
                lin = np.full((5, 1, 1), theta if model == "OU" else -4.0 * theta)
                free = np.zeros((5, 1)) if model == "OU" else -4.0 * m ** 3
            lin = lin * dict(nearly=1 + 1e-9, negative=-1.0).get(part, 1.0)
            a, b = a if part == "offset" else lin, b if part in ("matrix", "nearly", "negative") else free
            case(rec, f"{model} agrees {part}", model, 0.5 if d == 1 else [0.5, 2.0, 1.0], theta, grid(rng, 5), [2], a, b, m, s)
    # Unusual noise: very weak, very strong, whole, of very different components.
    for model, sigmas in (("DW", (1e-7, 1e6, 1, 2)), ("OU", (1e-7, 1e6, 1, 2)),
                          ("L63", (1e-7, 1e6, 1, [1, 2, 3], [1e-6, 1.0, 1e5], np.diag([1e5, 1e-6, 1.0]), [[2, 0, 0], [0, 1, 0], [0, 0, 4]], [1.0, 1.0, 1.0]))):
        for sigma in sigmas:
            d = 3 if model == "L63" else 1
            a, b, m, s = moments(rng, 5, d, "random")
            case(rec, f"{model} sigma={np.asarray(sigma).tolist()}", model, sigma, [10.0, 28.0, 2.667] if d == 3 else 1.3, grid(rng, 5), [2], a, b, m, s,
                 how=WARM[int(rng.integers(len(WARM)))], rng=rng)
    # Many grid points.
    for model, n in (("DW", 1100), ("OU", 1100), ("L63", 280)):
        d = 3 if model == "L63" else 1
        a, b, m, s = moments(rng, n, d, "random")
        case(rec, f"{model} n={n}", model, 0.5 if d == 1 else [0.5, 2.0, 1.0], 1.3 if d == 1 else [10.0, 28.0, 2.667], grid(rng, n), list(range(7, n, 13)), a, b, m, s)
    # Correlated noise of unusual size, as far as it is modelled.
    for size in (1e-10, 1e-5, 1e8):
        a, b, m, s = moments(rng, 4, 3, "random")
        case(rec, f"L63 {'correlated-noise' if correlated else 'noise with correlations'} of size {size}", "L63", spd(rng, 3, 3.0) * size,
             [10.0, 28.0, 2.667], grid(rng, 4), [1, 2], a, b, m, s)
    for how in WARM[1:]:
        for model in ("DW", "OU", "L63"):
            d = 3 if model == "L63" else 1
            a, b, m, s = moments(rng, 4, d, "random")
            case(rec, f"{model} {how}", model, np.array([2.0, 0.5, 3.0]) if d == 3 else 0.7, [10.0, 28.0, 2.667] if d == 3 else 1.2,
                 grid(rng, 4), [1], a, b, m, s, how=how, rng=rng)
    for r in range(reps):
        a, b, m, s = moments(rng, 4, 3, "random")
        case(rec, f"L63 {'correlated-noise' if correlated else 'noise with correlations'} {r}", "L63", spd(rng, 3, 3.0), [10.0, 28.0, 2.667],
             grid(rng, 4), [1, 2], a, b, m, s)
