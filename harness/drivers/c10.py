"""Free energy and gradient (C10)."""
import numpy as np
from rec import *
from drivers.vgp import *

SCHEMES = ("euler", "heun", "rk2", "rk4")


def system(rec, name, p, a, b, form=""):
    x = p.pack(a, b)
    if form == "whole":
        x = x.astype(int)
    elif form == "strided":
        x = np.repeat(x, 2)[::2]
    keep = frozen(x)

    def go():
        v = p.build()
        v.model.time_window                      # the grid is the one given
        f = v.free_energy(x)
        g = v.gradient(x)
        return float(f), outputs(p, v, g)
    res, outcome, exc = attempt(go)
    f, o = res if outcome == "ok" else (0.0, dict(mt=[], st=[], lam=[], psi=[], Ef=[], Edf=[], ga=[], gb=[], shapes=[], want_shapes=[]))
    rec.trace(name, kind="system", outcome=outcome, exc=exc, A=enc(a), b=enc(b), F=num(f),
              inputs_kept=same(keep, [x]), **p.record(), **o)


def refine(rec, name, seed, model, scheme, levels, dirs=3, **kw):
    """Smooth functions of time on finer and finer grids."""
    rng = np.random.default_rng(seed)
    d = DIM[model]
    length, eps = 1.0, 1e-4

    def function(shape_):
        c = rng.standard_normal((3, *shape_))
        return lambda t: np.tensordot(np.stack([np.ones_like(t), np.sin(2 * t), np.cos(3 * t)]), c, axes=(0, 0))
    fa, fb = function((d, d)), function((d,))
    us = [(function((d, d)), function((d,))) for _ in range(dirs)]

    def go():
        out = []
        for n in levels:
            # The problem itself (data, prior, noise) is the same at every level.
            p = Problem(np.random.default_rng(seed + 1), model, scheme, n + 1, length / n,
                        times=[n // 4, n // 2, 3 * n // 4], **kw)
            x = p.pack(0.4 * fa(p.tk) + 1.5 * np.eye(d), 1.5 * fb(p.tk))
            v = p.build()
            v.free_energy(x)
            g = v.gradient(x)
            u = [p.pack(ua(p.tk), ub(p.tk)) for ua, ub in us]
            out.append(dict(g=enc(g), u=enc(np.array(u)), fp=[num(v.free_energy(x + eps * w)) for w in u],
                            fm=[num(v.free_energy(x - eps * w)) for w in u]))
        return out
    res, outcome, exc = attempt(go)
    rec.trace(name, kind="refine", outcome=outcome, exc=exc, eps=num(eps), levels=res or [])


def run(rec, rng, tier):
    for model in ("DW", "OU", "L63", "L96"):
        for scheme in SCHEMES:
            for r in range((2 if model == "L96" else 5) if tier == "quick" else 12):
                n = int(rng.choice([5, 9])) if model != "L96" else 3
                times = [None, [0, n - 1], [n - 1], [0, 1], [n // 2]][int(rng.integers(5))]
                d = int(rng.choice([10, 11])) if model == "L96" else DIM[model]
                theta = None if rng.random() < 0.4 else \
                    {"DW": float(rng.choice([-0.7, 0.3, 2.0])), "OU": float(np.exp(rng.uniform(-2, 2))), "L63": rng.uniform(0.5, 1.5, 3) * [10.0, 28.0, 2.667],
                     "L96": rng.uniform(-2, 9, d) if rng.random() < 0.5 else float(rng.uniform(-2, 9))}[model]
                p = Problem(rng, model, scheme, n, float(rng.choice([0.01, 0.05, 0.1, 0.0037219])), float(rng.choice([0.0, 1.5, -2.0])), times,
                            dim=d, theta=theta)
                system(rec, f"{model} {scheme} {r} n={n} times={p.times}", p, *p.random_x(rng, 0.25 if model == "L96" else 1.0))
    # Coincidences of the inputs, and parameters that are nothing.
    for i, what in enumerate(("means", "covariances", "prior", "zero", "unit", "blind", "observed", "equal noise",
                              "fewer", "combined", "weak noise", "strong noise", "precise", "vague",
                              "one component", "one combination")):
        for j, model in enumerate(("DW", "OU", "L63") + (("L96",) if tier != "quick" or i % 4 == 0 else ())):
            n = 5 if model != "L96" else 3
            p = Problem(rng, model, SCHEMES[(i + j) % 4], n, 0.05, times=[0, 1, n - 1]).coincide(what)
            a, b = p.random_x(rng, 0.25 if model == "L96" else 1.0)
            system(rec, f"{model} {p.scheme} {what} coincide", p, a, b)
            if i < 3:
                system(rec, f"{model} {p.scheme} {what} coincide, {('no drift', 'no offset', 'nothing')[i]}", p, a * (i == 1), b * (i == 0))
    # Grids of two points, fine and coarse ones, long ones; parameters that stay
    # the same for a step; whole and oddly stored parameters.
    for i, (model, n, dt) in enumerate((("DW", 2, 0.05), ("OU", 2, 0.3), ("L63", 2, 0.01), ("L96", 2, 0.01), ("OU", 6, 1e-6), ("DW", 6, 1e-5), ("L63", 4, 1e-6),
                                        ("OU", 5, 0.9), ("DW", 4, 0.6), ("L63", 4, 0.3), ("OU", 260, 0.01), ("DW", 140, 0.0037219), ("L63", 45, 0.01))):
        for j in range(2):
            p = Problem(rng, model, SCHEMES[(i + j) % 4], n, dt, -0.7, times=[0, n - 1][j:] + ([n // 3] if n > 6 else []))
            p.times = sorted(p.times)
            system(rec, f"{model} {p.scheme} n={n} dt={dt}", p, *p.random_x(rng, 0.25 if n > 20 or dt > 0.2 else 0.6))
    for i, model in enumerate(("DW", "OU", "L63")):
        for j in range(2):
            p = Problem(rng, model, SCHEMES[(i + 2 * j) % 4], 9, 0.03, times=[2, 5, 6])
            system(rec, f"{model} {p.scheme} hold {j}", p, *hold(rng, *p.random_x(rng)))
            p = Problem(rng, model, SCHEMES[(i + 2 * j + 1) % 4], 6, 0.03, times=[1, 4])
            a, b = (np.round(2 * v) for v in p.random_x(rng))
            system(rec, f"{model} {p.scheme} {('whole', 'strided')[j]} parameters", p, a, b, form=("whole", "strided")[j])
    for model, theta in (("DW", 0.0), ("L63", [0.0, 28.0, 2.667]), ("L63", [10.0, 28.0, 0.0]), ("L96", 0.0)):
        p = Problem(rng, model, "rk2", 5 if model != "L96" else 3, 0.0301, theta=theta)
        system(rec, f"{model} theta={theta}", p, *p.random_x(rng, 0.25 if model == "L96" else 1.0))
    p = Problem(rng, "L63", "rk4", 5, 0.05, sigma=spd(rng, 3, 4.0))
    system(rec, "L63 correlated-noise assembly", p, *p.random_x(rng))
    for model in ("DW", "OU", "L63"):
        for scheme in SCHEMES:
            for r in range(1 if tier == "quick" else 4):
                refine(rec, f"{model} {scheme} refinement {r}", int(rng.integers(1 << 30)), model, scheme,
                       (32, 64, 128) if tier == "quick" else (64, 128, 256))
    refine(rec, "L96 refinement", int(rng.integers(1 << 30)), "L96", "euler", (16, 32), dirs=2)
    refine(rec, "L63 correlated-noise refinement", int(rng.integers(1 << 30)), "L63", "rk2", (32, 64),
           sigma=np.array([[6.0, 2.0, 1.0], [2.0, 5.0, -1.5], [1.0, -1.5, 7.0]]))
