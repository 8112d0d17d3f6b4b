"""The gradient check (C26)."""
import contextlib, io, re
from decimal import Decimal
import numpy as np
from rec import *
from src.numerics.optim_scg import SCG
from drivers.scg import objectives
from drivers.vgp import Problem


def full(x):
    """Every digit: the differences of f over 2e-6 magnify what a shortened number leaves out."""
    return [str(Decimal(float(v))) for v in np.asarray(x, dtype=float).ravel()]


def case(rec, name, fun, grad, x, tol=None, opts=None):
    f_calls, df_calls, ga = [], [], []
    keep = frozen(x)

    def f(p, *args):
        v = fun(np.array(p, dtype=float))
        f_calls.append(dict(x=full(p), v=full(v)[0]))
        return v

    def df(p, *args, eval_fun=False):
        g = grad(np.array(p, dtype=float))
        df_calls.append(dict(x=full(p), eval_fun=bool(eval_fun)))
        ga.append(np.array(g, dtype=float))
        return g

    def go():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            SCG(f, df, *([opts] if opts else [])).check_gradient_function(*([x] if tol is None else [x, tol]))
        return out.getvalue()
    with np.errstate(all="ignore"):
        text, outcome, exc = attempt(go)
    text = text or ""
    words = re.findall(r"\b(PASSED|FAILED)\b", text)
    number = re.search(r"difference is:\s*([-+0-9.eE]+?)\.?\s*$", text, re.M)
    rec.trace(name, outcome=outcome, exc=exc, x=full(x), tol=num(1e-4 if tol is None else tol),
              ga=full(ga[0]) if ga else [], f_calls=f_calls, df_calls=df_calls, verdict=words[-1] if len(words) == 1 else "?",
              printed=number.group(1) if number else "", kept=same(keep, [x]))


def run(rec, rng, tier):
    reps = 4 if tier == "quick" else 30
    for r in range(reps):
        for d in (1, 2, 5, 12):
            for name, (f, g) in objectives(rng, d).items():
                if name == "kink":
                    continue
                x = rng.standard_normal(d)
                tol = [None, 1e-4, 1e-6, 1e-2][r % 4]
                t = 1e-4 if tol is None else tol
                # Options belong to the search, not to the check.
                opts = None if rng.random() < 0.5 else dict(max_it=int(rng.integers(1, 9)), x_tol=float(10 ** rng.uniform(-9, 1)),
                                                            f_tol=float(10 ** rng.uniform(-9, 1)), display=bool(rng.random() < 0.5))
                case(rec, f"{name} d={d} {r} right", f, g, x, tol, opts)
                # Errors of the gradient of known size, on both sides of the
                # tolerance per component: in one entry, or spread out.
                for factor in (0.3, 0.8, 1.2, 3.0, 1e4):
                    e = np.zeros(d)
                    e[rng.integers(d)] = 1.0
                    if rng.random() < 0.5:
                        e = rng.standard_normal(d)
                        e /= np.linalg.norm(e)
                    e *= factor * t * d
                    case(rec, f"{name} d={d} {r} off by {factor}", f, lambda p: g(p) + e, x, tol, opts)
                case(rec, f"{name} d={d} {r} negative", f, lambda p: -g(p), x, tol, opts)
        # A wrong direction of the right length, and a large gradient with a small relative error.
        c = rng.standard_normal(4) * 1e3
        case(rec, f"permuted {r}", lambda p: float(c @ p), lambda p: c[::-1].copy(), rng.standard_normal(4))
        case(rec, f"small relative error {r}", lambda p: float(c @ p), lambda p: c * (1 + 1e-5), rng.standard_normal(4))
        case(rec, f"small gradient, large relative error {r}", lambda p: float(1e-6 * c @ p * 1e-3), lambda p: c * 2e-9, rng.standard_normal(4))
    # Gradients about as large as the tolerance, with a wrong direction or length.
    for r in range(3 * reps):
        d, size = int(rng.integers(1, 6)), float(10 ** rng.uniform(-4, -2))
        c = rng.standard_normal(d)
        c *= size / np.linalg.norm(c)
        for word, w in (("opposite", -c), ("turned", np.roll(c, 1)), ("twice", 2.0 * c), ("long opposite", -20.0 * c), ("zero", 0.0 * c)):
            gap = float(np.linalg.norm(c - w)) / d
            for factor in (0.7, 0.95, 1.05, 2.0):
                if gap > 0.0:
                    case(rec, f"small {word} d={d} {r} tolerance {factor}", lambda p: float(c @ p), lambda p: w.copy(), rng.standard_normal(d), gap * factor)
    # Objectives that do not depend on all components.
    for d, used in ((2, [0]), (5, [1, 4]), (8, [0, 1, 2, 3])):
        w = np.zeros(d)
        w[used] = rng.uniform(1, 3, len(used))
        for size in (0.0, 0.7, 1.3, 1e4):
            e = np.zeros(d)
            e[[i for i in range(d) if i not in used]] = 1.0
            e *= size * 1e-4 * d / np.linalg.norm(e)
            case(rec, f"unused components d={d} off by {size}", lambda p: float(w @ (p * p)), lambda p: 2.0 * w * p + e, rng.standard_normal(d))
            case(rec, f"components at rest d={d} off by {size}", lambda p: float(p @ p), lambda p: 2.0 * p + e, w.copy())
    case(rec, "zero gradients", lambda p: 3.0, lambda p: np.zeros(3), np.ones(3))
    case(rec, "whole numbers", lambda p: float(p @ p), lambda p: 2.0 * p, np.array([1, -2, 3]))
    case(rec, "options", lambda p: float(p @ p), lambda p: 2.0 * p, rng.standard_normal(3), 1e-5, dict(max_it=3, x_tol=1.0, f_tol=1.0, display=True))
    # Many variables, with an error in one of the entries.
    for d, name, ats in ((40, "ripple", (None, 0, 39)), (110, "quadratic", (None, 70, 109)), (300, "quadratic", (None, 150, 299)))[:2 if tier == "quick" else 3]:
        f, g = objectives(rng, d)[name]
        for at in ats:
            e = np.zeros(d)
            if at is not None:
                e[at] = 3e-4 * d
            case(rec, f"{name} d={d} entry {at}", f, lambda p: g(p) + e, rng.standard_normal(d))
    # Variational problems, with the gradient as it is and with one entry off.
    for model in ("DW", "OU"):
        p = Problem(rng, model, "rk4", 5, 0.001, dim=None)
        v = p.build()
        x = p.pack(*p.random_x(rng, 0.3))
        for off in (0.0, 1.0):
            e = np.zeros(x.size)
            e[x.size // 2] = off
            case(rec, f"{model} off by {off}", v.free_energy, lambda q: v.gradient(q, eval_fun=True) + e, x)
