"""Unscented transform (C07)."""
import numpy as np
from rec import *
from src.numerics.utilities import ut_approx


def run(rec, rng, tier):
    reps = 3 if tier == "quick" else 20
    for d in (1, 2, 3, 5, 8, 12, 40, 70):
        for kind in ("spd", "diag", "scaled", "illcond", "indefinite", "zero-mean", "no variance", "one variance",
                     "one zero", "one zero, correlated",
                     "tiny", "huge", "stretched", "far", "whole", "equal", "negligible", "minute"):
            if d == 70 and kind not in ("spd", "stretched"):
                continue
            if d > 8 and kind not in ("spd", "indefinite", "no variance", "stretched"):
                continue
            for fun in ("table", "affine", "quadratic", "nonlinear"):
                for r in range(1 if fun != "table" or d > 8 else reps):
                    if d < {"indefinite": 2, "one variance": 2, "one zero": 2, "stretched": 2, "equal": 2, "negligible": 2, "one zero, correlated": 3}.get(kind, 1):
                        continue
                    m = rng.standard_normal(d) * 2
                    s = spd(rng, d)
                    if kind == "diag":
                        s = np.diag(np.exp(rng.uniform(-2, 2, d)))
                    elif kind == "scaled":
                        s = s * 1e3
                    elif kind == "illcond":
                        s = spd(rng, d, 1.0, 3.0)
                    elif kind == "indefinite":
                        s = np.diag(np.exp(rng.uniform(-1, 1, d)))
                        s[0, 1] = s[1, 0] = 3.0 * np.sqrt(s[0, 0] * s[1, 1])
                    elif kind == "no variance":
                        s = np.zeros((d, d))
                    elif kind == "one variance":
                        s = np.zeros((d, d))
                        s[-1, -1] = 1.7
                    elif kind.startswith("one zero"):       # positive semi-definite, without a Cholesky factor
                        i = int(rng.integers(d))
                        s[i, :] = s[:, i] = 0.0
                        if kind == "one zero":
                            s = s * np.eye(d)
                    elif kind == "tiny":
                        s, m = s * 1e-14, m * 1e-7
                    elif kind == "minute":
                        s, m = s * 1e-24, m * 1e-12
                    elif kind == "huge":
                        s, m = s * 1e14, m * 1e7
                    elif kind == "stretched":
                        w = np.logspace(-4, 4, d)[rng.permutation(d)]
                        s = s * w[:, None] * w
                    elif kind == "negligible":              # but not zero
                        i = int(rng.integers(d))
                        s[i, :] *= 1e-9
                        s[:, i] *= 1e-9
                    elif kind == "far":                     # from the origin, compared with the spread
                        m = m + 1e3
                    elif kind == "whole":
                        m, s = np.round(m * 3), 3.0 * np.eye(d) + np.outer(np.ones(d), np.ones(d))
                    elif kind == "equal":
                        m, s = np.full(d, 0.8), 0.5 * np.eye(d)
                    elif kind == "zero-mean":
                        m = np.zeros(d)
                    if kind == "whole":
                        m, s = m.astype(int), s.astype(int)
                    k = int(rng.integers(1, 5))
                    mat, off = rng.standard_normal((k, d)), rng.standard_normal(k)
                    quad = rng.standard_normal((k, d, d))
                    if kind == "minute" and r % 2 == 0:       # a function that shows the differences
                        mat, quad = mat * 1e12, quad * 1e24
                    table = rng.standard_normal((2 * d + 1, k)) * 3 + rng.standard_normal(k) * 5
                    extra = [float(rng.standard_normal()), rng.standard_normal(2)]
                    log = dict(calls=0, chi=[], y=[], args_ok=True)

                    def f(chi, *args):
                        log["calls"] += 1
                        log["chi"] = np.array(chi)
                        log["args_ok"] = log["args_ok"] and same(list(extra), list(args))
                        if fun == "table":
                            y = table
                        elif fun == "affine":
                            y = chi.dot(mat.T) + off
                        elif fun == "quadratic":
                            y = np.einsum("pi,kij,pj->pk", chi, quad, chi) + off
                        else:
                            y = np.sin(chi.dot(mat.T)) * 2 + off
                        log["y"] = y.copy()
                        return y
                    keep = frozen(m, s)
                    if (d + len(kind) + r) % 2:

                        def once():                # the log is that of the middle call
                            log["calls"] = 0
                            out = ut_approx(f, m, s, *extra)
                            last.append(dict(log))
                            return out
                        last = []
                        res, outcome, exc = attempt(amid, once, m, s)
                        log = last[1] if len(last) == 3 else log
                    else:
                        res, outcome, exc = attempt(ut_approx, f, m, s, *extra)
                    ybar, ycov = ([], [])
                    if outcome == "ok":
                        try:
                            ybar, ycov = res
                        except (TypeError, ValueError):
                            outcome = "error"
                    used = s * np.eye(d) if kind in ("indefinite", "one zero, correlated") else s
                    em = mat @ m + off if fun == "affine" else np.einsum("kij,ij->k", quad, used + np.outer(m, m)) + off
                    rec.trace(f"D={d} {kind} {fun} {r}", outcome=outcome, exc=exc, fun=fun, m=enc(m), S=enc(s),
                              calls=log["calls"], chi=enc(log["chi"]), y=enc(log["y"]), args_ok=log["args_ok"],
                              ybar=enc(ybar), ycov=enc(ycov), exact_mean=enc(em),
                              exact_cov=enc(mat @ used @ mat.T), inputs_kept=same(keep, [m, s]))
