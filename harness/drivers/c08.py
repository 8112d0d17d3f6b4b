"""Observation energy (C08)."""
import numpy as np
from rec import *
from src.var_bayes.gaussian_like import GaussianLikelihood


def large(rec, rng, d, size):
    """Many observed components, with noise far from one."""
    n, t = 4, [1, 2]
    R = np.diag(np.exp(rng.uniform(-1, 1, d))) * size
    if d < 30:
        R = R + 0.2 * size
    y, m = rng.standard_normal((2, d)) * np.sqrt(size), rng.standard_normal((n, d)) * np.sqrt(size)
    s = np.array([np.diag(np.exp(rng.uniform(-1, 1, d))) * size for _ in range(n)])
    args, ev = [y, t, R, None], [m, s]
    keep = frozen(*args, *ev)

    def go():
        lik = GaussianLikelihood(*args, False)
        e, g = lik(*ev), lik.gradients(*ev)
        return float(e), g[0], g[1]
    res, outcome, exc = attempt(go)
    e, dm, ds = res if outcome == "ok" else (0.0, [], [])
    rec.trace(f"{d} components of noise {size}", outcome=outcome, exc=exc, n=n, dim=d, times=t, y=enc(y), m=enc(m), S=enc(s), R=enc(R),
              H=enc(np.eye(d)), E=num(e), dm=enc(dm), ds=enc(ds), shapes=[shape(dm), shape(ds)], want_shapes=[[n, d], [n, d, d]],
              inputs_kept=same(keep, [*args, *ev]))


def agree(rec, rng, d, single, part, size):
    """Observations that nearly agree with the means, moments nearly without spread."""
    n, t = 5, [1, 3]
    R = np.diag(np.exp(rng.uniform(-1, 1, d))) if single or rng.random() < 0.5 else spd(rng, d, 0.5)
    R, m = R * size, rng.standard_normal((n, d)) * np.sqrt(size)
    H = rng.standard_normal((d, d)) if d > 2 else np.eye(d)
    y = m[t] @ H.T + part * np.sqrt(np.diag(R)) * rng.choice([-1.0, 1.0], (2, d))
    s = np.array([np.eye(d)] * n) * 1e-12 * size
    args = [y.ravel(), t, float(R[0, 0]), None] if single else [y, t, R, H]
    ev = [m.ravel(), s.ravel()] if single else [m, s]
    keep = frozen(*args, *ev)

    def go():
        lik = GaussianLikelihood(*args, single)
        e, g = lik(*ev), lik.gradients(*ev)
        return float(e), g[0], g[1]
    res, outcome, exc = attempt(go)
    e, dm, ds = res if outcome == "ok" else (0.0, [], [])
    rec.trace(f"single={single} d={d} noise {size} agreement to {part}", outcome=outcome, exc=exc, n=n, dim=d, times=t, y=enc(y), m=enc(m), S=enc(s), R=enc(R),
              H=enc(H), E=num(e), dm=seq1(dm) if single else enc(dm), ds=seq11(ds) if single else enc(ds), shapes=[shape(dm), shape(ds)],
              want_shapes=[[n], [n]] if single else [[n, d], [n, d, d]], inputs_kept=same(keep, [*args, *ev]))


SCALES = (1.0, 1.0, 1.0, 1e-10, 1e8)


def run(rec, rng, tier):
    reps = 2 if tier == "quick" else 12
    for d, size in ((40, 1e-18), (40, 1e18), (12, 1e-30), (25, 1.0)):
        large(rec, rng, d, size)
    for d, single in ((1, True), (2, False), (3, False)):
        for part in (0.03, 3e-3, 9e-4, 3e-4):
            for size in (1.0, 1e-6):
                agree(rec, np.random.default_rng(int(1e5 * part) + d), d, single, part, size)
    for single in (True, False):
        for noise in ("scalar", "diag", "full"):
            for oper in ("none", "identity", "matrix", "fewer", "row"):
                for where in ("first", "last", "ends", "neighbours", "some", "all", "one", "unsorted", "many"):
                    for r in range(reps):
                        if single and (noise != "scalar" or oper in ("fewer", "row")):
                            continue
                        if not single and noise == "scalar":
                            continue
                        d = 1 if single else int(rng.choice([2, 3, 4]))
                        q = d - 1 if oper == "fewer" else d
                        if oper == "row":
                            q = 1
                        elif q < 2 and not single:
                            d, q = 3, 2 if oper == "fewer" else 3
                        n = int(rng.choice([4, 9, 15]))
                        if where == "many":
                            if r or oper not in ("none", "fewer", "matrix", "row"):
                                continue
                            n = 1600 if single else 300
                        t = {"first": [0], "last": [n - 1], "ends": [0, n - 1], "neighbours": [1, 2, 3],
                             "all": list(range(n)), "one": [int(rng.integers(n))], "unsorted": rng.permutation(n)[:max(2, n // 2)].tolist(),
                             "many": sorted(rng.choice(n, (2 * n) // 3, replace=False).tolist()),
                             "some": sorted(rng.choice(n, max(2, n // 3), replace=False).tolist())}[where]
                        y = rng.standard_normal((len(t), q)) * 2
                        m = rng.standard_normal((n, d)) * 2
                        s = np.array([spd(rng, d) for _ in range(n)])
                        R = spd(rng, q, 0.5) if noise == "full" else np.diag(np.exp(rng.uniform(-2, 1, q)))
                        scale = SCALES[int(rng.integers(len(SCALES)))]
                        y, m = y * np.sqrt(scale), m * np.sqrt(scale)
                        s = s * (1e-9 if rng.random() < 0.15 else 1.0) * scale
                        R = R * scale * (1e-3 if rng.random() < 0.15 else 1.0)
                        if not single and rng.random() < 0.15:
                            R = np.diag(np.diag(R)) + 1e-6 * R
                        H = np.eye(d) if oper in ("none", "identity") else rng.standard_normal((q, d))
                        if oper in ("fewer", "row"):
                            H = rng.standard_normal((q, d))
                        if rng.random() < 0.2:         # observations that nearly agree with the means
                            y = m[t] @ H.T + rng.choice([0.0, 1e-3, 1e-2]) * np.sqrt(np.diag(R)) * rng.standard_normal((len(t), q))
                            s = s * 1e-9
                        whole = scale == 1.0 and rng.random() < 0.15
                        if whole:
                            y, m, H = np.round(y), np.round(m), np.round(H * 2) if oper in ("matrix", "fewer", "row") else H
                            R = np.round(R) + q * np.eye(q) * 3
                            s = np.array([2.0 * np.eye(d) + np.outer(v, v) for v in m])
                        times = t if r % 2 else np.array(t)
                        if single:
                            H1 = None if oper == "none" else float(H[0, 0])
                            args = [y.ravel(), times, float(R[0, 0]), H1]
                            ev = [m.ravel(), s.ravel()]
                        else:
                            args = [y, times, R, None if oper == "none" else H]
                            ev = [m, s]
                        if whole:
                            args[0], ev = args[0].astype(int), [v.astype(int) for v in ev]
                            args[2] = int(args[2]) if single else args[2].astype(int)
                            args[3] = None if args[3] is None else int(args[3]) if single else args[3].astype(int)
                        keep = frozen(*args, *ev)

                        def go():
                            if (r + n) % 2:                # values at other places, then other moments in the same arrays
                                return amid(one, *args, *ev)
                            lik = GaussianLikelihood(*args, single)
                            return amid(lambda: one(lik), *ev) if n != 9 else one(lik)

                        def one(lik=None):
                            lik = lik or GaussianLikelihood(*args, single)
                            if r % 2:                      # order of the two evaluations
                                g = lik.gradients(*ev)
                                e = lik(*ev)
                            else:
                                e = lik(*ev)
                                g = lik.gradients(*ev)
                            return float(e), g[0], g[1]
                        res, outcome, exc = attempt(go)
                        e, dm, ds = res if outcome == "ok" else (0.0, [], [])
                        rec.trace(f"single={single} noise={noise} H={oper} {where} {r} n={n} d={d}{' whole' if whole else ''}",
                                  outcome=outcome, exc=exc, n=n, dim=d, times=[int(i) for i in t], y=enc(y), m=enc(m),
                                  S=enc(s), R=enc(R), H=enc(H), E=num(e),
                                  dm=seq1(dm) if single else enc(dm), ds=seq11(ds) if single else enc(ds),
                                  shapes=[shape(dm), shape(ds)],
                                  want_shapes=[[n], [n]] if single else [[n, d], [n, d, d]],
                                  inputs_kept=same(keep, [*args, *ev]))
