"""Prior term (C09)."""
import numpy as np
from rec import *
from src.var_bayes.prior_kl0 import PriorKL0


def run(rec, rng, tier):
    reps = 6 if tier == "quick" else 60
    for single in (True, False):
        for kind in ("random", "equal", "same-mean", "same-cov", "diag", "far", "tight", "wide", "int", "tiny prior", "tiny start", "tiny both", "huge both", "minute both", "close minute", "stretched", "nearly equal", "nearly diagonal", "whole"):
            for r in range(reps):
                d = 1 if single else int(rng.choice([1, 2, 3, 5]))
                if not single and r == 3 and kind not in ("int", "stretched", "far"):
                    d = 40 if kind in ("tiny both", "huge both", "equal", "diag") or tier != "quick" else 10
                mu, m = rng.standard_normal(d) * 2, rng.standard_normal(d) * 2
                tau, s = spd(rng, d), spd(rng, d)
                if not single and kind == "random" and r == 4:
                    d = 110
                    mu, m, tau, s = rng.standard_normal(d), rng.standard_normal(d), spd(rng, d), spd(rng, d)
                if kind in ("equal", "same-mean"):
                    m = mu.copy()
                if kind in ("equal", "same-cov"):
                    s = tau.copy()
                if kind == "diag":
                    tau, s = np.diag(np.exp(rng.uniform(-2, 2, d))), 0.2 * np.eye(d)
                if kind == "far":
                    m = mu + 50
                if kind == "tight":
                    s = s * 1e-3
                if kind == "wide":
                    s = s * 1e3
                if kind == "int":
                    tau, s = 2.0 * np.eye(d), 3.0 * np.eye(d) + 1
                    mu, m = np.ones(d), np.arange(d) * 1.0
                if kind in ("tiny prior", "tiny both"):
                    tau = tau * 1e-10
                if kind in ("tiny start", "tiny both"):
                    s = s * 1e-10
                if kind in ("tiny both", "tiny prior"):
                    m, mu = m * 1e-5, mu * 1e-5
                if kind == "huge both":
                    tau, s, m, mu = tau * 1e8, s * 1e9, m * 1e4, mu * 1e4
                if kind in ("minute both", "close minute"):
                    w = 1e-11 if r % 2 else 1e-13
                    m, mu = m * w ** 0.5, mu * w ** 0.5
                    if kind == "close minute" and r % 3:
                        m = mu.copy()
                    tau, s = tau * w, (s if kind == "minute both" else tau * rng.uniform(1.5, 4.0)) * w
                if kind == "stretched":
                    w, v = (np.logspace(-3, 2, d)[rng.permutation(d)] for _ in range(2))
                    tau, s = tau * w[:, None] * w, s * v[:, None] * v
                if kind == "nearly equal":
                    m, s = mu + 1e-6 * m, tau + 1e-6 * s
                if kind == "nearly diagonal":
                    tau, s = (np.diag(np.diag(v)) + 1e-6 * v for v in (tau, s))
                if kind == "whole":
                    u, v = np.round(mu), np.round(m)
                    tau, s = 2.0 * np.eye(d) + np.outer(u, u), 3.0 * np.eye(d) + np.outer(v, v)
                    mu, m = u, v
                lam, psi = rng.standard_normal(d), rng.standard_normal((d, d))
                psi = psi + psi.T
                if r == 0:
                    lam, psi = lam * 0, psi * 0
                if single:
                    a = [float(mu[0]), float(tau[0, 0])]
                    b = [float(m[0]), float(s[0, 0])]
                    c = [float(lam[0]), float(psi[0, 0])]
                else:
                    a, b, c = [mu, tau], [m, s], [lam, psi]
                if kind == "whole":
                    a, b = ([int(v) if single else v.astype(int) for v in w] for w in (a, b))
                keep = frozen(*a, *b, *c)

                def go():
                    if r % 3 == 0:
                        return one()
                    if r % 3 == 1:
                        return amid(one, *a, *b, *c)
                    k = PriorKL0(*a, single)
                    return amid(lambda: one(k), *b, *c)

                def one(k=None):
                    k = k or PriorKL0(*a, single)
                    if r % 2:
                        g = k.gradients(*b, *c)
                        return float(k(*b)), g[0], g[1]
                    v = float(k(*b))
                    g = k.gradients(*b, *c)
                    return v, g[0], g[1]
                res, outcome, exc = attempt(go)
                kl, dm, ds = res if outcome == "ok" else (0.0, [], [])
                sh = [shape(dm), shape(ds)]
                if single and outcome == "ok":
                    dm, ds = np.atleast_1d(dm), np.atleast_2d(ds)
                rec.trace(f"single={single} {kind} {r} d={d}", outcome=outcome, exc=exc, dim=d, mu=enc(mu), tau=enc(tau),
                          m=enc(m), s=enc(s), lam=enc(lam), psi=enc(psi), kl=num(kl), dm=enc(dm), ds=enc(ds),
                          shapes=sh, want_shapes=[[], []] if single else [[d], [d, d]],
                          inputs_kept=same(keep, [*a, *b, *c]))
