"""Construction of complete VarGP problems (C10, C11, C18, C23)."""
import numpy as np
from rec import *
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.variational import VarGP
from drivers.energy import CLS

SINGLE = ("DW", "OU")
DIM = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}


class Problem:
    """All the inputs of one variational problem, in [n, d, d] / [n, d] form."""

    def __init__(self, rng, model, scheme, n=8, dt=0.05, t0=0.0, times=None, dim=None, sigma=None, theta=None, oper=True):
        self.model, self.scheme, self.n, self.dt = model, scheme, n, dt
        self.single = model in SINGLE
        d = self.d = dim or DIM[model]
        self.tk = t0 + dt * np.arange(n)
        self.theta = theta if theta is not None else {"DW": 1.0, "OU": 2.0, "L63": [10.0, 28.0, 2.667], "L96": 8.0}[model]
        if sigma is None:
            sigma = float(np.exp(rng.uniform(-0.5, 1))) if self.single else np.exp(rng.uniform(0, 2, d))
        self.sigma = sigma
        full = np.asarray(sigma, dtype=float)
        self.sigma_full = full * np.eye(d) if full.ndim == 0 else np.diag(full) if full.ndim == 1 else full
        self.times = list(times) if times is not None else sorted(rng.choice(n, max(1, n // 3), replace=False).tolist())
        self.y = rng.standard_normal((len(self.times), d)) * 1.5
        self.R = np.diag(np.exp(rng.uniform(-1, 1, d))) if rng.random() < 0.5 or self.single else spd(rng, d, 0.5)
        self.H = None
        if oper and rng.random() < 0.3:
            self.H = rng.standard_normal((d, d))
        self.m0 = rng.standard_normal(d)
        self.s0 = spd(rng, d, 0.4, 0.5)
        self.mu0 = rng.standard_normal(d)
        self.tau0 = spd(rng, d, 0.7, 0.5)

    def build(self, shared=None, alias=False):
        """A fresh VarGP object with its own copies of everything, except
        for the parts in `shared' (a dictionary, which is filled); or with
        the arrays of this problem themselves (`alias')."""
        c = (lambda v: v) if alias else copy.deepcopy
        shared = {} if shared is None else shared
        args = [c(self.sigma), c(self.theta), 5]
        if "model" in shared:
            mod = shared["model"]
        else:
            mod = CLS[self.model](*args, self.d) if self.model == "L96" else CLS[self.model](*args)
        mod.time_window = c(self.tk)
        mod.sample_path = np.zeros(self.n) if self.single else np.zeros((self.n, self.d))
        fwd = shared.get("fwd") or FwdOde(self.dt, self.scheme, self.single)
        bwd = shared.get("bwd") or BwdOde(self.dt, self.scheme, self.single)
        if self.single:
            y, R = self.y.ravel().copy(), float(self.R[0, 0])
            H = None if self.H is None else float(self.H[0, 0])
            m0, s0, mu0, tau0 = (float(v.ravel()[0]) for v in (self.m0, self.s0, self.mu0, self.tau0))
        else:
            y, R, H = c(self.y), c(self.R), c(self.H)
            m0, s0, mu0, tau0 = c(self.m0), c(self.s0), c(self.mu0), c(self.tau0)
        lik = shared.get("lik") or GaussianLikelihood(y, list(self.times), R, H, self.single)
        kl0 = shared.get("kl0") or PriorKL0(mu0, tau0, self.single)
        shared.update(model=mod, fwd=fwd, bwd=bwd, lik=lik, kl0=kl0)
        return VarGP(mod, m0, s0, fwd, bwd, lik, kl0, y, list(self.times))

    def coincide(self, what):
        """Inputs that agree with each other, or are nothing or one."""
        d = self.d
        if what == "means":
            self.m0 = self.mu0.copy()
        elif what == "covariances":
            self.s0 = self.tau0.copy()
        elif what == "prior":
            self.m0, self.s0 = self.mu0.copy(), self.tau0.copy()
        elif what == "zero":
            self.m0, self.mu0, self.y = np.zeros(d), np.zeros(d), np.zeros_like(self.y)
        elif what == "unit":
            self.s0, self.tau0, self.R, self.H = np.eye(d), np.eye(d), np.eye(d), np.eye(d)
            self.sigma = 1.0 if self.single else np.eye(d)
            self.sigma_full = np.eye(d)
        elif what == "fewer":              # observations of fewer components than there are
            q = max(2, d - 1) if d > 1 else 1
            self.y, self.H, self.R = self.y[:, :q].copy(), np.eye(d)[d - q:], self.R[:q, :q].copy()
        elif what == "combined":           # fewer combinations of the components
            q = max(2, d - 1) if d > 1 else 1
            self.y, self.H, self.R = self.y[:, :q].copy(), 1.0 + np.arange(q * d).reshape(q, d) % 4, self.R[:q, :q].copy()
        elif what == "one component":
            self.y, self.H, self.R = self.y[:, :1].copy(), np.eye(d)[d - 1:], self.R[:1, :1].copy()
        elif what == "one combination":
            self.y, self.H, self.R = self.y[:, :1].copy(), 0.5 - np.arange(d)[None] % 3, self.R[:1, :1].copy()
        elif what == "weak noise":         # of the system
            self.sigma = self.sigma_full[0, 0] * 1e-7 if self.single else self.sigma_full * 1e-7
            self.sigma_full = self.sigma_full * 1e-7
        elif what == "strong noise":
            self.sigma = self.sigma_full[0, 0] * 1e6 if self.single else self.sigma_full * 1e6
            self.sigma_full = self.sigma_full * 1e6
        elif what == "precise":            # observations
            self.R = self.R * 1e-8
        elif what == "vague":
            self.R, self.tau0 = self.R * 1e8, self.tau0 * 1e8
        elif what == "blind":              # observations that say nothing
            self.H = np.zeros((d, d))
        elif what == "observed":           # the initial mean is what is observed
            self.y[:] = self.m0 if self.H is None else self.H @ self.m0
        elif what == "equal noise":
            self.R, self.s0, self.tau0 = self.sigma_full.copy(), self.sigma_full.copy(), self.sigma_full.copy()
        return self

    def pack(self, a, b):
        return np.concatenate((a.ravel(), b.ravel()))

    def random_x(self, rng, scale=1.0):
        a = scale * rng.standard_normal((self.n, self.d, self.d)) + 1.5 * np.eye(self.d)
        b = 2 * scale * rng.standard_normal((self.n, self.d))
        return a, b

    def record(self):
        d = self.d
        return dict(model=self.model, scheme=self.scheme, n=self.n, dim=d, dt=num(np.abs(self.tk[1] - self.tk[0])),
                    h=num(self.dt), theta=enc(np.atleast_1d(self.theta)), sigma=enc(self.sigma_full),
                    times=[int(i) for i in self.times], y=enc(self.y), R=enc(self.R),
                    H=enc(np.eye(d) if self.H is None else self.H),
                    m0=enc(self.m0), S0=enc(self.s0), mu0=enc(self.mu0), tau0=enc(self.tau0))


def outputs(p, v, g):
    """Published quantities and gradient in [n, d, d] / [n, d] form."""
    n, d = p.n, p.d
    o = v.arg_out
    if p.single:
        r = dict(mt=seq1(o["mt"]), st=seq11(o["st"]), lam=seq1(o["lamt"]), psi=seq11(o["psit"]), Ef=seq1(o["Efx"]),
                 Edf=seq11(o["Edf"]))
        want = [[n], [n], [n], [n], [n], [n], [2 * n]]
    else:
        r = dict(mt=enc(o["mt"]), st=enc(o["st"]), lam=enc(o["lamt"]), psi=enc(o["psit"]), Ef=enc(o["Efx"]), Edf=enc(o["Edf"]))
        want = [[n, d], [n, d, d], [n, d], [n, d, d], [n, d], [n, d, d], [n * d * d + n * d]]
    r["shapes"] = [shape(o[k]) for k in ("mt", "st", "lamt", "psit", "Efx", "Edf")] + [shape(g)]
    r["want_shapes"] = want
    if r["shapes"] == want:
        r["ga"] = enc(np.asarray(g)[:n * d * d].reshape(n, d, d))
        r["gb"] = enc(np.asarray(g)[n * d * d:].reshape(n, d))
    else:
        r["ga"] = r["gb"] = []
    return r
