"""Backward sweeps (C02)."""
import numpy as np
from rec import *
from src.var_bayes.bwd_ode import BwdOde
from drivers.c01 import METHODS, KINDS, RARE, coefficients, layout

SHAPES = ("random", "mean only", "cov only", "one component", "one entry", "off-diagonal", "small", "minute", "equal", "opposite")


class Sweep:
    """One problem; d = 1 may be posed with scalars (single)."""

    def __init__(self, rng, n, d, dt, kind, single, where, jump="random", sens="random"):
        self.n, self.d, self.dt, self.single = n, d, dt, single
        self.a, self.em = coefficients(rng, n, d, kind, dt)
        self.es = rng.standard_normal((n, d, d))
        if sens == "symmetric":
            self.es = self.es + np.swapaxes(self.es, 1, 2)
        elif sens == "no mean":
            self.em = np.zeros((n, d))
        elif sens == "no cov":
            self.es = np.zeros((n, d, d))
        elif sens == "none":
            self.em, self.es = np.zeros((n, d)), np.zeros((n, d, d))
        elif sens == "ends":             # non-zero at the ends of the window only
            self.em[1:-1], self.es[1:-1] = 0.0, 0.0
        elif sens == "inside":
            self.em[0] = self.em[-1] = 0.0
            self.es[0] = self.es[-1] = 0.0
        elif sens == "minute":
            self.em, self.es = self.em * 1e-13, self.es * 1e-13
        elif sens == "huge":
            self.em, self.es = self.em * 1e9, self.es * 1e12
        if kind == "int":
            self.es = np.round(self.es)
        self.jm, self.js = np.zeros((n, d)), np.zeros((n, d, d))
        u, v = rng.standard_normal(d) * 10, spd(rng, d, 5.0)
        for t in where:
            if jump not in ("equal", "opposite"):
                u, v = rng.standard_normal(d) * 10, spd(rng, d, 5.0)
            else:
                u, v = (u, v) if jump == "equal" else (-u, -v)
            self.jm[t], self.js[t] = u, v
            i, j = int(rng.integers(d)), int(rng.integers(d))
            if jump == "mean only":
                self.js[t] = 0.0
            elif jump == "cov only":
                self.jm[t] = 0.0
            elif jump == "one component":
                self.jm[t, np.arange(d) != i], self.js[t] = 0.0, 0.0
                self.js[t, i, i] = v[i, i]
            elif jump == "one entry":
                self.jm[t], self.js[t] = 0.0, 0.0
                self.js[t, i, j] = v[i, j]
            elif jump == "off-diagonal":
                self.jm[t] = 0.0
                self.js[t] -= np.diag(np.diag(v)) if d > 1 else 0.0
            elif jump == "minute":
                self.jm[t] *= 1e-13
                self.js[t] *= 1e-13
            elif jump == "small":
                self.jm[t] *= 1e-5
                self.js[t] *= 1e-5

    def args(self):
        both = [self.a, self.em, self.es, self.jm, self.js]
        return [x.flatten() for x in both] if self.single else [x.copy() for x in both]

    def record(self, rec, name, scheme, res, outcome, exc, kept):
        single, n, d = self.single, self.n, self.d
        lam, psi = res if outcome == "ok" else ([], [])
        rec.trace(name, kind="sweep", scheme=scheme, outcome=outcome, exc=exc, n=n, dim=d, dt=num(self.dt),
                  A=enc(self.a), em=enc(self.em), es=enc(self.es), jm=enc(self.jm), js=enc(self.js),
                  lam=seq1(lam) if single else enc(lam), psi=seq11(psi) if single else enc(psi),
                  lam_shape=shape(lam), psi_shape=shape(psi), want_m_shape=[n] if single else [n, d],
                  want_s_shape=[n] if single else [n, d, d], inputs_kept=kept)


def alone(rec, name, method, scheme, s, args):
    keep = frozen(*args)
    res, outcome, exc = attempt(lambda: BwdOde(s.dt, method, s.single)(*args))
    s.record(rec, name, scheme, res, outcome, exc, same(keep, args))


def places(rng, n, jumps):
    return {"none": [], "first": [0], "last": [n - 1], "all": list(range(n)), "ends": [0, n - 1], "pair": [n // 2, min(n - 1, n // 2 + 1)],
            "some": sorted(set(rng.integers(0, n, max(1, n // 3)).tolist()))}[jumps]


def run(rec, rng, tier):
    quick = tier == "quick"
    steps = (0.001, 0.01, 0.0625, 0.1, 0.25, 0.0037219)
    for mi, (method, scheme) in enumerate(METHODS):
        for single in (True, False):
            for kind in KINDS + (RARE if not quick or mi < 4 else ()):
                for jumps in ("none", "some", "first", "last", "all") if kind in KINDS else ("some",):
                    for r in range((2 if quick else 8) if jumps == "some" and kind in KINDS else 1):
                        d = 1 if single else int(rng.choice([1, 2, 3, 5])) if mi < 4 else int(rng.choice([2, 3]))
                        n = int(rng.choice([2, 3, 6, 12])) if quick else int(rng.choice([2, 3, 25, 60]))
                        n = min(n, 7) if kind == "stiff" else n
                        where = places(rng, n, jumps)
                        s = Sweep(rng, n, d, float(rng.choice(steps)), kind, single, where, sens=("symmetric", "random")[r % 2])
                        alone(rec, f"{method} single={single} d={d} n={n} dt={s.dt} {kind} jumps={where}", method, scheme, s, s.args())
            if mi >= 4:
                continue
            d = 1 if single else 3
            for jump in SHAPES:
                for jumps in ("some", "ends", "all", "pair"):
                    n = int(rng.choice([4, 6, 9]))
                    s = Sweep(rng, n, d, 0.05, "rough", single, places(rng, n, jumps), jump)
                    alone(rec, f"{method} single={single} jumps {jump} {jumps}", method, scheme, s, s.args())
            for sens in ("no mean", "no cov", "none", "ends", "inside"):
                for jump in ("random", "mean only", "cov only"):
                    s = Sweep(rng, 6, d, 0.05, "rough", single, [2, 5], jump, sens)
                    alone(rec, f"{method} single={single} sensitivities {sens} jumps {jump}", method, scheme, s, s.args())
            for sens, jump in (("minute", "minute"), ("none", "minute"), ("minute", "mean only"), ("huge", "random"), ("huge", "minute")):
                s = Sweep(rng, 6, d, 0.05, "rough", single, [2, 5], jump, sens)
                alone(rec, f"{method} single={single} size of sensitivities {sens} jumps {jump}", method, scheme, s, s.args())
            for how in ("fortran", "strided", "reversed"):
                s = Sweep(rng, 6, d, 0.05, "rough", single, [1, 3, 4])
                alone(rec, f"{method} single={single} {how} arrays", method, scheme, s, layout(rng, s.args(), how))
            s = Sweep(rng, 6, d, 0.0731, "int", single, [1, 3, 4])
            s.jm, s.js = np.round(s.jm), np.round(s.js)
            alone(rec, f"{method} single={single} whole numbers", method, scheme, s, layout(rng, s.args(), "whole"))
            s = Sweep(rng, 1, d, 0.05, "rough", single, [0])
            alone(rec, f"{method} single={single} one grid point", method, scheme, s, s.args())
            s = Sweep(rng, 150 if quick else 600, 1 if single else 2, 0.01, "smooth", single, list(range(10, 150, 13)))
            alone(rec, f"{method} single={single} long", method, scheme, s, s.args())
            n = 1300 if single else 1100
            s = Sweep(rng, n, 1 if single else 2, 0.0037219, "rough", single, list(range(7, n, 11)))
            alone(rec, f"{method} single={single} very long", method, scheme, s, s.args())
            if not single:
                for d in (12, 40):
                    s = Sweep(rng, 4 if d == 12 else 3, d, 0.01, "rough", single, [1, 2])
                    alone(rec, f"{method} large d={d}", method, scheme, s, s.args())
            # One solver for several sweeps, looked at when all are made.
            for dims in ([(5, 3), (5, 3), (5, 3)], [(4, 2), (9, 2), (4, 3), (4, 2)]):
                todo = [Sweep(rng, n, 1 if single else k, 0.04, "rough", single, [[1, 3], [], [n - 1], [0]][i % 4])
                        for i, (n, k) in enumerate(dims)]
                solver, outcome, exc = attempt(BwdOde, 0.04, method, single)
                buffers, results = {}, []
                for s in todo:
                    args = s.args()
                    now = buffers.setdefault((s.n, s.d), args)
                    for u, v in zip(now, args):
                        u[...] = v
                    keep = frozen(*now)
                    res, oc, ex = attempt(solver, *now) if outcome == "ok" else (None, outcome, exc)
                    results.append((s, res, oc, ex, same(keep, now)))
                for i, (s, res, oc, ex, kept) in enumerate(results):
                    s.record(rec, f"{method} single={single} reused {dims} sweep {i}", scheme, res, oc, ex, kept)
    # Solvers of nearly equal and of very different steps side by side.
    for single in (True, False):
        dts = (0.0101, 0.0102, 0.01, 1e-3, 1.01e-3, 0.01 * (1 + 1e-7), 1e-5, 0.5, 1.5, 9.0, 40.0)
        made = [(dt, m, attempt(BwdOde, dt, m, one)) for dt in dts for m in ("euler", "heun", "rk2", "rk4") for one in (not single, single)][1::2]
        for i in rng.permutation(len(made)):
            dt, method, (solver, outcome, exc) = made[i]
            s = Sweep(rng, 4, 1 if single else 2, dt, "rough", single, [1, 3])
            args = s.args()
            keep = frozen(*args)
            if outcome == "ok":
                res, outcome, exc = attempt(solver, *args)
            else:
                res = None
            s.record(rec, f"{method} single={single} side by side dt={dt}", method, res, outcome, exc, same(keep, args))
    for bad in (("Euler", 0.0), ("rk4", -0.01), ("", 0.1), ("rk3", 0.1), (None, 0.1)):
        for single in (True, False):
            _, outcome, exc = attempt(BwdOde, bad[1], bad[0], single)
            rec.trace(f"reject {bad} single={single}", kind="reject", outcome=outcome, exc=exc)
