"""Forward sweeps (C01)."""
import numpy as np
from rec import *
from src.var_bayes.fwd_ode import FwdOde

METHODS = [("Euler", "euler"), ("heun", "heun"), ("RK2", "rk2"), ("rK4", "rk4"),
           ("EULER", "euler"), ("Heun", "heun"), ("rk2", "rk2"), ("RK4", "rk4")]


def coefficients(rng, n, d, kind, dt):
    a = rng.standard_normal((n, d, d)) * 2.0
    b = rng.standard_normal((n, d)) * 3.0
    if kind == "smooth":
        t = np.linspace(0, 3, n)[:, None, None]
        a = np.sin(t + a[:1]) + 1.5 * np.eye(d)
        b = np.cos(t[:, :, 0] * 2 + b[:1]) * 2
    elif kind == "spike":            # a single non-zero grid value
        a, b = np.zeros((n, d, d)), np.zeros((n, d))
        k = rng.integers(n)
        a[k], b[k] = rng.standard_normal((d, d)), rng.standard_normal(d)
    elif kind == "const":
        a, b = np.repeat(a[:1], n, 0), np.repeat(b[:1], n, 0)
    elif kind == "int":              # small integers, so that every step is exact
        a = rng.integers(-2, 3, (n, d, d)).astype(float)
        b = rng.integers(-3, 4, (n, d)).astype(float)
    elif kind == "no drift":
        a = np.zeros((n, d, d))
    elif kind == "no offset":
        b = np.zeros((n, d))
    elif kind == "one entry":        # of the matrix and of the offset
        i, j, k = (int(rng.integers(d)) for _ in range(3))
        u, v = np.zeros_like(a), np.zeros_like(b)
        u[:, i, j], v[:, k] = a[:, i, j], b[:, k]
        a, b = u, v
    elif kind == "skew":             # no symmetric part
        a = a - np.swapaxes(a, 1, 2)
    elif kind == "stiff":            # far outside the region of stability
        a = a * 40.0
    elif kind == "swing":            # every step overshoots, without blowing up
        a = (0.9 + 0.5 * rng.random((n, 1, 1))) * np.eye(d) / dt + (0.1 * a if d > 1 else 0.0)
    elif kind == "small":
        a, b = a * 1e-6, b * 1e-7
    elif kind == "gap":              # zero at every other grid point
        a[::2], b[1::2] = 0.0, 0.0
    elif kind == "hold":             # one of them stays the same for a step
        a, b = hold(rng, a, b)
    return a, b


KINDS = ("rough", "smooth", "spike", "const", "int")
RARE = ("no drift", "no offset", "one entry", "skew", "stiff", "swing", "small", "gap", "hold")


def layout(rng, arrays, how):
    """The same values, held differently."""
    out = []
    for a in arrays:
        if how == "whole":
            out.append(np.round(a).astype(int) if isinstance(a, np.ndarray) else int(round(a)))
        elif not isinstance(a, np.ndarray):
            out.append(a)
        elif how == "fortran":
            out.append(np.asfortranarray(a))
        elif how == "strided":
            big = np.zeros(tuple(2 * s for s in a.shape))
            view = big[tuple(slice(None, None, 2) for _ in a.shape)]
            view[...] = a
            out.append(view)
        elif how == "reversed":
            rev = a[::-1].copy()
            out.append(rev[::-1])
        else:
            out.append(a)
    return out


class Sweep:
    """One problem; d = 1 may be posed with scalars (single)."""

    def __init__(self, rng, n, d, dt, kind, single, start="random"):
        self.n, self.d, self.dt, self.single, self.kind = n, d, dt, single, kind
        self.a, self.b = coefficients(rng, n, d, kind, dt)
        self.m0, self.s0, self.sig = rng.standard_normal(d) * 2, spd(rng, d), spd(rng, d, 2.0)
        if kind == "int":
            self.m0, self.s0 = np.arange(1, d + 1) * 1.0, np.eye(d) + np.ones((d, d))
            self.sig = 2.0 * np.eye(d) + 0.5
        if start == "zero":
            self.m0, self.s0 = np.zeros(d), np.zeros((d, d))
        elif start == "diagonal":
            self.m0[rng.integers(d)] = 0.0
            self.s0, self.sig = np.diag(np.diag(self.s0)), np.diag(np.diag(self.sig))
        elif start == "tiny":
            self.s0, self.sig = self.s0 * 1e-9, self.sig * 1e-7
        elif start == "no noise":
            self.sig = np.zeros((d, d))
        elif start == "one noise":       # of a single component
            u = np.zeros((d, d))
            u[-1, -1] = 1.7
            self.sig = u
        elif start == "huge":
            self.m0, self.b, self.s0, self.sig = self.m0 * 1e7, self.b * 1e8, self.s0 * 1e12, self.sig * 1e13

    def args(self):
        if self.single:
            return [self.a.flatten(), self.b.flatten(), float(self.m0[0]), float(self.s0[0, 0]), float(self.sig[0, 0])]
        return [self.a.copy(), self.b.copy(), self.m0.copy(), self.s0.copy(), self.sig.copy()]

    def record(self, rec, name, scheme, res, outcome, exc, kept):
        single, n, d = self.single, self.n, self.d
        mt, st = res if outcome == "ok" else ([], [])
        rec.trace(name, kind="sweep", scheme=scheme, outcome=outcome, exc=exc, n=n, dim=d, dt=num(self.dt),
                  A=enc(self.a), b=enc(self.b), m0=enc(self.m0), S0=enc(self.s0), Sigma=enc(self.sig),
                  mt=seq1(mt) if single else enc(mt), st=seq11(st) if single else enc(st),
                  mt_shape=shape(mt), st_shape=shape(st), want_m_shape=[n] if single else [n, d],
                  want_s_shape=[n] if single else [n, d, d], inputs_kept=kept)


def alone(rec, name, method, scheme, s, args):
    keep = frozen(*args)
    res, outcome, exc = attempt(lambda: FwdOde(s.dt, method, s.single)(*args))
    s.record(rec, name, scheme, res, outcome, exc, same(keep, args))


def run(rec, rng, tier):
    quick = tier == "quick"
    steps = (0.001, 0.01, 0.0625, 0.1, 0.25, 0.0037219)
    for mi, (method, scheme) in enumerate(METHODS):
        for single in (True, False):
            for kind in KINDS + RARE:
                for r in range((2 if quick else 8) if kind in KINDS else (1 if mi < 4 else int(kind == "swing")) if quick else 2):
                    d = 1 if single else int(rng.choice([1, 2, 3, 5])) if mi < 4 else int(rng.choice([2, 3]))
                    n = int(rng.choice([2, 3, 7, 20])) if quick else int(rng.choice([2, 3, 25, 60]))
                    n = min(n, 7) if kind == "stiff" else n
                    s = Sweep(rng, n, d, float(rng.choice(steps)), kind, single)
                    alone(rec, f"{method} single={single} d={d} n={n} dt={s.dt} {kind}", method, scheme, s, s.args())
            if mi >= 4:
                continue
            for start in ("zero", "diagonal", "tiny", "no noise", "one noise", "huge"):
                s = Sweep(rng, 6, 1 if single else 3, 0.05, "rough", single, start)
                alone(rec, f"{method} single={single} start={start}", method, scheme, s, s.args())
            for how in ("fortran", "strided", "reversed"):
                s = Sweep(rng, 6, 1 if single else 3, 0.05, "rough", single)
                alone(rec, f"{method} single={single} {how} arrays", method, scheme, s, layout(rng, s.args(), how))
            s = Sweep(rng, 6, 1 if single else 3, 0.0731, "int", single)
            s.m0, s.sig = np.round(s.m0), np.round(s.sig * 2)
            alone(rec, f"{method} single={single} whole numbers", method, scheme, s, layout(rng, s.args(), "whole"))
            s = Sweep(rng, 1, 1 if single else 2, 0.05, "rough", single)
            alone(rec, f"{method} single={single} one grid point", method, scheme, s, s.args())
            s = Sweep(rng, 150 if quick else 600, 1 if single else 2, 0.01, "smooth", single)
            alone(rec, f"{method} single={single} long", method, scheme, s, s.args())
            s = Sweep(rng, 1300 if single else 1100, 1 if single else 2, 0.0037219, "rough", single)
            alone(rec, f"{method} single={single} very long", method, scheme, s, s.args())
            if not single:
                for d in (12, 40):
                    s = Sweep(rng, 4 if d == 12 else 3, d, 0.01, "rough", single)
                    alone(rec, f"{method} large d={d}", method, scheme, s, s.args())
            # One solver for several sweeps of different sizes; the results
            # are looked at when all of them have been made, the arrays of
            # sweeps of equal size are the same, overwritten in between.
            for dims in ([(5, 3), (5, 3), (5, 3)], [(4, 2), (9, 2), (4, 3), (4, 2)]):
                todo = [Sweep(rng, n, 1 if single else d, 0.04, "rough", single) for n, d in dims]
                solver, outcome, exc = attempt(FwdOde, 0.04, method, single)
                buffers, results = {}, []
                for s in todo:
                    args = s.args()
                    buf = buffers.setdefault((s.n, s.d), args)
                    for u, v in zip(buf, args):
                        if isinstance(u, np.ndarray):
                            u[...] = v
                    now = [u if isinstance(u, np.ndarray) else v for u, v in zip(buf, args)]
                    keep = frozen(*now)
                    res, oc, ex = attempt(solver, *now) if outcome == "ok" else (None, outcome, exc)
                    results.append((s, res, oc, ex, same(keep, now)))
                for i, (s, res, oc, ex, kept) in enumerate(results):
                    s.record(rec, f"{method} single={single} reused {dims} sweep {i}", scheme, res, oc, ex, kept)
    # Solvers of nearly equal and of very different steps side by side, used
    # in another order than they were made in.
    for single in (True, False):
        dts = (0.0101, 0.0102, 0.01, 1e-3, 1.01e-3, 0.01 * (1 + 1e-7), 1e-5, 0.5, 1.5, 9.0, 40.0)
        made = [(dt, m, attempt(FwdOde, dt, m, one)) for dt in dts for m in ("euler", "heun", "rk2", "rk4") for one in (not single, single)][1::2]
        for i in rng.permutation(len(made)):
            dt, method, (solver, outcome, exc) = made[i]
            s = Sweep(rng, 4, 1 if single else 2, dt, "rough", single)
            args = s.args()
            keep = frozen(*args)
            if outcome == "ok":
                res, outcome, exc = attempt(solver, *args)
            else:
                res = None
            s.record(rec, f"{method} single={single} side by side dt={dt}", method, res, outcome, exc, same(keep, args))
    for bad in (("Euler", 0.0), ("rk4", -0.01), ("heun", -1.0), ("rk2", 0.0), ("", 0.1),
                ("rk3", 0.1), ("eulerx", 0.1), (None, 0.1), ("Runge", 0.01),
                (" euler", 0.1), ("rk4 ", 0.1), ("\theun\n", 0.1), ("rk 2", 0.1), ("rk-4", 0.1), ("eule", 0.1), ("rk", 0.1), (4, 0.1),
                (("rk4",), 0.1), (b"rk4", 0.1)):
        for single in (True, False):
            _, outcome, exc = attempt(FwdOde, bad[1], bad[0], single)
            rec.trace(f"reject {bad} single={single}", kind="reject", outcome=outcome, exc=exc)
