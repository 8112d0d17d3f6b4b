"""Recording of runs of the optimiser (C12, C13)."""
import contextlib, io
import numpy as np
from rec import *
from src.numerics.optim_scg import SCG

BIG = 1e300


class Watch:
    """Wraps an objective; groups consecutive evaluations of one point."""

    def __init__(self, fun, grad, args=()):
        self.fun, self.grad, self.args = fun, grad, args
        self.visits, self.f_calls, self.df_calls, self.args_ok = [], 0, 0, True

    def visit(self, x, again=False):
        """again: the function has been asked for at this point; if it is
        asked for twice and no gradient follows, it is a second trial."""
        x = np.array(x, dtype=float).ravel()
        v = self.visits[-1] if self.visits else None
        if v is None or not np.array_equal(v["x"], x) or (again and v["f"] is not None and v["g"] is None):
            self.visits.append(dict(x=x, f=None, g=None, fun=False))
        return self.visits[-1]

    def merge(self):
        """A gradient makes the preceding evaluations of its point part of
        the same visit."""
        v = self.visits[-1]
        while len(self.visits) > 1 and np.array_equal(self.visits[-2]["x"], v["x"]) and self.visits[-2]["g"] is None:
            del self.visits[-2]

    def passed(self, args):
        self.args_ok = self.args_ok and len(args) == len(self.args) and all(a is b for a, b in zip(args, self.args))

    def f(self, x, *args):
        self.passed(args)
        self.f_calls += 1
        v = self.visit(x, again=True)
        r = self.fun(x.copy())
        v["f"] = r
        return r

    def df(self, x, *args, eval_fun=False):
        self.passed(args)
        self.df_calls += 1
        if eval_fun and self.visits and self.visits[-1]["g"] is not None:
            self.visits.append(dict(x=np.array(x, dtype=float).ravel(), f=None, g=None, fun=False))
        v = self.visit(x)
        if eval_fun:
            self.f_calls += 1
            v["fun"] = True
        r = self.grad(x.copy())
        v["g"] = r
        if v["f"] is not None and not eval_fun:
            self.merge()
        return r.copy()


def finite(v):
    v = float(v)
    return num(min(v, BIG)) if v == v else num(BIG)


def record(rec, name, watch, x0, opts, display=False):
    opts = dict(opts, display=display)
    start = np.array(x0)            # whole numbers stay whole numbers
    keep = start.copy()

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            s = SCG(watch.f, watch.df, opts)
            x, fx = s(start, *watch.args)
        return np.array(x, dtype=float), float(fx), s.statistics
    with np.errstate(all="ignore"):
        res, outcome, exc = attempt(go)
    x, fx, st = res if outcome == "ok" else (np.zeros(0), 0.0, dict(beta=np.zeros(0), fx=np.zeros(0), f_eval=0, df_eval=0, MaxIt=0))
    write(rec, name, watch, keep, x, fx, outcome, exc, opts, same(keep, start), st)


def write(rec, name, watch, x0, x, fx, outcome, exc, opts, kept, st):
    reused = st is None
    done = [] if reused else [i for i in range(len(st["fx"])) if st["beta"][i] != 0]      # iterations with a record
    rec.trace(name, outcome=outcome, exc=exc, x0=enc(x0.ravel()), x=enc(x), val=finite(fx),
              visits=[dict(x=enc(v["x"]), f="0" if v["f"] is None else finite(v["f"]), hasf=v["f"] is not None or v["fun"],
                           g=[] if v["g"] is None else enc(v["g"]), hasg=v["g"] is not None) for v in watch.visits],
              fx=[finite(st["fx"][i]) for i in done], max_it=int(opts["max_it"]), x_tol=num(opts["x_tol"]),
              f_tol=num(opts["f_tol"]), start_kept=bool(kept), reused=reused,
              f_count=0 if reused else int(st["f_eval"]), df_count=0 if reused else int(st["df_eval"]),
              f_calls=watch.f_calls, df_calls=watch.df_calls,
              iterations=0 if reused else int(st["MaxIt"]), args_ok=watch.args_ok)


def record_reused(rec, name, runs, opts):
    """One optimiser object used for several runs (watch, start, args).
    What it has recorded is left over from the runs before, so the trace of a
    reused object carries only the evaluations and the result."""
    now = []
    opts = dict(opts, display=False)
    scg, outcome, exc = attempt(SCG, lambda x, *a: now[0].f(x, *a), lambda x, *a, eval_fun=False: now[0].df(x, *a, eval_fun=eval_fun), opts)
    out = []
    for watch, x0 in runs:
        now[:] = [watch]
        start = np.array(x0, dtype=float)
        keep = start.copy()
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            res, oc, ex = attempt(scg, start, *watch.args) if outcome == "ok" else (None, outcome, exc)
        out.append((watch, keep, res, oc, ex, same(keep, start)))
    for i, (watch, keep, res, oc, ex, kept) in enumerate(out):
        x, fx = (np.array(res[0], dtype=float), float(res[1])) if oc == "ok" else (np.zeros(0), 0.0)
        write(rec, f"{name} run {i}", watch, keep, x, fx, oc, ex, opts, kept, None)


class Script:
    """An environment that answers new points as a behaviour of ScgDesign
    says, and known points as before."""

    def __init__(self, rng, dim, answers, f0=3.0, unit=1.0):
        self.rng, self.answers, self.pos = rng, answers, 0
        self.val, self.grd = {}, {}
        self.dim, self.f0, self.unit = dim, f0, unit
        self.cur = self.curg = self.curf = None

    def say(self):
        a = self.answers[self.pos]["say"] if self.pos < len(self.answers) else "better"
        self.pos += 1
        return a

    def probe(self):
        return self.say()

    def f(self, x):
        key = x.tobytes()
        if key in self.val:
            return self.val[key]
        if self.cur is None:
            r = self.f0
            self.cur, self.curf = x, r
        else:
            a = self.say()
            r = dict(worse=self.curf + 1.7 * self.unit, better=self.curf - 0.9 * self.unit, vanish=self.curf - 0.9 * self.unit, equal=self.curf,
                     slight=self.curf - 1e-12, infinite=np.inf, nan=np.nan)[a]
            if r <= self.curf:
                self.cur, self.curf = x, r
                self.grd[key] = np.zeros(self.dim) if a == "vanish" else self.rng.standard_normal(self.dim)
                self.curg = self.grd[key]
        self.val[key] = r
        return r

    def g(self, x):
        key = x.tobytes()
        if key not in self.grd:
            if self.cur is None or np.array_equal(x, self.cur):
                self.grd[key] = self.curg = self.rng.standard_normal(self.dim)
            else:                           # a probe: choose the curvature
                c = {"up": 2.5, "down": -2.5, "flat": 0.0}.get(self.probe(), 1.0)
                self.grd[key] = self.curg + c * (x - self.cur)
        return self.grd[key]


def objectives(rng, d):
    """Smooth objectives: convex, badly scaled, multimodal, unbounded."""
    H = spd(rng, d, 1.0, 1.5)
    c = rng.standard_normal(d)
    w = np.exp(rng.uniform(-2, 2, d))
    return {
        "quadratic": (lambda x: float(0.5 * (x - c) @ H @ (x - c)), lambda x: H @ (x - c)),
        "negative": (lambda x: float(0.5 * (x - c) @ H @ (x - c)) - 40.0, lambda x: H @ (x - c)),
        "quartic": (lambda x: float(np.sum(w * (x ** 4 / 4 - x ** 2 / 2 + 0.1 * x))), lambda x: w * (x ** 3 - x + 0.1)),
        "ripple": (lambda x: float(np.sum(0.05 * w * x ** 2 + np.sin(3 * x))), lambda x: 0.1 * w * x + 3 * np.cos(3 * x)),
        "valley": (lambda x: float(np.sum(10 * (x[1:] - x[:-1] ** 2) ** 2) + np.sum((1 - x) ** 2)), lambda x: valley_g(x)),
        "exp": (lambda x: float(np.sum(np.cosh(w * (x - c)))), lambda x: w * np.sinh(w * (x - c))),
        "linear": (lambda x: float(w @ x), lambda x: w.copy()),
        "kink": (lambda x: float(np.sum(w * np.abs(x - c))), lambda x: w * np.sign(x - c)),
        "concave": (lambda x: float(-np.sum(w * np.log1p(x ** 2)) + 0.01 * x @ x), lambda x: -2 * w * x / (1 + x ** 2) + 0.02 * x),
    }


def valley_g(x):
    g = -2 * (1 - x)
    r = x[1:] - x[:-1] ** 2
    g[1:] += 20 * r
    g[:-1] -= 40 * r * x[:-1]
    return g
