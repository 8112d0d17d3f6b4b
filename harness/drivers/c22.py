"""Matrix and calculus helpers (C22)."""
import numpy as np
from rec import *
from src.numerics.utilities import chol_inv, log_det, safe_log, finite_diff


def call(rec, name, kind, fun, args, conv, want, **extra):
    keep = frozen(*args)
    res, outcome, exc = attempt(amid, lambda: fun(*args), *args) if "safe_log" not in name else attempt(fun, *args)
    val, shapes = [], []
    if outcome == "ok":
        try:
            val, shapes = conv(res)
        except Exception as e:  # noqa: BLE001
            outcome, exc = "unusable", type(e).__name__
    rec.trace(name, kind=kind, outcome=outcome, exc=exc, res=val, shapes=shapes, want_shapes=want,
              inputs_kept=same(keep, args), **extra)


def matrices(rng, tier):
    for r in range(6 if tier == "quick" else 40):
        for d in (1, 2, 3, 5, 10, 40 if r == 0 else 7):
            yield f"random {d} {r}", spd(rng, d, 10 ** rng.uniform(-4, 4), float(rng.choice([0.1, 1.0, 2.5])))
        yield f"correlated {r}", np.array([[1.0, 0.999], [0.999, 1.0]]) * 10 ** rng.uniform(-2, 2)
        for d, scale in ((3, 1e-12), (5, 1e12), (40, 1e-10), (40, 1e10), (20, 1e-20), (8, 1e-40), (8, 1e40), (2, 1e-150)):
            yield f"scale {scale} d={d} {r}", spd(rng, d, scale)
        w = np.logspace(-6, 6, 6)[rng.permutation(6)]
        yield f"stretched {r}", spd(rng, 6, 1.0, 0.3) * w[:, None] * w
        yield f"nearly diagonal {r}", np.diag(np.exp(rng.uniform(-1, 1, 5))) + 1e-7 * spd(rng, 5)
        yield f"tiny correlated {r}", 1e-9 * spd(rng, 3)
        yield f"symmetric to rounding {r}", spd(rng, 4) + 1e-17 * rng.standard_normal((4, 4))
    yield "large", spd(rng, 70, 2.0)
    yield "diagonal", np.diag([1e-3, 5.0, 1e3])
    yield "identity", np.eye(4)
    yield "integers", np.array([[4, 1, 0], [1, 3, -1], [0, -1, 5]])
    yield "hilbert", 1.0 / (np.arange(4)[:, None] + np.arange(4) + 1)
    yield "fortran", np.asfortranarray(spd(rng, 4))
    yield "view", spd(rng, 8)[::2, ::2]


def run(rec, rng, tier):
    for name, a in matrices(rng, tier):
        d = a.shape[0]
        call(rec, f"chol_inv {name}", "chol_inv", chol_inv, [a], lambda r: ([enc(r[0]), enc(r[1])], [shape(r[0]), shape(r[1])]),
             [[d, d], [d, d]], a=enc(a))
        call(rec, f"log_det {name}", "log_det", log_det, [a], lambda r: (num(r), shape(r)), [], a=enc(a))
    for v in (1e-8, 0.3, 1.0, 2, 77.0, 1e9, 1e-30, 1e30, 1e-250, 1e250):
        for s in (v, np.array(v)):
            call(rec, f"chol_inv scalar {v}", "chol_inv", chol_inv, [s], lambda r: ([enc(np.atleast_2d(r[0])), enc(np.atleast_2d(r[1]))], [shape(r[0]), shape(r[1])]),
                 [[], []], a=[[num(v)]])
            call(rec, f"log_det scalar {v}", "log_det", log_det, [s], lambda r: (num(r), shape(r)), [], a=[[num(v)]])
    for d in (1, 3, 20, 60, 61, 62):
        v = np.exp(rng.uniform(-6, 6, d)) * {61: 1e-12, 62: 1e12}.get(d, 1.0)
        for form in (v, v.tolist()):
            call(rec, f"log_det vector {d}", "log_det", log_det, [form], lambda r: (num(r), shape(r)), [], a=enc(np.diag(v)))
    call(rec, "log_det list", "log_det", log_det, [[[2.0, 0.5], [0.5, 1.0]]], lambda r: (num(r), shape(r)), [], a=[["2.0", "0.5"], ["0.5", "1.0"]])
    for s in ((2, 3), (3, 2), (1, 4), (4, 1)):
        rec_reject(rec, f"log_det {s}", log_det, np.ones(s))
    # The guarded logarithm over its whole domain.
    ends = [1e-300, 1e300, 5e-324, 1e-310, 9.9e-301, 1.1e-300, 9.9e299, 1.1e300, 1.7e308, np.inf, 0.0, -1.0, -1e-320, -1e305, -np.inf]
    mid = (10.0 ** rng.uniform(-299, 299, 40)).tolist() + [1.0, 2.0, np.e, 1 + 1e-15, 0.5]

    def say(v):
        return "1E400" if v == np.inf else "-1E400" if v == -np.inf else num(v)
    for v in ends + mid:
        call(rec, f"safe_log {v!r}", "safe_log", safe_log, [v], lambda r: ([num(r)], shape(r)), [], a=[say(v)])
    for group in (np.array(ends + mid), np.array(mid[:1]), np.array(mid[:4]).reshape(2, 2)):
        call(rec, f"safe_log array {group.shape}", "safe_log", safe_log, [group], lambda r: (enc(np.ravel(r)), shape(r)),
             shape(group), a=[say(v) for v in group.ravel()])
    # Central differences of quadratic functions.
    for r in range(25 if tier == "quick" else 200):
        d = int(rng.choice([1, 2, 3, 8]))
        Q = rng.standard_normal((d, d)) * float(rng.choice([0.0, 1.0, 1e4]))
        l = rng.standard_normal(d)
        x = rng.standard_normal(d) * float(rng.choice([0.0, 1.0, 3.0]))
        extra = [(), (object(),), (1, "two")][r % 3]
        ok = []

        def fun(z, *args):
            ok.append(len(args) == len(extra) and all(p is q for p, q in zip(args, extra)))
            z = np.asarray(z, dtype=float)
            if z.shape != (d,):
                raise ValueError
            return float(z @ Q @ z + l @ z)
        if r % 4 == 3:                  # whole numbers, given as such
            x = np.round(3 * x)
        arg = x.copy()
        if r % 4 == 3:
            arg = x.astype(int)
        elif r % 9 == 5:
            arg = x.tolist()
        if d == 1 and r % 2:
            arg = arg[0].item() if r % 4 == 3 else float(x[0])
        keep = frozen(arg)
        res, outcome, exc = attempt(finite_diff, fun, arg, *extra)
        rec.trace(f"finite_diff {r} d={d}", kind="finite_diff", outcome=outcome, exc=exc,
                  res=enc(np.atleast_1d(res)) if outcome == "ok" else [], shapes=shape(np.atleast_1d(res)) if outcome == "ok" else [],
                  want_shapes=[d], inputs_kept=same(keep, [arg]), a=enc(x), Q=enc(Q), l=enc(l), args_ok=bool(all(ok)))


def rec_reject(rec, name, fun, a):
    _, outcome, exc = attempt(fun, a)
    rec.trace(name, kind="reject", outcome=outcome, exc=exc, inputs_kept=True)
