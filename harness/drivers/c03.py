"""Gaussian moments (C03)."""
import numpy as np
from rec import *
from src.var_bayes.gaussian_moments import GaussianMoments


def one(f):
    v, outcome, exc = attempt(f)
    v = np.atleast_1d(v) if outcome == "ok" else []
    return dict(outcome=outcome, exc=exc, v=enc(np.ravel(v)), shape=shape(v))


def trace(rec, name, m, s, order_list):
    keep = frozen(m, s)
    if isinstance(m, np.ndarray) and m.dtype.kind == "f" and m.flags.writeable:    # other moments in the same arrays before
        old = frozen(m, s)
        m *= 0.75
        s *= 0.75
        g, _, _ = attempt(GaussianMoments, m, s)
        for what, o in order_list[:12]:
            attempt(lambda: dict(e=g, m=g.dm, s=g.ds)[what](order=o))
        m[...], s[...] = old
    g, outcome, _ = attempt(GaussianMoments, m, s)
    if outcome != "ok":
        bad = dict(outcome="error", exc="", v=[], shape=[])
        mom = {o: bad for o in range(9)}
        dm, ds = dict(mom), dict(mom)
    else:
        mom, dm, ds = {}, {}, {}
        for what, o in order_list:
            if what == "e":
                mom[o] = one(lambda: g(order=o))
            elif what == "m":
                dm[o] = one(lambda: g.dm(order=o))
            else:
                ds[o] = one(lambda: g.ds(order=o))
    rec.trace(name, kind="moments", m=enc(np.ravel(m)), s=enc(np.ravel(s)), shape=shape(np.atleast_1d(m)),
              mom=[mom[o] for o in range(9)], dm=[dm[o] for o in range(1, 9)],
              ds=[ds[o] for o in range(1, 9)], inputs_kept=same(keep, [m, s]))


def run(rec, rng, tier):
    orders = [("e", o) for o in range(9)] + [("m", o) for o in range(1, 9)] + [("s", o) for o in range(1, 9)]
    reps = 12 if tier == "quick" else 120

    def shuffled():
        return [orders[i] for i in rng.permutation(len(orders))] + [orders[i] for i in rng.permutation(len(orders))]
    for r in range(reps):
        size = [1, 2, 5, 9, 30][r % 5]
        m = rng.standard_normal(size) * [0.1, 1, 3, 20][r % 4]
        s = np.exp(rng.uniform(-3, 3, size))
        if r % 3 == 0:
            m[rng.integers(size)] = 0.0
        if r % 4 == 1:
            s[rng.integers(size)] = 0.0
        trace(rec, f"array {r} size={size}", m, s, shuffled())
    for r in range(reps // 2):
        trace(rec, f"scalar {r}", float(rng.standard_normal() * 2), float(np.exp(rng.uniform(-2, 2))), shuffled())
    for m in (-2, -1, 0, 1, 3):
        for s in (0, 1, 2):
            trace(rec, f"integer m={m} s={s}", m, s, shuffled())
    for r, (sm, ss) in enumerate(((1e-20, 1.0), (1e-20, 1e-40), (1.0, 1e-30), (1e-12, 1e-25), (1e6, 1.0), (1e20, 1e3), (1e3, 1e30), (1e-6, 1e6))):
        trace(rec, f"scales m~{sm} s~{ss}", rng.standard_normal(5) * sm, np.exp(rng.uniform(-1, 1, 5)) * ss, shuffled())
        trace(rec, f"scalar scales m~{sm} s~{ss}", float(rng.standard_normal() * sm), float(np.exp(rng.uniform(-1, 1)) * ss), shuffled())
    trace(rec, "mixed scales", 10.0 ** np.arange(-18, 19, 3.0) * rng.choice([-1.0, 1.0], 13), 10.0 ** rng.permutation(np.arange(-18, 19, 3.0)), shuffled())
    trace(rec, "neighbouring values", 1.5 + 1e-9 * np.arange(6), 0.3 + 1e-10 * np.arange(6)[::-1], shuffled())
    trace(rec, "equal values", np.full(4, 0.7), np.array([0.2, 0.2, 0.5, 0.2]), shuffled())
    trace(rec, "large whole numbers", np.array([1000, -3000, 70000, 12]), np.array([50, 1, 40000, 10**6]), shuffled())
    trace(rec, "large whole scalar", 12345, 6789, shuffled())
    trace(rec, "integer arrays", np.array([-2, 0, 1, 3]), np.array([1, 2, 3, 1]), shuffled())
    for sh in ((3, 4), (4, 3), (5, 1), (1, 5), (2, 3, 2)):
        trace(rec, f"array of shape {sh}", rng.standard_normal(sh), np.exp(rng.uniform(-2, 1, sh)), shuffled())
    trace(rec, "column-major arrays", np.asfortranarray(rng.standard_normal((3, 4))), np.asfortranarray(np.exp(rng.uniform(-2, 1, (3, 4)))), shuffled())
    trace(rec, "strided arrays", rng.standard_normal(12)[::-2], np.exp(rng.uniform(-2, 1, (6, 3)))[:, 1], shuffled())
    trace(rec, "grid", *[a.ravel() for a in np.meshgrid(np.linspace(-2, 2, 9), np.linspace(0, 3, 7))], shuffled())
    trace(rec, "orders given as numpy integers", rng.standard_normal(5), np.exp(rng.uniform(-2, 1, 5)), [(w, np.int64(o)) for w, o in shuffled()])
    trace(rec, "many values", rng.standard_normal(1500) * 2, np.exp(rng.uniform(-2, 1, 1500)), orders)
    g = GaussianMoments(np.array([1.0, 2.0]), np.array([0.5, 0.25]))
    for o in (-1, 9, 10, 100):
        for what, f in (("moment", g), ("dm", g.dm), ("ds", g.ds)):
            _, outcome, exc = attempt(lambda: f(order=o))
            rec.trace(f"reject {what} order={o}", kind="reject", outcome=outcome, exc=exc)
    for what, f in (("dm", g.dm), ("ds", g.ds)):
        _, outcome, exc = attempt(lambda: f(order=0))
        rec.trace(f"reject {what} order=0", kind="reject", outcome=outcome, exc=exc)
    for a, b in (((2,), (3,)), ((1,), (2,)), ((4,), (1,)), ((2, 2), (4,))):
        _, outcome, exc = attempt(GaussianMoments, np.ones(a), np.ones(b))
        rec.trace(f"reject shapes {a} {b}", kind="reject", outcome=outcome, exc=exc)
