"""Integration with splits (C21)."""
import json
import numpy as np
from rec import *
from src.numerics.utilities import my_trapz


def case(rec, name, f, dx, splits):
    args = [f] if dx is None else [f, dx]
    kw = {} if isinstance(splits, str) else dict(obs_t=splits)
    keep = frozen(f, splits)
    n = f.shape[0]
    res, outcome, exc = attempt(amid, lambda: my_trapz(*args, **kw), f) if n % 2 else attempt(my_trapz, *args, **kw)
    area = np.asarray(res, dtype=float) if outcome == "ok" else np.zeros(0)
    rec.trace(name, outcome=outcome, exc=exc, n=n, dx=num(1.0 if dx is None else dx), f=enc(f.reshape(n, -1)),
              area=enc(area.ravel()), shape=shape(area), want_shape=shape(f[0]), inputs_kept=same(keep, [f, splits]))


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "TrapzSplit.behaviours")) as f:
        grids = [json.loads(l) for l in f]
    for i, g in enumerate(grids):
        s = sorted(g["splits"])
        dx = float(rng.choice([0.01, 0.3, 1.0, 2.5]))
        # The identity matrix integrates to the weights of all grid points.
        case(rec, f"weights n={g['n']} splits={s}", np.eye(g["n"]), dx, s if i % 2 else np.array(s, dtype=int))
    # Long grids, observed at their end, at their start and in between.
    for n in (127, 128, 129, 256, 257, 1000, 33000):
        for tail in ((), (2,)) if n < 1000 else ((),):
            for s in ([n - 1], [0, n - 1], [n // 2, n - 2, n - 1], np.array([3, n - 1]), sorted(rng.choice(n, min(n, 300), replace=False).tolist())):
                if n == 33000 and len(s) not in (2, 3):
                    continue
                case(rec, f"long n={n} values={tail} splits {len(s)}", rng.standard_normal((n, *tail)), 0.01, s)
    # Many values, with few splits and none.
    for n, tail, s in ((1200, (10, 10), []), (1200, (10, 10), None), (700, (12, 12), [699]), (5000, (3, 3), [])):
        case(rec, f"many values n={n} {tail} {s}", np.round(rng.standard_normal((n, *tail)), 2), 0.01, s)
    for r in range(150 if tier == "quick" else 1500):
        n = int(rng.choice([2, 3, 10, 31, 80, 300]))
        tail = [(), (3,), (2, 2), (3, 3)][r % 4]
        f = rng.standard_normal((n, *tail)) * 10 ** rng.uniform(-3, 3)
        m = int(rng.integers(0, n + 1))
        s = sorted(rng.choice(n, m, replace=False).tolist())
        if r % 7 == 0:
            s = list(range(n))
        s = [s, np.array(s, dtype=int), tuple(s), None, "absent"][int(rng.integers(5)) if r % 3 == 0 else r % 2]
        if r % 6 == 1:
            f = np.round(f / np.max(np.abs(f)) * 9).astype(int)
        elif r % 6 == 2:
            f = np.asfortranarray(f)
        elif r % 6 == 4:
            f = np.repeat(f, 2, axis=0)[::2]
        case(rec, f"random {r} n={n} values={tail}", f, None if r % 5 == 0 else float(np.exp(rng.uniform(-5, 1))), s)
