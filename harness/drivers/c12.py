"""The optimiser never worsens and reports what it evaluated (C12)."""
import json
from drivers.scg import *


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "ScgDesign.behaviours")) as f:
        behaviours = [json.loads(l) for l in f]
    keep = 1500 if tier == "quick" else 20000
    step = max(1, len(behaviours) // keep)
    for i, b in enumerate(behaviours[::step]):
        d = 1 + i % 3
        s = Script(rng, d, b["script"], float(rng.choice([3.0, -3.0, 0.0])))
        says = "".join(e["say"][0] for e in b["script"])
        limit = 4 if tier == "thorough" else 3
        record(rec, f"script {says} tight={b['tight']} d={d}", Watch(s.f, s.g), rng.standard_normal(d),
               dict(max_it=limit, x_tol=1e9 if b["tight"] else 1e-12, f_tol=1e-6))
    for r in range(4 if tier == "quick" else 20):
        for d in (1, 2, 5):
            for name, (f, g) in objectives(rng, d).items():
                opts = dict(max_it=int(rng.choice([1, 2, 7, 25, 60])), x_tol=float(rng.choice([1e-6, 1e-3, 0.5])),
                            f_tol=float(rng.choice([1e-8, 1e-3, 0.1])))
                args = [(), ("extra", 2)][r % 2]
                record(rec, f"{name} d={d} {r}", Watch(f, g, args), rng.standard_normal(d) * 2, opts, display=r % 2 == 1)
    # A start in the shape of a matrix or of integers, and at a minimum.
    f, g = objectives(rng, 4)["quadratic"]
    for name, it in (("quadratic", 0), ("quartic", 0), ("quadratic", 1)):
        h = objectives(rng, 4)[name]
        record(rec, f"{name} {it} iterations", Watch(*h), rng.standard_normal(4), dict(max_it=it, x_tol=1e-6, f_tol=1e-8))
    w = np.array([1.0, 2.0, 3.0, 5.0])
    for xt, ft in ((0.0, 1e-8), (1e-6, 0.0), (0.0, 0.0), (1e-300, 1e-8)):
        record(rec, f"tolerances {xt} {ft} to the end", Watch(lambda x: float(1e6 * np.sum(w * x ** 2)), lambda x: 2e6 * w * x), np.linspace(0.5, 1, 4),
               dict(max_it=300, x_tol=xt, f_tol=ft))
    record(rec, "matrix start", Watch(f, g), rng.standard_normal((2, 2)), dict(max_it=20, x_tol=1e-6, f_tol=1e-8))
    record(rec, "zero gradient at the start", Watch(lambda x: -1.5, lambda x: np.zeros(3)), np.ones(3),
           dict(max_it=20, x_tol=1e-6, f_tol=1e-8))
    # Values and distances of unusual size, many variables, a flat function.
    for scale in (1e-10, 1e-4, 1e5, 1e12):
        c = rng.standard_normal(3)
        record(rec, f"values of size {scale}", Watch(lambda x: float(scale * np.sum((x - c) ** 2 * [1, 2, 5])), lambda x: 2 * scale * (x - c) * [1, 2, 5]),
               rng.standard_normal(3), dict(max_it=40, x_tol=1e-6, f_tol=1e-8 * scale))
        record(rec, f"level {scale}", Watch(lambda x: float(scale + np.sum((x - c) ** 2)), lambda x: 2 * (x - c)),
               rng.standard_normal(3), dict(max_it=20, x_tol=1e-6, f_tol=1e-8))
        record(rec, f"lengths of size {scale}", Watch(lambda x: float(np.sum((x / scale - c) ** 4)), lambda x: 4 * (x / scale - c) ** 3 / scale),
               rng.standard_normal(3) * scale, dict(max_it=30, x_tol=1e-6 * scale, f_tol=1e-8))
    # Small changes of large values.
    for level, unit in ((1e12, 0.25), (1e6, 1e-8), (-1e9, 1e-6), (3.0, 1e-14), (0.0, 1e-30), (1e-20, 1e-34)):
        for r in range(6):
            s = Script(rng, 1 + r % 3, [], level, unit)
            s.say = lambda: str(rng.choice(["worse", "better", "worse", "equal"]))
            record(rec, f"level {level} unit {unit} {r}", Watch(s.f, s.g), rng.standard_normal(s.dim), dict(max_it=6, x_tol=1e-12, f_tol=[1e-12, 1e9 * unit][r % 2]))
    for d in (12, 40):
        for name in ("quadratic", "ripple", "valley", "kink"):
            f, g = objectives(rng, d)[name]
            record(rec, f"{name} d={d}", Watch(f, g), rng.standard_normal(d), dict(max_it=30, x_tol=1e-6, f_tol=1e-8))
    # Tolerances at their ends: nothing is ever within zero, everything within a lot.
    for xt, ft in ((0.0, 0.0), (1e9, 1e9), (0.0, 1e9), (1e9, 0.0)):
        f, g = objectives(rng, 3)["quartic"]
        record(rec, f"tolerances {xt} {ft}", Watch(f, g), rng.standard_normal(3), dict(max_it=15, x_tol=xt, f_tol=ft))
    s = Script(rng, 2, [])
    s.say = lambda: "worse"
    record(rec, "always worse", Watch(s.f, s.g), np.zeros(2), dict(max_it=150, x_tol=1e-6, f_tol=1e-8))
    # One object for several runs, of other objectives and other sizes.
    for r in range(3 if tier == "quick" else 12):
        runs = []
        for d in ((3, 3, 3), (1, 4, 2), (5, 2, 5))[r % 3]:
            name, (f, g) = list(objectives(rng, d).items())[int(rng.choice([0, 1, 2, 3, 5]))]
            args = [(), (object(), 1)][r % 2]
            runs.append((Watch(f, g, args), rng.standard_normal(d) * 2))
        start = runs[0][1]
        runs.append((Watch(runs[0][0].fun, runs[0][0].grad, runs[0][0].args), start))     # the first one again
        record_reused(rec, f"reused {r}", runs, dict(max_it=[25, 60, 4][r % 3], x_tol=1e-4, f_tol=1e-5))
