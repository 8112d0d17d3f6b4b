"""The optimiser performs the SCG recursion (C13)."""
import json
from drivers.scg import *


def run(rec, rng, tier):
    for r in range(5 if tier == "quick" else 40):
        for d in (1, 2, 3, 6):
            for name, (f, g) in objectives(rng, d).items():
                if name in ("kink", "linear"):
                    continue
                # The extra arguments are objects of their own kind.
                args = [(), (object(), [1]), ("a",)][r % 3]
                record(rec, f"{name} d={d} {r}", Watch(f, g, args), rng.standard_normal(d) * 2,
                       dict(max_it=25 if tier == "quick" else 60, x_tol=1e-4, f_tol=1e-5), display=r % 2 == 0)
    # Arbitrary answers from the design model: sequences of accepted and
    # rejected trials and curvature signs that smooth functions rarely show.
    with open(os.path.join(os.environ["BEHAVIOURS"], "ScgDesign.behaviours")) as f:
        behaviours = [json.loads(l) for l in f]
    behaviours = [b for b in behaviours if not any(e["say"] in ("nan", "infinite", "slight") for e in b["script"])]
    step = max(1, len(behaviours) // (300 if tier == "quick" else 3000))
    for i, b in enumerate(behaviours[::step]):
        d = 1 + i % 3
        s = Script(rng, d, b["script"])
        record(rec, f"script {''.join(e['say'][0] for e in b['script'])} d={d}", Watch(s.f, s.g), rng.standard_normal(d),
               dict(max_it=len([e for e in b["script"] if e["at"] == "trial"]), x_tol=1e-12, f_tol=1e-6))
    # The limits of the scale: very many failures, very many successes.
    for limit, word in ((175, "worse"), (70, "better")):
        for d in (1, 2):
            s = Script(rng, d, [])
            s.say = lambda: word
            record(rec, f"always {word} d={d}", Watch(s.f, s.g), np.zeros(d), dict(max_it=limit, x_tol=1e-300, f_tol=1e-8))
    # Vanishing curvature: the scale alone decides the length of the step.
    for d in (1, 2, 5):
        w = np.exp(rng.uniform(-1, 1, d)) * rng.choice([-1.0, 1.0], d)
        record(rec, f"constant slope d={d}", Watch(lambda x: float(w @ x), lambda x: w.copy()), np.zeros(d),
               dict(max_it=[62, 55, 70][d % 3], x_tol=1e-300, f_tol=1e-8))
        for limit, word in ((175, "worse"), (70, "better")):
            s = Script(rng, d, [])
            s.say, s.probe = (lambda: word), (lambda: "flat")
            record(rec, f"always {word}, no curvature d={d}", Watch(s.f, s.g), np.zeros(d), dict(max_it=limit, x_tol=1e-300, f_tol=1e-8))
    for d in (2, 3):
        s = Script(rng, d, [])
        s.say = lambda: str(rng.choice(["worse", "worse", "better", "better", "equal"]))
        s.probe = lambda: str(rng.choice(["up", "down", "flat", "flat"]))
        record(rec, f"random answers, curvature comes and goes d={d}", Watch(s.f, s.g), np.zeros(d), dict(max_it=60, x_tol=1e-300, f_tol=1e-8))
    # Starts that are whole numbers, of two dimensions, very large or small.
    for name in ("quadratic", "quartic", "ripple", "exp"):
        f, g = objectives(rng, 4)[name]
        o = dict(max_it=30, x_tol=1e-4, f_tol=1e-5)
        record(rec, f"{name} whole start", Watch(f, g), np.array([2, -1, 0, 3]), o)
        record(rec, f"{name} two-dimensional start", Watch(f, g), rng.standard_normal((2, 2)), o)
        record(rec, f"{name} near start", Watch(f, g), rng.standard_normal(4) * 1e-9, o)
    for scale in (1e-6, 1e6):
        c = rng.standard_normal(3)
        record(rec, f"quadratic of scale {scale}", Watch(lambda x: float(0.5 * scale * np.sum((x - c) ** 2 * [1, 2, 5])), lambda x: scale * (x - c) * [1, 2, 5]),
               rng.standard_normal(3), dict(max_it=40, x_tol=1e-9, f_tol=1e-9))
        record(rec, f"quadratic over lengths {scale}", Watch(lambda x: float(0.5 * np.sum((x / scale - c) ** 2 * [1, 2, 5])), lambda x: (x / scale - c) * [1, 2, 5] / scale),
               rng.standard_normal(3) * scale, dict(max_it=40, x_tol=1e-12 * scale, f_tol=1e-9))
    # Very small gradients: down to the length at which a direction vanishes.
    for size in (1e-4, 1e-6, 3e-8, 2e-8, 1e-8, 1e-9, 1e-12):
        for d in (1, 3):
            c = rng.standard_normal(d)
            w = np.exp(rng.uniform(-1, 1, d))
            unit = c / np.linalg.norm(c * w)
            record(rec, f"slope of size {size} d={d}", Watch(lambda x: float(0.5 * size * np.sum(w * (x - unit) ** 2)), lambda x: size * w * (x - unit)),
                   np.zeros(d), dict(max_it=8, x_tol=[1e-6, 1e-12][d % 2], f_tol=1e-30))
    for d in (12, 40):
        for name in ("quadratic", "ripple", "valley"):
            f, g = objectives(rng, d)[name]
            record(rec, f"{name} d={d}", Watch(f, g), rng.standard_normal(d), dict(max_it=30, x_tol=1e-6, f_tol=1e-8))
    # A function that is the same everywhere: every trial is equal.
    s = Script(rng, 2, [])
    s.say = lambda: "equal"
    record(rec, "always equal", Watch(s.f, s.g), np.zeros(2), dict(max_it=30, x_tol=1e-300, f_tol=1e-300))
    # Limits of the number of iterations.
    for n in (1, 2, 3):
        f, g = objectives(rng, 3)["valley"]
        record(rec, f"at most {n}", Watch(f, g), rng.standard_normal(3), dict(max_it=n, x_tol=1e-6, f_tol=1e-8))
    s = Script(rng, 3, [])
    s.say = lambda: str(rng.choice(["worse", "better", "better"]))
    s.probe = lambda: str(rng.choice(["up", "down"]))
    record(rec, "random answers", Watch(s.f, s.g), np.zeros(3), dict(max_it=60, x_tol=1e-300, f_tol=1e-8))
    # One object for several runs, of other objectives and other sizes.
    for r in range(3 if tier == "quick" else 12):
        runs = []
        for d in ((3, 3, 3), (1, 4, 2), (5, 2, 5))[r % 3]:
            name, (f, g) = list(objectives(rng, d).items())[int(rng.choice([0, 1, 2, 3, 5]))]
            args = [(), (object(), 1)][r % 2]
            runs.append((Watch(f, g, args), rng.standard_normal(d) * 2))
        start = runs[0][1]
        runs.append((Watch(runs[0][0].fun, runs[0][0].grad, runs[0][0].args), start))     # the first one again
        record_reused(rec, f"reused {r}", runs, dict(max_it=[25, 60, 4][r % 3], x_tol=1e-4, f_tol=1e-5))
