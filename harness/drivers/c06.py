"""Lorenz-96 energies (C06)."""
import numpy as np
from rec import *
from drivers.energy import case, grid, splits, moments, WARM


def run(rec, rng, tier):
    for d in (10, 11, 13) if tier == "quick" else (10, 11, 12, 13, 16, 21):
        for kind in ("random", "flat", "noA", "nob", "diag", "unit", "wide", "tiny", "huge", "same", "slow", "stretched", "hold", "whole"):
            for r in range(1 if tier == "quick" else 3):
                n = (2 if d > 10 else 3) if kind != "hold" else 16 if d == 10 or tier != "quick" else 4
                a, b, m, s = moments(rng, n, d, kind)
                if kind == "wide":
                    m, s = m * 4 + 2, s * 3
                sigma = [float(np.exp(rng.uniform(-1, 2))), np.exp(rng.uniform(-1, 2, d)),
                         np.diag(np.exp(rng.uniform(-1, 2, d)))][(r + d) % 3]
                theta = [8.0, float(rng.uniform(-3, 12)), rng.uniform(-3, 12, d)][int(rng.integers(3))]
                # The default size is 40; others are given explicitly.
                case(rec, f"L96 D={d} {kind} {r} n={n}", "L96", sigma, theta, grid(rng, n), splits(rng, n), a, b, m, s, dim=d,
                     how=WARM[int(rng.integers(len(WARM)))], rng=rng)
    # Large systems (the default size is 40).
    for d in (36, 40) if tier == "quick" else (24, 33, 36, 40, 41, 48):
        a, b, m, s = moments(rng, 2, d, "random")
        case(rec, f"L96 D={d} large", "L96", float(np.exp(rng.uniform(-1, 2))), 8.0, grid(rng, 2), [], a, b, m, s, dim=d)
    for d in (130,) if tier == "quick" else (72, 130):
        a, b, m, s = moments(rng, 2, d, "random")
        case(rec, f"L96 D={d} averages", "L96", 1.5, rng.uniform(5, 9, d), grid(rng, 2), [], a, b, m, s, dim=d, averages=True)
    for theta in (0.0, 0, -3, np.zeros(10), np.where(np.arange(10) % 3, 8.0, 0.0), np.arange(10)):
        a, b, m, s = moments(rng, 2, 10, "random")
        case(rec, f"L96 theta={theta!r}", "L96", 1.5, theta, grid(rng, 2), [], a, b, m, s, dim=10, how="amid")
    for size in (1.0, 1e-10, 1e8):
        a, b, m, s = moments(rng, 2, 10, "random")
        case(rec, f"L96 noise with correlations of size {size}", "L96", spd(rng, 10, 3.0) * size, 8.0, grid(rng, 2), [1], a, b, m, s, dim=10)
    a, b, m, s = moments(rng, 2, 10, "random")
    case(rec, "L96 correlated points", "L96", 2.0, 8.0, grid(rng, 2), [1], a, b, m,
         np.array([spd(rng, 10, 0.5, 2.0) for _ in range(2)]), dim=10)
