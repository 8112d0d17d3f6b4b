"""C05."""
from drivers import energy


def run(rec, rng, tier):
    energy.run(rec, rng, tier, correlated=False)
