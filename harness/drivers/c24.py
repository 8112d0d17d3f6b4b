"""Updates of parameters between evaluations (C24)."""
import json
import numpy as np
from rec import *
from drivers.vgp import *
from drivers.c11 import Intern, published
from apart import apart, compiled

ORDER = [(s, t, r) for r in (1, 2) for t in (1, 2) for s in (1, 2)]


KINDS = ("new", "scaled", "permuted", "flipped", "one", "slight", "minute")


def other(rng, v, kind, fresh):
    """A second value of a parameter: unrelated, or one that shares with the
    first what a careless comparison would look at (trace, determinant,
    diagonal, norm, all entries but one, leading digits)."""
    v = np.array(v, dtype=float)
    if kind == "new" or v.size == 1 and kind in ("permuted", "flipped", "one"):
        return fresh(v)
    if kind in ("scaled", "minute"):
        return v * float(rng.choice([0.6, 1.7, 2.0]))
    if kind == "slight":
        return v * (1.0 + 1.0e-5)
    d = len(v)
    if kind == "one":
        w, i = v.copy(), int(rng.integers(d))
        w[(i, i) if v.ndim == 2 else i] *= 1.4
        return w
    if kind == "flipped" and v.ndim == 2 and np.any(v != np.diag(np.diag(v))):
        s = np.where(np.arange(d) % 2 == int(rng.integers(2)), -1.0, 1.0)
        return s[:, None] * v * s
    p = np.roll(np.arange(d), 1)
    return v[np.ix_(p, p)] if v.ndim == 2 else v[p]


def point(rng, p, x, kind, fresh):
    """A second evaluation point."""
    if kind in ("new", "scaled", "minute"):
        return fresh()
    w = x.copy()
    if kind == "permuted":
        return p.pack(*(q[::-1] for q in (w[:p.n * p.d * p.d].reshape(p.n, p.d, p.d), w[p.n * p.d * p.d:].reshape(p.n, p.d))))
    if kind == "flipped":
        w[p.n * p.d * p.d:] *= -1.0
    elif kind == "one":
        w[int(rng.integers(w.size - p.d * p.n - p.d * p.d))] += 0.3
    else:
        w *= 1.0 + 1.0e-5
    return w


class World:
    """Two problems of one model, two values of every parameter, two points,
    and the results of fresh objects for all combinations."""

    def __init__(self, rng, model, scheme, n, kind="new"):
        self.model, self.single = model, model in SINGLE
        self.problems = [Problem(rng, model, scheme, n, 0.04), Problem(rng, model, scheme, n, 0.04)]
        p = self.problems[0]
        d = p.d
        if not self.single and kind != "new":
            p.R = spd(rng, d, 0.8)
        if kind == "minute":                 # noise far below one
            p.R, p.sigma = p.R * 1e-9, p.sigma * 1e-7
        kinds = [kind] * 4 if kind == "new" or rng.random() < 0.4 else [str(k) for k in rng.choice(KINDS, 4)]
        kinds[int(rng.integers(4))] = kind
        self.kinds = dict(zip(("sigma", "theta", "noise", "point"), kinds))
        self.sigma = {1: p.sigma, 2: other(rng, p.sigma, kinds[0], lambda v: v * 1.7 if self.single else np.exp(rng.uniform(0, 2, d)))}
        self.theta = {1: p.theta, 2: other(rng, p.theta, kinds[1], lambda v: [8.0, 30.0, 2.1] if model == "L63" else 1.31 * v)}
        if self.single:
            self.sigma[2], self.theta[2] = float(self.sigma[2]), float(self.theta[2])
        elif model == "L63":
            self.theta[2] = [float(v) for v in self.theta[2]]
        elif kind in ("permuted", "flipped", "one"):         # forcings of the sites
            v = np.round(rng.uniform(-8, 36, d)) / 4.0        # sums without rounding
            self.theta = {1: v, 2: v[::-1].copy() if kind == "permuted" else 8.0 - v if kind == "flipped" else v + 0.5 * (np.arange(d) == 3)}
        elif kind == "new":
            self.theta[2] = float(self.theta[2]) + np.linspace(-1.0, 1.0, d)
        else:
            self.theta[2] = float(self.theta[2])
        self.noise = {1: p.R, 2: other(rng, p.R, kinds[2], lambda v: v * 0.6 if self.single or rng.random() < 0.3 else spd(rng, d, 0.8))}
        fresh = lambda: p.pack(*p.random_x(rng, 0.25 if model == "L96" else 0.6))
        self.points = [fresh()]
        self.points.append(point(rng, p, self.points[0], kinds[3], fresh))
        self.ids = Intern()
        self.ref = []

    def thunks(self):
        """The evaluations whose results are the references."""
        def at(q, c, x):
            self.configure(q, *c)
            v = q.build()
            f = v.free_energy(x.copy())
            g = v.gradient(x.copy())
            return f, g, published(v)

        def guess(q, c):
            self.configure(q, *c)
            return q.build().initialization()
        out = []
        for q in self.problems:
            for c in ORDER:
                out += [lambda q=q, c=c, x=x: at(q, c, x) for x in self.points]
                out.append(lambda q=q, c=c: guess(q, c))
        return out

    def set(self, results):
        it = iter(results)
        self.ref = [[dict(point=[dict(zip("FGP", map(self.ids, next(it)))) for _ in self.points],
                          guess=self.ids(next(it))) for _ in ORDER] for _ in self.problems]

    def configure(self, q, s, t, r):
        q.sigma, q.theta, q.R = self.sigma[s], self.theta[t], self.noise[r]

    def objects(self, share):
        for q in self.problems:
            self.configure(q, 1, 1, 1)
        self.store = dict(sigma=self.sigma, theta=self.theta, noise=self.noise)
        if share == "arrays":            # separate objects, made from the same arrays
            q = copy.copy(self.problems[0])
            for k in ("m0", "s0", "mu0", "tau0", "y", "tk"):
                setattr(q, k, getattr(q, k).copy())
            if not self.single:
                self.store = dict(sigma={i: np.diag(v) if np.ndim(v) == 1 else np.array(v) for i, v in self.sigma.items()},
                                  theta={i: np.array(v, dtype=float) for i, v in self.theta.items()},
                                  noise={i: v.copy() for i, v in self.noise.items()})
                q.sigma, q.theta, q.R = (self.store[k][1] for k in ("sigma", "theta", "noise"))
            return [q.build(alias=True), q.build(alias=True)]
        if not share:
            return [q.build() for q in self.problems]
        parts = {}
        return [self.problems[0].build(parts), self.problems[0].build(parts)]

    def apply(self, v, e, alias=False):
        """The call that belongs to an event, and its argument."""
        op, c = e["op"], (lambda u: u) if alias else copy.deepcopy
        if op == "sigma":
            s = c(self.store["sigma"][e["x"]])
            return lambda: setattr(v.model, "sigma", np.diag(s) if np.ndim(s) == 1 else s), s
        if op == "bad":
            s = -1.0 if self.single else -np.eye(self.problems[0].d)
            return lambda: setattr(v.model, "sigma", s), s
        if op == "theta":
            t = c(self.store["theta"][e["x"]])
            return lambda: setattr(v.model, "theta", t), t
        if op == "noise":
            r = np.asarray(float(self.noise[e["x"]][0, 0])) if self.single else c(self.store["noise"][e["x"]])
            return lambda: setattr(v.likelihood, "noise", r), r
        if op == "guess":
            return v.initialization, None
        x = self.points[e["x"] - 1].copy()
        return (lambda: v.free_energy(x)) if op == "energy" else (lambda: v.gradient(x, eval_fun=True)), x

    def play(self, rec, name, share, history):
        objs, events, results = self.objects(share), [], []
        for e in history:
            v = objs[e["o"] - 1]
            call, arg = self.apply(v, e, share == "arrays")
            arg = [arg, self.store]
            keep = frozen(arg)
            res, outcome, exc = attempt(call)
            results.append(res)
            events.append(dict(op=e["op"], o=e["o"], x=e["x"], outcome=outcome, exc=exc,
                               published=self.ids(published(v)) if "mt" in v.arg_out else 0, kept=same(keep, [arg])))
        for e, res in zip(events, results):
            e["result"] = self.ids(res) if e["outcome"] == "ok" and res is not None else 0
        rec.trace(name, share=share is True, events=events, ref=[self.ref[0]] * 2 if share else self.ref)


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "UpdateHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    order = rng.permutation(len(hists))
    models = {"DW": ("rk4", 5, 1600), "OU": ("heun", 4, 1200), "L63": ("rk2", 4, 700), "L96": ("euler", 3, 60)}
    schemes = ("euler", "heun", "rk2", "rk4")
    worlds = [(model, kind, World(rng, model, first if kind == "new" else str(rng.choice(schemes)), n, kind))
              for model, (first, n, _) in models.items() for kind in KINDS]
    compiled([w.thunks()[0] for model, kind, w in worlds if kind == "new" and model in ("L63", "L96")])
    # All references come from children, before anything else runs here.
    thunks = [t for _, _, w in worlds for t in w.thunks()]
    done, per = apart(thunks), len(thunks) // len(worlds)
    pos = 0
    for i, (model, kind, w) in enumerate(worlds):
        part = done[i * per:(i + 1) * per]
        wrong = [r for r in part if r[1] != "ok"]
        if wrong:
            rec.trace(f"{model} {kind} fresh evaluations: {wrong[0][2]}", share=False, ref=[[]],
                      events=[dict(op="noise", o=1, x=1, outcome="error", result=0, published=0, kept=True)])
            continue
        w.set([r[0] for r in part])
        share = models[model][2] // 2 if kind == "new" else models[model][2] // (2 * (len(KINDS) - 1))
        share *= 1 if tier == "quick" else 6
        for h in [hists[order[(pos + j) % len(order)]] for j in range(min(share, len(order)))]:
            how = h["share"] or ("arrays" if rng.random() < 0.4 else False)
            w.play(rec, f"{model} {kind} share={how} {' '.join(e['op'] + str(e['o']) + str(e['x']) for e in h['hist'])}", how, h["hist"])
        pos += share
        # Random long histories.
        for shared in (True, False, "arrays"):
            for r in range((2 if kind == "new" else 1) if tier == "quick" else 6):
                long = []
                for _ in range(30 if model == "L96" else 90):
                    op = str(rng.choice(["sigma", "theta", "noise", "bad", "energy", "energy", "gradeval", "gradeval", "guess"]))
                    long.append(dict(op=op, o=int(rng.integers(1, 3)), x=0 if op in ("bad", "guess") else int(rng.integers(1, 3))))
                w.play(rec, f"{model} {kind} share={shared} long {r}", shared, long)
