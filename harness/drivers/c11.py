"""Evaluation histories (C11)."""
import json
import numpy as np
from rec import *
from drivers.vgp import *
from apart import apart, compiled


class Intern:
    """Numbers for results; results that agree to rounding get the same one."""

    def __init__(self):
        self.known = []

    def __call__(self, v):
        v = np.concatenate([np.asarray(a, dtype=float).ravel() for a in (v if isinstance(v, list) else [v])])
        for i, w in enumerate(self.known):
            if w.shape == v.shape and np.allclose(w, v, rtol=1e-12, atol=1e-13 * np.max(np.abs(w))):
                return i + 1
        self.known.append(v)
        return len(self.known)


def published(v):
    return [v.arg_out[k] for k in ("mt", "st", "Efx", "Edf", "lamt", "psit")]


def surroundings(v):
    """Everything an evaluation has to leave alone."""
    m = v.model
    lik, kl = v.likelihood, v.kl0
    return [m.sigma, m.theta, m.inverse_sigma, m.sample_path, m.time_window, v.obs_y, v.obs_t, v.arg_out["m0"],
            v.arg_out["s0"], float(lik(*probe(v))), float(kl(v.arg_out["m0"], v.arg_out["s0"]))]


def probe(v):
    n = v.model.time_window.size
    if v.model.single_dim:
        return np.linspace(0, 1, n), np.full(n, 0.5)
    d = v.model.sample_path.shape[1]
    return np.linspace(0, 1, n * d).reshape(n, d), np.tile(np.eye(d) * 0.5, (n, 1, 1))


class World:
    """Two problems of one model, three points, and reference results."""

    def __init__(self, rng, model, scheme, n, close=False):
        self.problems = [Problem(rng, model, scheme, n, 0.05), Problem(rng, model, scheme, n, 0.05)]
        p = self.problems[0]
        self.problems[1].coincide({"DW": "prior", "OU": "means", "L63": "zero", "L96": "covariances"}[model])
        x1 = p.pack(*p.random_x(rng, 0.25 if model == "L96" else 0.7))
        if close:                          # points that are nearly the same
            x2 = x1 * (1 + 4e-10)
            x3 = x1.copy()
            x3[x3.size // 2] += 1e-10
        else:
            x2, x3 = self.apart(model, x1)
        self.points = [x1, x2, x3]
        self.ids = Intern()
        self.ref, self.guess = [], []

    @staticmethod
    def apart(model, x1):
        x2 = x1.copy()                     # the same numbers in another order
        i, j = (0, x1.size // 2) if model != "L96" else (1, x1.size - 2)
        x2[i], x2[j] = x1[j], x1[i]
        x3 = x1.copy()                     # a small change somewhere in the middle
        x3[x3.size // 3] += 1e-3
        return x2, x3

    def thunks(self):
        """The evaluations whose results are the references."""
        def at(p, x):
            v = p.build()
            f = v.free_energy(x.copy())
            g = v.gradient(x.copy())
            return f, g, published(v)
        return [lambda p=p, x=x: at(p, x) for p in self.problems for x in self.points] \
            + [lambda p=p: p.build().initialization() for p in self.problems]

    def set(self, results):
        it = iter(results)
        self.ref = [[dict(zip("FGP", map(self.ids, next(it)))) for _ in self.points] for _ in self.problems]
        self.guess = [self.ids(next(it)) for _ in self.problems]

    def objects(self, share):
        """The two objects; they may share the solvers, or everything (two
        objects of the first problem)."""
        if share == "solvers":
            parts = {}
            a = self.problems[0].build(parts)
            return [a, self.problems[1].build({k: parts[k] for k in ("fwd", "bwd")})]
        if share == "all":
            parts = {}
            return [self.problems[0].build(parts), self.problems[0].build(parts)]
        return [p.build() for p in self.problems]

    def play(self, objs, history, mode):
        """Perform a history; in mode "buffer" all points are passed in the
        same array, overwritten in between."""
        buf = np.empty_like(self.points[0])
        events, results = [], []
        state = [None if v is None else surroundings(v) for v in objs]
        keep = [frozen(*s) for s in state]
        for e in history:
            v = objs[e["o"] - 1]
            x = None
            if e["x"]:
                if mode == "buffer":
                    buf[:] = self.points[e["x"] - 1]
                    x = buf
                else:
                    x = self.points[e["x"] - 1].copy()
            call = dict(energy=lambda: v.free_energy(x), grad=lambda: v.gradient(x),
                        gradeval=lambda: v.gradient(x, eval_fun=True), guess=v.initialization)[e["op"]]
            res, outcome, exc = attempt(call)
            kept = x is None or same(x, self.points[e["x"] - 1])
            kept = kept and all(same(k, surroundings(u)) for k, u in zip(keep, objs))
            results.append(res)
            events.append(dict(op=e["op"], o=e["o"], x=e["x"], outcome=outcome, exc=exc, kept=bool(kept),
                               published=[self.ids(published(u)) if "mt" in u.arg_out else 0 for u in objs]))
        for e, res in zip(events, results):    # what has been returned must still be there
            e["result"] = self.ids(res) if e["outcome"] == "ok" else 0
        return events

    def record(self, rec, name, events, share):
        same = share == "all"
        rec.trace(name, events=events, ref=[self.ref[0]] * 2 if same else self.ref,
                  guess=[self.guess[0]] * 2 if same else self.guess)


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "EvalHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    kinds = (("DW", "rk4", 5, 1), ("OU", "heun", 4, 3), ("L63", "rk2", 4, 6), ("L96", "euler", 3, 60),
             ("DW", "heun", 4, 4), ("OU", "rk4", 5, 8), ("L63", "euler", 3, 24))
    worlds = [World(rng, model, scheme, n, i >= 4) for i, (model, scheme, n, _) in enumerate(kinds)]
    # All references come from children, before anything else runs here.
    compiled([w.thunks()[0] for w, k in zip(worlds[:4], kinds) if k[0] in ("L63", "L96")])
    refs = [apart(w.thunks()) for w in worlds]
    for w, done, (model, scheme, n, share) in zip(worlds, refs, kinds):
        wrong = [r for r in done if r[1] != "ok"]
        if wrong:
            rec.trace(f"{model} fresh evaluations", events=[dict(op="energy", o=1, x=1, outcome="error", exc=wrong[0][2], result=0,
                      kept=True, published=[0])], ref=[[dict(F=0, G=0, P=0)]], guess=[0])
            continue
        w.set([r[0] for r in done])
        pick = [h for i, h in enumerate(hists) if (i * 7919) % len(hists) < len(hists) // (share if tier == "quick" else max(1, share // 6))]
        for mode, share in (("copy", "nothing"), ("buffer", "nothing"), ("copy", "solvers"), ("buffer", "all")):
            batch = []
            objs = w.objects(share)
            for i, h in enumerate(pick):
                if share != "nothing" and i % 3:
                    continue
                w.record(rec, f"{model} {scheme} {mode} share {share} {''.join(e['op'][0] + str(e['o']) + str(e['x']) for e in h)}",
                         w.play(w.objects(share), h, mode), share)
                if i % 5 == 0:
                    batch += h
            # The same behaviours one after another on the same objects.
            w.record(rec, f"{model} {scheme} {mode} share {share} long", w.play(objs, batch[:400], mode), share)
