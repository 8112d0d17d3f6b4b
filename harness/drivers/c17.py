"""Model parameters under updates (C17)."""
import json
import numpy as np
from rec import *
from drivers.energy import CLS

SINGLE = ("DW", "OU")


def noise(rng, model, d, kind, prev=None):
    """(value to pass, form); prev: the noise before."""
    if kind.startswith("as "):
        if model in SINGLE:
            return int(rng.integers(1, 9)), "scalar"
        if "vector" in kind:
            v = rng.integers(1, 9, d)
            return {"whole": v, "list": (v * 0.5).tolist(), "columns": np.repeat(v * 0.25, 2)[::2]}[kind.split()[-1]], "vector"
        v = rng.integers(1, 9, (d, d)) - 4
        v = v @ v.T + np.eye(d, dtype=int)
        return {"whole": v, "list": (v * 0.5).tolist(), "columns": np.asfortranarray(spd(rng, d, 3.0))}[kind.split()[-1]], "matrix"
    if kind in ("near", "nearer", "one entry", "same", "tiny", "huge", "tiny negative"):
        if kind in ("tiny", "huge", "tiny negative"):
            v, form = noise(rng, model, d, "full")
            return v * dict(tiny=1e-9, huge=1e9).get(kind, -1e-9), form
        v = np.array(prev, dtype=float)
        if kind == "one entry":
            i, j = int(rng.integers(d)), int(rng.integers(d))
            v[i, j] = v[j, i] = v[i, j] + (1e-6 * v[i, i] if i != j else 2e-6 * v[i, i])
        elif kind != "same":
            v = v * (1 + (3e-6 if kind == "near" else 2e-9))
        return (float(v[0, 0]), "scalar") if model in SINGLE else (v, "matrix")
    if model in SINGLE:
        v = float(np.exp(rng.uniform(-2, 2)))
        v = {"indefinite": -v, "negative": 0.0 if rng.random() < 0.5 else -v, "shape": -1e-9}.get(kind, v)
        return v, "scalar"
    if kind == "scalar":
        return float(np.exp(rng.uniform(-1, 2))), "scalar"
    if kind == "vector":
        return np.exp(rng.uniform(-1, 2, d)), "vector"
    if kind == "diagonal":
        return np.diag(np.exp(rng.uniform(-1, 2, d))), "matrix"
    if kind == "integers":
        return np.diag(rng.integers(1, 9, d)), "matrix"
    if kind == "full":
        return spd(rng, d, 3.0), "matrix"
    if kind == "negative":
        return -spd(rng, d, 3.0), "matrix"
    if kind == "negative vector":
        v = np.exp(rng.uniform(-1, 2, d))
        v[rng.integers(d)] *= -1
        return v, "vector"
    if kind == "negative scalar":
        return -0.3, "scalar"
    if kind == "zero":
        return np.zeros((d, d)), "matrix"
    if kind == "singular":
        w = np.exp(rng.uniform(-1, 2, d))
        w[rng.integers(d)] = 0.0
        return np.diag(w), "matrix"
    if kind == "indefinite":                  # positive diagonal, one negative eigenvalue (or two)
        q, _ = np.linalg.qr(rng.standard_normal((d, d)))
        w = np.exp(rng.uniform(-1, 2, d))
        w[:2 if rng.random() < 0.4 else 1] *= -1
        a = (q * w) @ q.T
        return 0.5 * (a + a.T), "matrix"
    if kind == "shape":
        s = [(d - 1, d - 1), (d + 1, d + 1), (d, d + 1), (1, 1), (d, 1), (1, d), (2 * d, 2 * d), (d + 1, d)][rng.integers(8)]
        return np.eye(*s) * 2.0, "matrix"
    if kind.startswith("vector of "):
        return 1.0 + np.arange(d + int(kind[10:]) if kind[10] in "+-" else int(kind[10:])), "vector"
    if kind.startswith("matrix "):
        r, c = (d + int(v) if v[0] in "+-" else int(v) for v in kind[7:].split("x"))
        return np.full((r, c), 0.1) + np.eye(r, c) * 2.0, "matrix"
    raise KeyError(kind)


def drift(rng, model, kind, prev=None):
    if kind.startswith("as "):
        v = rng.integers(1, 30, 3)
        return {"whole": v, "list": (v * 0.5).tolist(), "columns": np.repeat(v * 0.5, 2)[::2]}[kind[3:]] if model == "L63" else int(v[0])
    if kind in ("other", "own"):
        return None
    if kind.startswith("forcing "):
        return rng.uniform(1, 9, int(kind[8:]))
    if kind in ("near", "same", "zero", "tiny", "one entry"):
        v = np.array(prev, dtype=float)
        if kind == "one entry":
            v[rng.integers(v.size)] *= 1 + 1e-7
        else:
            v = v * dict(near=1 + 1e-7, same=1.0, tiny=1e-9).get(kind, 0.0)
        return v if model == "L63" else float(v[0])
    if model == "L63":
        return rng.uniform(1, 30, 3)
    v = float(rng.uniform(0.1, 9))
    if kind == "bad" and model == "OU":
        return 0.0 if rng.random() < 0.5 else -v
    return -v if kind == "bad" and model == "DW" else v


def report(mod, d):
    s, i, t = (np.asarray(v, dtype=float) for v in (mod.sigma, mod.inverse_sigma, mod.theta))
    return dict(sigma=enc(np.atleast_2d(s)), inverse=enc(np.atleast_2d(i)), theta=enc(np.atleast_1d(t)),
                shapes=[shape(s), shape(i)])


def play(rec, rng, model, history, d, name=None, objects=2, share=False):
    """share: objects are made from the very values that made object 1, and
    "other" updates an object with what another one reports."""
    objs, events, held, keep, first = {}, [], [], [], {}
    for e in history:
        op, o, kind = e["op"], e["o"], e["kind"]
        ev = dict(op=op, o=o, noise=dict(form="scalar", v="1"), theta=["1"])
        if op != "theta":
            prev = np.atleast_2d(objs[o].sigma) if o in objs else None
            if kind == "own":            # changed in place, and set again
                val, form = objs[o].sigma, "scalar" if model in SINGLE else "matrix"
                if model not in SINGLE:
                    val *= 1.7
            elif kind == "other":
                val, form = objs[3 - o].sigma, "scalar" if model in SINGLE else "matrix"
            else:
                val, form = first["noise"] if share and op == "new" and "noise" in first else noise(rng, model, d, kind, prev)
            if op == "sigma" and form != "matrix" and model not in SINGLE:
                val = np.asarray(val)
            ev["noise"] = dict(form=form, v=enc(val))
        if op != "sigma":
            prev = np.atleast_1d(objs[o].theta) if o in objs else None
            th = drift(rng, model, kind if op == "theta" else e.get("theta", "good"), prev)
            if share and op == "new":
                th = first.setdefault("theta", th)
                first.setdefault("noise", (val, form))
            if op == "theta" and kind == "other":
                th = objs[3 - o].theta
            if op == "theta" and kind == "own":
                th = objs[o].theta
                if model == "L63":
                    th *= 1.1
            ev["theta"] = enc(np.atleast_1d(th))
        if kind == "own":
            keep[:] = [frozen(a)[0] for a in held]
        for a in [val] * (op != "theta") + [th] * (op != "sigma"):
            held.append(a)
            keep.append(frozen(a)[0])
        if op == "new":
            args = (val, th, 1) + ((d,) if model == "L96" else ())
            made, ev["outcome"], ev["exc"] = attempt(CLS[model], *args)
            if made is not None:
                objs[o] = made
        else:
            _, ev["outcome"], ev["exc"] = attempt(setattr, objs[o], op, val if op == "sigma" else th)
        ev["kept"] = bool(same(keep, held))       # every value that was passed, by now
        ev["report"] = [report(objs[i + 1], d) if i + 1 in objs else dict(sigma=[], inverse=[], theta=[], shapes=[])
                        for i in range(objects)]
        events.append(ev)
    rec.trace(name or f"{model} {' '.join(e['op'] + str(e['o']) + ':' + e['kind'] for e in history)}", model=model, dim=d,
              objects=objects, events=events, want_shapes=[[], []] if model in SINGLE else [[d, d], [d, d]])


def run(rec, rng, tier):
    with open(os.path.join(os.environ["BEHAVIOURS"], "ParamHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    order = rng.permutation(len(hists))
    share = {"DW": 300, "OU": 400, "L63": 500, "L96": 60} if tier == "quick" else {"DW": 2000, "OU": 3000, "L63": 6000, "L96": 600}
    pos = 0
    for model, n in share.items():
        for i in order[pos:pos + n]:
            play(rec, rng, model, hists[i], {"L63": 3, "L96": 10}.get(model, 1))
        pos += n
    # Small changes, and values of unusual size.
    for model in ("DW", "OU", "L63", "L96"):
        new = dict(op="new", o=1, kind="full")
        for first in ("near", "nearer", "one entry", "same", "tiny", "huge"):
            for second in ("near", "one entry", "same", "full", "tiny negative"):
                h = [new] + [dict(op="sigma", o=1, kind=k) for k in (first, second, "near", "full")]
                play(rec, rng, model, h, {"L63": 3, "L96": 10}.get(model, 1), f"{model} small change {first} {second}", objects=1)
        for first in ("near", "same", "tiny", "one entry") + (("zero",) if model == "DW" else ()):
            h = [new] + [dict(op="theta", o=1, kind=k) for k in (first, "near", "good", "same")] + [dict(op="sigma", o=1, kind="near")]
            play(rec, rng, model, h, {"L63": 3, "L96": 10}.get(model, 1), f"{model} small drift change {first}", objects=1)
    # Values of unusual size from the start.
    for model in ("DW", "OU", "L63", "L96"):
        for kind in ("tiny", "huge", "tiny negative"):
            for r in range(2):
                h = [dict(op="new", o=1, kind="full"), dict(op="new", o=1, kind=kind), dict(op="sigma", o=1, kind="near"),
                     dict(op="sigma", o=1, kind=kind), dict(op="theta", o=1, kind="good"), dict(op="sigma", o=1, kind="full")]
                play(rec, rng, model, h, {"L63": 3, "L96": (10, 13)[r]}.get(model, 1), f"{model} made {kind} {r}", objects=1)
    # Objects made from the same values, or from each other's.
    for model in ("DW", "OU", "L63", "L96"):
        d = {"L63": 3, "L96": 10}.get(model, 1)
        for kind in ("full", "vector", "scalar", "integers") if model not in SINGLE else ("scalar",):
            for r in range(2 if tier == "quick" else 10):
                two = [dict(op="new", o=1, kind=kind), dict(op="new", o=2, kind=kind)]
                ups = [dict(op=op, o=o, kind=k) for op, ks in (("sigma", ("full", "near", "diagonal")), ("theta", ("good", "near"))) for o in (1, 2) for k in ks]
                if model in SINGLE:
                    ups = [u for u in ups if u["kind"] != "diagonal"]
                ups += [dict(op="sigma", o=o, kind="other") for o in (1, 2)] * 2 + [dict(op="theta", o=o, kind="other") for o in (1, 2)]
                h = two + [ups[i] for i in rng.permutation(len(ups))] + two[1:] + [ups[i] for i in rng.permutation(len(ups))]
                play(rec, rng, model, h, d, f"{model} same values {kind} {r}", share=True)
    # Reported values changed in place and set again.
    for model in ("DW", "OU", "L63", "L96"):
        for kind in ("full", "vector") if model not in SINGLE else ("scalar",):
            h = [dict(op="new", o=1, kind=kind)] + [dict(op=op, o=1, kind=k) for op, k in (("sigma", "own"), ("sigma", "own"), ("theta", "own"), ("sigma", "full"),
                                                                                             ("sigma", "own"), ("theta", "good"), ("theta", "own"))]
            play(rec, rng, model, h, {"L63": 3, "L96": 10}.get(model, 1), f"{model} own {kind}", objects=1)
    # Whole numbers, lists, and column-major arrays.
    for model in ("DW", "OU", "L63", "L96"):
        d = {"L63": 3, "L96": 10}.get(model, 1)
        for form in ("whole", "list", "columns") if model not in SINGLE else ("whole",):
            h = [dict(op="new", o=1, kind="as " + form), dict(op="sigma", o=1, kind="full"), dict(op="theta", o=1, kind="as " + form),
                 dict(op="sigma", o=1, kind="as " + form if form != "list" else "near"), dict(op="sigma", o=1, kind="near")]
            play(rec, rng, model, h, d, f"{model} values {form}", objects=1)
            play(rec, rng, model, [dict(op="new", o=1, kind="as vector " + form)] + h[1:], d, f"{model} vector {form}", objects=1)
    # A forcing of its own at every site.
    for d in (10, 12, 40):
        h = [dict(op="new", o=1, kind="vector", theta=f"forcing {d}"), dict(op="theta", o=1, kind="good"), dict(op="theta", o=1, kind=f"forcing {d}"),
             dict(op="sigma", o=1, kind="full"), dict(op="new", o=2, kind="scalar", theta="good"), dict(op="theta", o=2, kind=f"forcing {d}"),
             dict(op="theta", o=2, kind=f"forcing {d}"), dict(op="sigma", o=2, kind="other"), dict(op="theta", o=1, kind="other")]
        play(rec, rng, "L96", h, d, f"L96 D={d} forcing of sites")
    # The kinds that the design leaves out, each between two valid updates.
    for model in ("L63", "L96"):
        for d in ([3] if model == "L63" else [10, 12]):
            for kind in ("negative scalar", "negative vector", "zero", "singular", "vector of -1", "vector of +1", "vector of 1",
                         "vector of 2", "vector of 0", "matrix 1x1", "matrix +0x1", "matrix 1x+0", "matrix +0x+1", "matrix +1x+0",
                         "matrix +1x+1", "matrix -1x-1", "shape", "integers", "indefinite"):
                for r in range(2 if tier == "quick" else 8):
                    h = [dict(op="new", o=1, kind=kind), dict(op="new", o=1, kind="vector"), dict(op="sigma", o=1, kind="full"),
                         dict(op="sigma", o=1, kind=kind), dict(op="new", o=1, kind=kind), dict(op="theta", o=1, kind="good")]
                    play(rec, rng, model, h, d, f"{model} D={d} {kind} {r}", objects=1)
        for kind in ("scalar", "vector"):
            h = [dict(op="new", o=1, kind="full"), dict(op="sigma", o=1, kind=kind), dict(op="sigma", o=1, kind="diagonal")]
            play(rec, rng, model, h, 3 if model == "L63" else 10, f"{model} update by {kind}", objects=1)
    for d in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14):
        play(rec, rng, "L96", [dict(op="new", o=1, kind="scalar")], d, f"L96 size {d}", objects=1)
    for th in ("good", "bad"):
        for kind in ("scalar", "negative"):
            for model in SINGLE:
                play(rec, rng, model, [dict(op="new", o=1, kind=kind, theta=th), dict(op="new", o=1, kind="scalar"),
                                       dict(op="theta", o=1, kind=th), dict(op="sigma", o=1, kind=kind)], 1,
                     f"{model} construct {kind} theta {th}", objects=1)
