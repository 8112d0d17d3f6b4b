"""Simulations are functions of their configuration (C25)."""
import contextlib, io, json, random, runpy, shutil, tempfile
import numpy as np
from rec import *
from src.var_bayes.simulation import Simulation
from drivers.c18 import config
from drivers.c16 import global_state
from apart import apart, compiled

MAIN = os.path.join(REPO, "vgpa_main.py")
RESULTS = ("at", "bt", "fx", "m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")


class Intern:
    """Numbers for collections of named arrays; contents that agree to nine
    digits get the same one."""

    def __init__(self):
        self.known = []

    def __call__(self, d):
        if not d:
            return 0
        d = {k: np.atleast_1d(np.asarray(v, dtype=float)) for k, v in d.items()}
        for i, w in enumerate(self.known):
            if w.keys() == d.keys() and all(w[k].shape == d[k].shape and
                    np.allclose(w[k], d[k], rtol=1e-9, atol=1e-9 * np.max(np.abs(w[k]), initial=0.0), equal_nan=True) for k in d):
                return i + 1
        self.known.append(d)
        return len(self.known)


def data_of(sim):
    m = sim.m_data
    if "model" not in m:
        return {}
    return dict(path=m["model"].sample_path, window=m["model"].time_window, obs_t=m["obs_t"], obs_y=m["obs_y"],
                obs_noise=m["obs_noise"], m0=m["m0"], s0=m["s0"], mu0=m["mu0"], tau0=m["tau0"],
                sigma=m["model"].sigma, theta=m["model"].theta)


def results_of(sim):
    return {k: sim.output[k] for k in sim.output}


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def alone(params):
    def go():
        sim = Simulation("alone")
        sim.setup(copy.deepcopy(params), None)
        d = copy.deepcopy(data_of(sim))
        sim.run()
        return d, results_of(sim)
    return lambda: quiet(go)


def program(params, folder):
    """What the program writes for this configuration."""
    def go():
        import h5py
        work = tempfile.mkdtemp(dir=folder)
        with open(os.path.join(work, "p.json"), "w") as f:
            json.dump(params, f)
        os.chdir(work)
        old, sys.argv = sys.argv, ["vgpa_main.py", "--params", "p.json"]
        try:
            runpy.run_path(MAIN, run_name="__main__")
        except SystemExit:
            pass
        finally:
            sys.argv = old
        name, = [n for n in os.listdir(work) if n != "p.json"]
        with h5py.File(name, "r") as f:
            return {k: np.asarray(f[k][()]) for k in f}
    return lambda: quiet(go)


def variant(rng, params, how):
    """The same configuration in another form."""
    if how == "again":
        return params
    p = copy.deepcopy(params)
    if how == "order":
        keys = list(p)
        rng.shuffle(keys)
        p = {k: p[k] for k in keys}
        p["Comment"] = {"anything": [1, 2, None]}
    if how == "letters":
        p["Model"] = "".join(c.lower() if rng.random() < 0.5 else c.upper() for c in p["Model"])
        p["Ode-method"] = "".join(c.lower() if rng.random() < 0.5 else c.upper() for c in p["Ode-method"])
    if how == "name":
        p["Output_Name"] = "Another name"
    if how == "arrays":
        for part, key in (("Drift", "theta"), ("Noise", "sys"), ("Noise", "obs"), ("Prior", "mu0"), ("Prior", "tau0")):
            if isinstance(p[part][key], list):
                p[part][key] = np.array(p[part][key], dtype=float)
    if how == "read":
        p = json.loads(json.dumps(p))
    return p


def play(rec, rng, name, history, configs, ids, ref, objects=2):
    events = []
    folder = tempfile.mkdtemp(prefix="dir-", dir=os.getcwd())
    back = os.getcwd()
    os.chdir(folder)
    try:
        sims = [Simulation("Sim %d" % i) for i in range(objects)]
        held, keep = [], []
        for e in history:
            before = global_state()
            ev = dict(op=e["op"], s=e["s"], c=e["c"], outcome="ok", exc="")
            if e["op"] == "global":
                np.random.seed(int(rng.integers(3)))
                np.random.standard_normal(2)
                random.random()
            else:
                sim = sims[e["s"] - 1]
                if e["op"] == "setup":
                    p = variant(rng, configs[e["c"] - 1], str(rng.choice(["again", "order", "letters", "name", "read", "arrays"])))
                    held.append(p)
                    keep.append(copy.deepcopy(p))
                    call = lambda: sim.setup(p, None)
                else:
                    call = sim.run if e["op"] == "run" else sim.save
                _, ev["outcome"], ev["exc"] = attempt(quiet, call)
            ev["kept"] = bool(same(keep, held))
            ev["global_kept"] = e["op"] == "global" or before == global_state()
            ev["data"] = [ids(data_of(s)) if ev["outcome"] == "ok" else 0 for s in sims]
            ev["res"] = [ids(results_of(s)) if ev["outcome"] == "ok" else 0 for s in sims]
            events.append(ev)
    finally:
        os.chdir(back)
        shutil.rmtree(folder)
    rec.trace(name, objects=objects, events=events, **ref)


def run(rec, rng, tier):
    quick = tier == "quick"
    with open(os.path.join(os.environ["BEHAVIOURS"], "ReproHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    worlds = []

    def world(title, a, b, count):
        worlds.append((title, [a, b], count if quick else count * 10))

    dw = config(rng, "DW", "Heun", 6, 0.05, 8, 0.0)
    world("seeds", dw, dict(copy.deepcopy(dw), **{"Random-Seed": dw["Random-Seed"] + 1}), 40)
    ou = config(rng, "OU", "RK4", 5, 0.1, 5, -0.5)
    world("models", dict(copy.deepcopy(dw), **{"Random-Seed": 0}), dict(ou, **{"Random-Seed": 0}), 40)
    steps = copy.deepcopy(ou)
    steps["Time-window"] = {"t0": -0.5, "tf": 0.0, "dt": 0.0625}
    world("windows", ou, steps, 25)
    noisy = copy.deepcopy(dw)
    noisy["Noise"] = {"sys": 0.4, "obs": 0.09}
    noisy["Prior"] = {"mu0": 1.0, "tau0": 0.25}
    noisy["Drift"] = {"theta": 1.2}
    whole = copy.deepcopy(dw)
    whole["Observations"]["density"], whole["Drift"]["theta"], whole["Prior"] = 8.0, 1, {"mu0": 0, "tau0": 1}
    whole["Noise"]["obs"], whole["Random-Seed"] = 1, 2
    world("whole numbers", whole, dict(copy.deepcopy(ou), **{"Noise": {"sys": 2, "obs": 1}, "Drift": {"theta": 1}}), 12)
    world("parameters", dw, noisy, 25)
    l63 = config(rng, "L63", "Euler", 4, 0.01, 50)
    vec = copy.deepcopy(l63)
    vec["Noise"] = {"sys": [4.0, 9.0, 2.0], "obs": [0.5, 1.0, 0.25]}
    vec["Prior"] = {"mu0": [0.5, -0.5, 20.0], "tau0": [0.8, 1.0, 0.5]}
    world("L63", l63, vec, 12)
    mat = copy.deepcopy(l63)
    mat["Noise"] = {"sys": [[4.0, 0.0, 0.0], [0.0, 9.0, 0.0], [0.0, 0.0, 2.0]], "obs": [[0.5, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.25]]}
    matrix = copy.deepcopy(mat)
    matrix["Noise"] = {"sys": [[4.0, 1.0, 0.0], [1.0, 9.0, 0.5], [0.0, 0.5, 2.5]], "obs": [[0.6, 0.0, 0.0], [0.0, 0.9, 0.0], [0.0, 0.0, 0.25]]}
    world("L63 matrices", mat, matrix, 10)
    world("L63 and DW", l63, dict(dw, **{"Ode-method": "RK2"}), 10)
    if not quick:
        world("L96", config(rng, "L96", "Euler", 2, 0.01, 70), config(rng, "L63", "RK2", 4, 0.01, 50), 1)
    scratch = tempfile.mkdtemp(prefix="dir-", dir=os.getcwd())
    try:
        compiled([alone(l63)] + ([] if quick else [alone(worlds[-1][1][0])]))
        refs = apart([t(c) for _, cs, _ in worlds for c in cs for t in (alone, lambda c: program(c, scratch))])
    finally:
        shutil.rmtree(scratch)
    ids = Intern()
    for i, (title, configs, count) in enumerate(worlds):
        mine = refs[4 * i:4 * i + 4]
        wrong = [r for r in mine if r[1] != "ok"]
        if wrong:
            rec.trace(f"{title} alone", objects=1, data=[], res=[], file=[], events=[dict(op="global", s=0, c=0, outcome="error",
                      exc=wrong[0][2], kept=True, global_kept=True, data=[0], res=[0])])
            continue
        ref = dict(data=[ids(r[0][0]) for r in mine[::2]], res=[ids(r[0][1]) for r in mine[::2]], file=[ids(r[0]) for r in mine[1::2]])
        pick = [hists[j] for j in rng.permutation(len(hists))[:count]]
        for h in pick:
            play(rec, rng, title + " " + " ".join(e["op"] + (f"{e['s']}" if e["s"] else "") + (f":{e['c']}" if e["c"] else "") for e in h),
                 h, configs, ids, ref)
        play(rec, rng, title + " long", sum(pick[:6], []), configs, ids, ref)
