"""Saving and loading (C19)."""
import contextlib, hashlib, io, json, shutil, tempfile
from pathlib import Path
import h5py
import numpy as np
from rec import *
from src.var_bayes.simulation import Simulation, load
from drivers.c18 import config

NAMES = [["a b", " a b ", "c"], ["Sim 1 x", "Sim_1_x", "Sim 1"], ["  two  inner", "two  inner", "two inner"],
         [None, "", "ID None"], [7, "7 ", "77"], ["r.h5", " r.h5", "r"], ["Größe 1", "Größe_1", "G"], ["run-[1] {x}", " run-[1] {x}", "run"]]


def canon(data):
    """Names, shapes and exact values of a collection of results."""
    out = {}
    for key in sorted(data):
        a = np.asarray(data[key])
        a = np.atleast_1d(a)
        if a.size > 5000:                # a digest of many values
            out[key] = dict(shape=shape(a), values=[hashlib.sha256(np.asarray(a, dtype=float).tobytes()).hexdigest()])
        else:
            out[key] = dict(shape=shape(a), values=[num(v) for v in a.ravel()])
    return out


class Table:
    def __init__(self):
        self.rows, self.index = [], {}

    def add(self, row):
        s = json.dumps(row, sort_keys=True)
        if s not in self.index:
            self.rows.append(row)
            self.index[s] = len(self.rows)
        return self.index[s]


def listing(folder, table):
    out = []
    for p in sorted(folder.iterdir()):
        try:
            with h5py.File(p, "r") as f:
                row = canon({k: f[k][()] for k in f})
        except Exception:  # noqa: BLE001
            row = {"bytes": dict(shape=[], values=[p.read_bytes().hex() if p.is_file() else "?"])}
        out.append(dict(file=list(p.name), content=table.add(row)))
    return out


def synthetic(rng, like):
    """Results of the same names and shapes with awkward numbers."""
    odd = [-0.0, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, -1e-300, 123456789.123456789, float(np.nextafter(1.0, 2.0)),
           float("inf"), float("-inf"), float("nan")]
    out = {}
    for k, v in like.items():
        a = rng.standard_normal(np.shape(v)) if np.shape(v) else rng.standard_normal()
        if np.shape(v):
            a.ravel()[rng.integers(a.size)] = odd[rng.integers(len(odd))]
            out[k] = a
        else:
            if rng.random() < 0.4:
                a = odd[rng.integers(len(odd))]
            out[k] = float(a) if rng.random() < 0.5 else np.float64(a)
    how = rng.random()
    if how < 0.3:                        # fewer results, or other ones
        for k in [k for k in out if rng.random() < 0.4][:len(out) - 1]:
            del out[k]
    elif how < 0.6:
        out.update({"extra": rng.standard_normal(3), "Extra": rng.standard_normal((2, 2)), "steps": int(rng.integers(100))})
    for k in out:                        # kept differently
        if np.ndim(out[k]) >= 2 and rng.random() < 0.3:
            out[k] = np.asfortranarray(out[k]) if rng.random() < 0.5 else np.repeat(out[k], 2, axis=0)[::2]
        elif np.ndim(out[k]) and rng.random() < 0.15:
            out[k] = out[k][::-1]
        elif np.ndim(out[k]) and rng.random() < 0.1:
            out[k] = np.arange(out[k].size).reshape(out[k].shape) - 3
    return out


def huge(rng):
    """Results of a large problem."""
    sim = Simulation("pool")
    sim.output = dict(at=rng.standard_normal((400, 30, 30)), bt=rng.standard_normal((400, 30)), st=rng.standard_normal((400, 30, 30)), fx=float(rng.standard_normal()),
                      mt=np.repeat(rng.standard_normal((1, 30)), 70000, axis=0), zeros=np.zeros(70000))
    return [dict(sim=sim)]


def play(rec, rng, title, history, names, pool, real=False):
    table, events = Table(), []
    folder = Path(tempfile.mkdtemp(prefix="dir-", dir=os.getcwd()))
    back = os.getcwd()
    os.chdir(folder)
    try:
        (folder / "notes.txt").write_text("keep me")
        (folder / "other_b.h5.bak").write_bytes(b"\x89HDF keep me as well")
        sims = [Simulation(n) for n in names]
        dir0 = listing(folder, table)
        shown = ["ID_None" if not n else str(n) for n in names]
        for e in history:
            op, x = e["op"], e["x"]
            ev = dict(op=op, s=0, file=[], got=0)
            with contextlib.redirect_stdout(io.StringIO()):
                if op in ("setup", "run"):
                    sim = sims[x - 1]
                    src = pool[rng.integers(len(pool))]

                    def go():
                        if real:
                            if op == "setup" or not sim.m_data:
                                sim.setup(copy.deepcopy(src["params"]), None)
                            if op == "run":
                                sim.run()
                        else:
                            done = copy.deepcopy(src["sim"])
                            sim.m_data = done.m_data
                            if op == "run":
                                sim.output = done.output if rng.random() < 0.5 else synthetic(rng, done.output)
                    ev["s"] = x
                    _, ev["outcome"], ev["exc"] = attempt(go)
                elif op == "save":
                    ev["s"] = x
                    _, ev["outcome"], ev["exc"] = attempt(sims[x - 1].save)
                elif x == 0:
                    _, ev["outcome"], ev["exc"] = attempt(load) if rng.random() < 0.5 else attempt(load, None)
                else:
                    name = shown[0 if x == 1 else 2].strip(" ").replace(" ", "_") + ".h5"
                    ev["file"] = list(name)
                    got, ev["outcome"], ev["exc"] = attempt(load, name if rng.random() < 0.5 else Path(name))
                    if got is not None:
                        ev["got"] = table.add(canon(got))
            ev["mem"] = [table.add(canon(s.output)) if s.output else 0 for s in sims]
            ev["dir"] = listing(folder, table)
            events.append(ev)
    finally:
        os.chdir(back)
        shutil.rmtree(folder)
    rec.trace(title, names=[list(n) for n in shown], dir0=dir0, events=events, contents=table.rows)


def run(rec, rng, tier):
    pool = []
    for model, scheme, steps, dt in (("DW", "Euler", 5, 0.05), ("OU", "RK4", 4, 0.1), ("L63", "Heun", 4, 0.01)):
        params = config(rng, model, scheme, steps, dt, 2.1 / (steps * dt))
        sim = Simulation("pool")
        with contextlib.redirect_stdout(io.StringIO()):
            sim.setup(copy.deepcopy(params), None)
            sim.run()
        pool.append(dict(params=params, sim=sim))
    with open(os.path.join(os.environ["BEHAVIOURS"], "SimHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    order = rng.permutation(len(hists))
    n, m = (500, 25) if tier == "quick" else (4000, 200)
    for j, i in enumerate(order[:n + m]):
        h = hists[i]
        names = NAMES[j % len(NAMES)]
        play(rec, rng, f"{names!r} " + " ".join(e["op"] + str(e["x"]) for e in h) + (" real" if j >= n else ""), h, names, pool, j >= n)
    for j in range(2 if tier == "quick" else 6):
        h = [dict(op="run", x=1), dict(op="save", x=1), dict(op="load", x=1), dict(op="run", x=3), dict(op="save", x=3), dict(op="load", x=1),
             dict(op="load", x=2), dict(op="save", x=1), dict(op="load", x=1)]
        play(rec, rng, f"large results {j}", h, NAMES[j], huge(rng))
    # long sessions
    for j in range(8 if tier == "quick" else 60):
        h = [dict(op="run", x=1), dict(op="save", x=1), dict(op="load", x=1), dict(op="save", x=1), dict(op="load", x=1),
             dict(op="run", x=3), dict(op="save", x=2), dict(op="save", x=3), dict(op="load", x=2), dict(op="load", x=1),
             dict(op="run", x=1), dict(op="load", x=1), dict(op="save", x=1), dict(op="load", x=1), dict(op="load", x=0),
             dict(op="run", x=2), dict(op="save", x=2), dict(op="load", x=1), dict(op="save", x=1), dict(op="load", x=1)]
        play(rec, rng, f"{NAMES[j % len(NAMES)]!r} session {j}", h, NAMES[j % len(NAMES)], pool, j % 4 == 0)
