"""The command line program (C20)."""
import hashlib, json, runpy, shutil, subprocess, sys, tempfile, time
import h5py
import numpy as np
from rec import *
from drivers.c18 import config, quietly, start_value, Simulation, PATHS

MAIN = os.path.join(REPO, "vgpa_main.py")
DROP = object()
SECTIONS = ("Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior", "Random-Seed")
SMALL = {"DW": (10, 0.05, 6), "OU": (12, 0.05, 4), "L63": (8, 0.01, 30), "L96": (4, 0.01, 60)}


def base(rng, model, scheme, name="Sim A"):
    return config(rng, model, scheme, *SMALL[model.upper()], Output_Name=name, Info="anything else is ignored")


def put(params, path, value):
    x = params
    for key in path[:-1]:
        x = x[key]
    if value is DROP:
        del x[path[-1]]
    else:
        x[path[-1]] = value


SETUP = [(("Model",), ["DoubleWell", "", None, 63, "L9", "DW ", "L63x", "OU2", "DWs", "xOU", "DW OU", "L-63", ["DW"]]),
         (("Noise", "sys"), [0, -0.5, None, "0.8", DROP]),
         (("Drift", "theta"), [None, "1.0", DROP]),
         (("Random-Seed",), [-1, "seed", 2.5]),
         (("Time-window", "t0"), [None, "0", DROP]), (("Time-window", "tf"), [None, "1", DROP, -3.0, 0.0]),
         (("Time-window", "dt"), [None, "0.01", DROP, 0, -0.01]),
         (("Observations", "density"), [None, "5", DROP, 0, -2, 1e5]),
         (("Time-window",), [None, {}, []]), (("Noise",), [None, {}, 0.5]), (("Drift",), [None, {}, 1.0])]
RUN = [(("Ode-method",), ["RK3", "", None, 4, "euler ", "Euler-Maruyama", "RK44", "eul", "Heun2", "RK-2", " rk2"]),
       (("Prior", "tau0"), [0, -0.5, None, "1", DROP]), (("Prior", "mu0"), [None, "1", DROP]),
       (("Noise", "obs"), [0, -0.1, None, "0.1", DROP]), (("Prior",), [None, {}, 1.0]), (("Observations",), [None, {}])]
READ = ["no option", "no file", "malformed", "empty", "array", "number"] + ["without " + s for s in SECTIONS]


def value(x):
    if x is DROP:
        return dict(t="absent", v="0")
    if x is None:
        return dict(t="null", v="0")
    if isinstance(x, bool):
        return dict(t="bool", v="0")
    if isinstance(x, int):
        return dict(t="int", v=str(x))
    if isinstance(x, float):
        return dict(t="num", v=repr(x))
    if isinstance(x, str):
        return dict(t="str", v=list(x))
    if isinstance(x, list):
        if x and all(isinstance(v, bool) for v in x):
            return dict(t="mask", v=[int(v) for v in x])
        return dict(t="list", v=[value(v) for v in x])
    return dict(t="object", v="0")


def get(params, *path):
    x = params
    for key in path:
        if not isinstance(x, dict) or key not in x:
            return DROP
        x = x[key]
    return x


def describe(params, file="object"):
    g = lambda *p: value(get(params, *p))
    return dict(file=file, sections=[s for s in SECTIONS if isinstance(params, dict) and s in params], out=g("Output_Name"), Model=g("Model"),
                Method=g("Ode-method"), t0=g("Time-window", "t0"), tf=g("Time-window", "tf"), dt=g("Time-window", "dt"),
                sys=g("Noise", "sys"), obs=g("Noise", "obs"), density=g("Observations", "density"),
                oper=g("Observations", "operator"), theta=g("Drift", "theta"), mu0=g("Prior", "mu0"), tau0=g("Prior", "tau0"),
                seed=g("Random-Seed"))


NO_RESULT = dict(n=0, readable=False, finite=False, names=[], shapes=[], m0=[], fx="0", want_m0=[], want_fx="0")


def result(folder, new, params):
    """What an accepted call wrote."""
    r = copy.deepcopy(NO_RESULT)
    if len(new) != 1:
        return r
    try:
        with h5py.File(os.path.join(folder, new[0]), "r") as f:
            data = {k: np.asarray(f[k][()], dtype=float) for k in f}
        r.update(names=sorted(data), finite=bool(all(np.isfinite(v).all() for v in data.values())), n=int(data["at"].shape[0]),
                 shapes=[shape(data[k]) for k in PATHS[:4]], m0=enc(data["m0"].ravel()), fx=num(data["fx"].ravel()[0]), readable=True)
        sim = Simulation("want")
        with_out, _, _ = quietly(lambda: (sim.setup(copy.deepcopy(params), None), start_value(copy.deepcopy(params)))[1])
        r.update(want_m0=enc(np.asarray(sim.m_data["m0"], dtype=float).ravel()), want_fx=num(with_out))
    except Exception as e:  # noqa: BLE001
        r.update(readable=False, exc=type(e).__name__)
    return r


def files(folder):
    out = []
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out.append(dict(file=list(os.path.relpath(p, folder)), content=hashlib.sha256(f.read()).hexdigest()))
    return sorted(out, key=lambda x: x["file"])


class Call:
    """One call: what the parameter file says (params or raw text)."""

    def __init__(self, params, file="object", raw=None, data=None):
        self.params, self.file, self.raw, self.data = params, file, raw, data

    def argv(self, inputs, j):
        if self.file == "absent":
            return [] if self.raw is None else self.raw
        path = os.path.join(inputs, "p%d.json" % j)
        if self.file != "missing":
            with open(path, "w") as f:
                f.write(self.raw if self.raw is not None else json.dumps(self.params))
        args = ["--params", path]
        if self.data is not None:
            dpath = os.path.join(inputs, "d%d.csv" % j)
            with open(dpath, "w") as f:
                f.write(self.data)
            args += ["--data", dpath]
        return args


class Job:
    """A history of calls in one directory; one child process at a time."""

    def __init__(self, name, calls, cli=False, folders=(), stray=()):
        self.name, self.calls, self.cli, self.done, self.pid, self.records = name, calls, cli, 0, None, []
        self.home = tempfile.mkdtemp(prefix="calls-", dir=os.getcwd())
        self.dir, self.inputs = os.path.join(self.home, "run"), os.path.join(self.home, "in")
        os.mkdir(self.dir)
        os.mkdir(self.inputs)
        with open(os.path.join(self.dir, "notes.txt"), "w") as f:
            f.write("keep me")
        self.folders = [list(n) for n in folders]
        for n in folders:                           # what stands in the way of a result file
            os.makedirs(os.path.join(self.dir, n))
        for n in stray:
            with open(os.path.join(self.dir, n), "w") as f:
                f.write("something else")
        self.dir0 = self.last = files(self.dir)

    def start(self):
        args = self.calls[self.done].argv(self.inputs, self.done)
        self.began = time.time()
        if self.cli:
            self.proc = subprocess.Popen([sys.executable, MAIN, *args], cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                         stdin=subprocess.DEVNULL)
            self.pid = self.proc.pid
            return
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid:
            return
        status = 70
        try:
            os.chdir(self.dir)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            sys.stdout, sys.stderr = open(os.devnull, "w"), open(os.devnull, "w")
            sys.argv = [MAIN, *args]
            runpy.run_path(MAIN, run_name="__main__")
            status = 0
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:  # noqa: BLE001 - a traceback: status one
            status = 1
        os._exit(status & 255)

    def poll(self):
        """True when the history is complete."""
        if self.cli:
            status = self.proc.poll()
            if status is None:
                if time.time() - self.began > 300:
                    self.proc.kill()
                return False
        else:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if not pid:
                if time.time() - self.began > 300:
                    os.kill(self.pid, 9)
                return False
            status = os.waitstatus_to_exitcode(st)
        call = self.calls[self.done]
        now = files(self.dir)
        new = ["".join(f["file"]) for f in now if f not in self.last]
        if not new and status == 0:                # a second, identical result
            new = ["".join(f["file"]) for f in now if "".join(f["file"]).endswith(".h5")][:1]
        file = "absent" if call.file == "missing" else call.file
        self.records.append(dict(config=describe(call.params if file == "object" else None, file), data=call.data is not None, status=int(status), dir=now,
                                 result=result(self.dir, new, call.params) if status == 0 else NO_RESULT))
        self.last = now
        self.done += 1
        if self.done < len(self.calls):
            self.start()
            return False
        shutil.rmtree(self.home)
        return True


def execute(rec, jobs, width=7):
    waiting, active, finished = list(jobs), [], {}
    while waiting or active:
        while waiting and len(active) < width:
            j = waiting.pop(0)
            j.start()
            active.append(j)
        active = [j for j in active if not j.poll()]
        time.sleep(0.005)
    for j in jobs:
        rec.trace(j.name, dir0=j.dir0, folders=j.folders, calls=j.records)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def fault(rng, params, stage):
    """Adds a fault; returns (description, file, raw)."""
    if stage == "read":
        kind = pick(rng, READ)
        if kind.startswith("without "):
            params.pop(kind[8:], None)
            return kind, "object", None
        return (kind, *{"no option": ("absent", None), "no file": ("missing", None), "malformed": ("malformed", json.dumps(params)[:-1]),
                        "empty": ("malformed", ""), "array": ("other", json.dumps([params])), "number": ("other", "17")}[kind])
    path, vals = pick(rng, SETUP if stage == "setup" else RUN)
    v = pick(rng, vals)
    try:
        put(params, path, v)
    except (KeyError, TypeError):
        pass                                        # its section is already gone
    return f"{'.'.join(path)}={'absent' if v is DROP else repr(v)}", "object", None


def run(rec, rng, tier):
    quick = tier == "quick"
    import pandas  # noqa: F401 - loaded once, before the children start
    for model in ("DW", "OU", "L63", "L96"):        # compile before the children start
        quietly(lambda: start_value(base(rng, model, "Euler")))
    jobs = []
    # every single departure, for every model
    for model in ("DW", "OU", "L63") if quick else ("DW", "OU", "L63", "L96"):
        for path, vals in SETUP + RUN:
            for v in vals:
                p = base(rng, model, pick(rng, ("Euler", "Heun", "RK2", "RK4")))
                put(p, path, v)
                jobs.append(Job(f"{model} {'.'.join(path)}={'absent' if v is DROP else repr(v)}", [Call(p)]))
    for model, path, vals in (("OU", ("Drift", "theta"), [0, -2.0]), ("L63", ("Drift", "theta"), [3.0, [10.0, 28.0], [10.0, 28.0, 2.0, 1.0]]),
                              ("L63", ("Noise", "sys"), [[5.0, 6.0, 7.0], [5.0, -6.0, 7.0], [5.0, 6.0], [5.0, 0, 7.0]]),
                              ("L63", ("Noise", "obs"), [[1.0, 0.5, 2.0], [1.0, 0.5], [1.0, 0.0, 2.0]]),
                              ("L63", ("Prior", "mu0"), [[1.0, 2.0, 3.0], 0, -4]), ("DW", ("Prior", "mu0"), [0, -2, 3.5]),
                              ("DW", ("Drift", "theta"), [0.5, 2]), ("DW", ("Random-Seed",), [0, 31415926535]),
                              ("OU", ("Output_Name",), [None, " a b ", "x", "results 1.2"]), ("L63", ("Output_Name",), [None])):
        for v in vals:
            p = base(rng, model, "Heun")
            put(p, path, v)
            jobs.append(Job(f"{model} {'.'.join(path)}={v!r}", [Call(p)]))
    # sections, files, options
    for kind in READ:
        p = base(rng, "DW", "Euler")
        while True:
            q = copy.deepcopy(p)
            d, file, raw = fault(rng, q, "read")
            if d == kind:
                break
        jobs.append(Job(f"read {kind}", [Call(q, file, raw)]))
    # letter case, all models and schemes
    for model in ("dw", "Dw", "oU", "ou", "l63") + (() if quick else ("L63", "l96")):
        for scheme in ("EULER", "hEuN", "rk2", "Rk4"):
            jobs.append(Job(f"case {model} {scheme}", [Call(base(rng, model, scheme))]))
    jobs.append(Job("case l96 heun", [Call(base(rng, "l96", "heun"))]))
    # histories of calls in one directory
    with open(os.path.join(os.environ["BEHAVIOURS"], "ConfigHistory.behaviours")) as f:
        hists = [json.loads(l) for l in f]
    order = rng.permutation(len(hists))
    for i in order[:120 if quick else 1200]:
        calls, text = [], []
        for c in hists[i]:
            p = base(rng, pick(rng, ("DW", "OU", "L63")), pick(rng, ("Euler", "Heun", "RK2", "RK4")), ["Sim A", " Sim  B "][c["name"] - 1])
            file, raw, t = "object", None, []
            for stage in ("setup", "run", "read"):
                if c[stage]:
                    d, file, raw = fault(rng, p, stage)
                    t.append(d)
            calls.append(Call(p, file, raw))
            text.append(" & ".join(t) or "good")
        jobs.append(Job(f"history {i} {'; '.join(text)}", calls))
    # the program itself
    for j in range(8 if quick else 32):
        p = base(rng, pick(rng, ("DW", "OU", "L63")), pick(rng, ("Euler", "Heun", "RK2", "RK4")))
        q = copy.deepcopy(p)
        d, file, raw = fault(rng, q, ("read", "setup", "run")[j % 3])
        jobs.append(Job(f"cli {j} good; {d}; good", [Call(p), Call(q, file, raw), Call(base(rng, "DW", "Euler", "other"))], cli=True))
    jobs.append(Job("cli unknown option", [Call(None, "absent", ["--what"])], cli=True))
    jobs.append(Job("cli option without a file", [Call(None, "absent", ["--params"])], cli=True))
    # results that cannot be written, and names that are taken
    good = lambda name: Call(base(rng, pick(rng, ("DW", "OU")), pick(rng, ("Euler", "Heun")), name))
    for name, folders in (("missing/demo", ()), ("here/demo", ("here",)), ("taken", ("taken.h5",)), (" taken twice ", ("taken_twice.h5",)),
                          ("n" * 300, ()), ("n" * 120, ()), ("notes.txt/x", ()), ("a/b c", ("a",))):
        jobs.append(Job(f"name {name[:20]!r} {len(name)}", [good("first"), good(name), good("last")], folders=folders))
    jobs.append(Job("cli name 'missing/demo'", [good("missing/demo"), good("ok")], cli=True))
    for name in ("d\u00e9mo \u03b1", "-x", "01", "run_2", "A-B.c+d", "x;y", "tab\tbed", 12, "CON", "\u6f22"):
        jobs.append(Job(f"name {name!r}", [good(name), good("second")]))
    # further entries, in every section, and in another order
    for j, model in enumerate(("DW", "OU", "L63")):
        p = base(rng, model, "Heun")
        p.update({k: [None, {"a": 1}, "text", 3.5][i % 4] for i, k in enumerate(("Author", "Version", "Comment", "Date", "Notes", "output_name", "model", "Seed", "theta", "data"))})
        for s in ("Time-window", "Noise", "Drift", "Prior", "Observations"):
            p[s].update(note="text", unit=None, more=[1, 2])
        jobs.append(Job(f"{model} further entries", [Call(p)]))
        jobs.append(Job(f"{model} another order", [Call({k: dict(reversed(v.items())) if isinstance(v, dict) else v for k, v in reversed(p.items())})]))
    for name in ("Sim A", "x"):
        jobs.append(Job(f"name {name!r} of another file", [good(name), good(name)], stray=("Sim_A.h5", "x.h5", "Sim A.h5")))
    # observation files and masks
    p = base(rng, "DW", "Euler")
    plain = copy.deepcopy(p)
    plain["Output_Name"] = "simulated"
    jobs.append(Job("observation file", [Call(plain), Call(p, data="".join(f"{t},{y}\n" for t, y in ((0.1, 0.9), (0.25, 1.1), (0.4, 0.8))))]))
    for text, mask in (("one left out", [True, False, True]), ("all", [True] * 3)):
        p = base(rng, "L63", "Euler")
        p["Observations"]["operator"] = mask
        jobs.append(Job(f"component mask {text}", [Call(p)]))
    execute(rec, jobs)
