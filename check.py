#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property of /repo's tree.

1. TLC checks the design models of the property (invariants of the specified
   system itself) and prints their behaviours.
2. The driver runs the real code (replaying these behaviours, plus generated
   inputs) and records traces.
3. TLC checks every recorded trace against the trace specification.
Exit 0: everything conforms (apart from listed known findings). Exit 1 with a
VIOLATION line: some trace is not a behaviour of the specification.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import tlc
from registry import PROPS

PYTHON = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def known_findings(prop):
    out = []
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) trace=/(.*?)/ clauses=(\S+) :: (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(trace=re.compile(m.group(2)), clauses=set(m.group(3).split(",")),
                                text=m.group(4).strip(), seen=0))
    return out


class Check:
    def __init__(self, prop):
        self.prop, self.cfg = prop, PROPS[prop]
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vgpa-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.design_info, self.problems, self.samples = [], [], []

    # -- direction A: the design ------------------------------------------------
    def design(self):
        for module, quick, thorough in self.cfg.get("design", []):
            res = tlc.run(module, quick if TIER == "quick" else thorough)
            if not res.ok:
                # Independent of /repo: an error of the check, not a verdict.
                print(res.output[-4000:])
                print("design model %s failed" % module)
                sys.exit(3)
            self.states += res.distinct
            self.transitions += res.states
            self.design_info.append(dict(model=module, states=res.distinct, behaviours=len(res.behaviours)))
            with open(os.path.join(self.work, module + ".behaviours"), "w") as f:
                for b in sorted(res.behaviours, key=json.dumps):    # the order TLC prints them in varies
                    f.write(json.dumps(b) + "\n")

    # -- the implementation -----------------------------------------------------
    def drive(self):
        path = os.path.join(self.work, "traces.ndjson")
        cwd = os.path.join(self.work, "cwd")
        os.mkdir(cwd)
        env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, BEHAVIOURS=self.work,
                   PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   PYTHONHASHSEED="0", MPLBACKEND="Agg", HOME=self.work, NUMBA_CACHE_DIR=self.work)
        env.pop("PYTHONPATH", None)
        limit = 420 if TIER == "quick" else 3000
        log = open(os.path.join(self.work, "driver.log"), "w+")
        p = subprocess.Popen([PYTHON, os.path.join(ROOT, "harness", "drive.py"), self.prop, path],
                             cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = "no answer within %d s" % limit
        log.seek(0)
        self.log = log.read()
        if rc != 0:
            self.problems.append(dict(trace="driver", clauses=["driver: %s" % rc], detail=self.log[-3000:]))
            return None
        with open(path + ".meta") as f:
            self.names = json.load(f)
        return path

    # -- direction B: traces against the specification --------------------------
    def validate(self, path):
        res = tlc.run(self.cfg["trace"], self.cfg.get("cfg"), env={"TRACE": path}, timeout=840 if TIER == "quick" else 6000)
        self.states += res.distinct
        self.transitions += res.states
        n = len(self.names)
        if n == 0:
            self.problems.append(dict(trace="driver", clauses=["no trace recorded"]))
        if not res.ok:
            self.problems.append(dict(trace="?", clauses=["not evaluable by the specification"],
                                      detail=res.output[-3000:]))
        self.kf = known_findings(self.prop)
        missing = []
        for i, name in enumerate(self.names, 1):
            paths = res.verdicts.get(i)
            if not paths:
                missing.append(name)
                continue
            self.traces += 1
            best = min(paths, key=lambda v: len(v["bad"]))
            if best["bad"]:
                self.failed(i, name, best)
            if i <= 3:
                self.samples.append(dict(trace=name, steps=best["steps"], broken_clauses=best["bad"]))
        if missing and res.ok:
            self.problems.append(dict(trace=missing[0], clauses=["no behaviour of the specification matches"]))
        with open(path) as f:
            lines = f.readlines()
        if lines:
            short = min(lines, key=len)
            self.samples.append(dict(recorded=json.loads(short) if len(short) < 4000 else short[:2000]))

    def failed(self, i, name, v):
        clauses = set(v["bad"])
        for k in self.kf:
            if k["trace"].search(name) and clauses <= k["clauses"]:
                k["seen"] += 1
                return
        self.problems.append(dict(trace=name, index=i, clauses=sorted(clauses)))

    # -- outcome ----------------------------------------------------------------
    def finish(self):
        for k in getattr(self, "kf", []):
            if k["seen"]:
                print("KNOWN-FINDING: property=%s %s (%d traces)" % (self.prop, k["text"], k["seen"]))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                design_models=self.design_info, trace_specification=self.cfg["trace"]),
                  assumptions=["numbers are compared with the relative tolerances written in the trace specification",
                               "the driver hands the implementation's inputs and outputs to TLC unchanged"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.problems))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.problems:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, ev["wall_s"]))
            return 0
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (self.prop, TIER, SEED))
        with open(replay, "w") as f:
            json.dump(dict(property=self.prop, seed=SEED, tier=TIER, problems=self.problems[:200]), f, indent=1)
        for p in self.problems[:12]:
            print("  broken: %s: %s" % (p["trace"], ", ".join(p["clauses"])[:300]))
            if p.get("detail"):
                print(p["detail"][-1500:])
        if len(self.problems) > 12:
            print("  ... %d more in the replay file" % (len(self.problems) - 12))
        print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        return 1

    def run(self):
        try:
            self.design()
            path = self.drive()
            if path:
                self.validate(path)
            return self.finish()
        finally:
            if os.environ.get("VGPA_KEEP"):
                print("work:", self.work)
            else:
                shutil.rmtree(self.work, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    if "--replay" in args:      # run again what the file describes
        with open(args[args.index("--replay") + 1]) as f:
            r = json.load(f)
        SEED, TIER = r["seed"], r["tier"]
        print("replaying %s seed=%d tier=%s" % (r["property"], SEED, TIER))
        sys.exit(Check(r["property"]).run())
    if len(args) != 1 or args[0] not in PROPS:
        print("usage: check.py <property> | --replay FILE; properties: " + " ".join(PROPS))
        sys.exit(2)
    sys.exit(Check(args[0]).run())
