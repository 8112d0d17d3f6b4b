"""Runs TLC on a module of /verif/spec and collects what it printed."""
import json, os, re, shutil, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def build():
    """Compile the operator overrides (seconds; skipped when up to date)."""
    srcs = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(ROOT, "java")) for f in fs)
    stamp = os.path.join(BUILD, "vgpa", "HPReal.class")
    if os.path.exists(stamp) and all(os.path.getmtime(stamp) >= os.path.getmtime(s) for s in srcs):
        return
    tmp = tempfile.mkdtemp(prefix="vgpa-build-")
    try:
        subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, *srcs], check=True)
        shutil.copytree(tmp, BUILD, dirs_exist_ok=True)
        os.utime(stamp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class TlcResult:
    def __init__(self):
        self.verdicts = {}      # trace -> list of verdict records (one per accepting path)
        self.behaviours = []    # records printed by a design model
        self.states = self.distinct = 0
        self.ok = False
        self.violated = None    # name of a violated invariant or property
        self.output = ""


def _records(line, tag):
    # TLC prints strings quoted, with " and \ escaped.
    line = line.strip()
    if line.startswith('"' + tag + " "):
        body = line[len(tag) + 2:-1]
        return json.loads(body.replace('\\"', '"').replace("\\\\", "\\"))
    return None


def run(module, cfg=None, env=None, workers=6, heap="6g", timeout=840, simulate=None):
    """Model check MODULE with CFG; env is added to the environment (IOEnv)."""
    build()
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vgpa.Overrides",
           "-cp", JARS + ":" + BUILD, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"]
    if simulate:
        cmd += simulate
    cmd.append(module + ".tla")
    full = dict(os.environ)
    full.update(env or {})
    res = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=full, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        res.output = p.stdout
    except subprocess.TimeoutExpired as e:
        res.output = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        res.output += "\nTLC: timeout"
        return res
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    other = []
    for line in res.output.splitlines():
        r = _records(line, "VERDICT")
        if r is not None:
            res.verdicts.setdefault(r["tr"], []).append(r)
            continue
        r = _records(line, "BEHAVIOUR")
        if r is not None:
            res.behaviours.append(r)
            continue
        if not re.match(r"Parsing file|Semantic processing|Linting of|Running breadth|TLC2 Version|Computed \d", line):
            other.append(line)
    text = "\n".join(other)
    res.output = text
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        res.states, res.distinct = (int(x.replace(",", "")) for x in m.groups())
    m = re.search(r"(?:Invariant|Property|Action property) (\S+) (?:is|was) violated", text)
    res.violated = m.group(1) if m else None
    if res.violated is None and "is violated" in text:
        res.violated = "assumption"
    res.ok = "No error has been found" in text and res.violated is None and p.returncode == 0
    return res
