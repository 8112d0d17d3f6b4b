#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs of /verif/seeded in a scratch copy of
/repo (patch applies, stable tests pass, demonstration passes without and fails
with it) and report which checks raise an alarm on it.
  --all-checks   run every check on it, not only that of its property"""
import fnmatch, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(bug, repo, work):
    lay = os.path.join(work, "laid")
    shutil.copytree(os.path.join(ROOT, "seeded", bug), lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = sh("bash", os.path.join(lay, "demo.sh"), cwd=repo, timeout=300)
    shutil.rmtree(lay)
    return p


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    have = sorted(d for d in os.listdir(os.path.join(ROOT, "seeded")) if os.path.isdir(os.path.join(ROOT, "seeded", d)))
    for bug in [d for a in args for d in have if fnmatch.fnmatch(d, a)] or have:
        meta = json.load(open(os.path.join(ROOT, "seeded", bug, "meta.json")))
        work = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(work, "repo")
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            a = demo(bug, repo, work)
            ap = sh("git", "apply", os.path.abspath(os.path.join(ROOT, "seeded", bug, "patch.diff")), cwd=repo)
            b = demo(bug, repo, work)
            t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-rA", "-p", "no:cacheprovider", "src/tests", cwd=repo,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
            passed = {l.split("::")[-1] for l in t.stdout.splitlines() if l.startswith("PASSED")}
            failed = [s for s in STABLE if s.split("::")[-1] not in passed]
            ok = a.returncode == 0 and b.returncode != 0 and ap.returncode == 0 and not failed
            res = {}
            if ok or "--force" in sys.argv:
                for prop in props if "--all-checks" in sys.argv else [meta["property"]]:
                    p = sh("python3", "check.py", prop, cwd=ROOT, env=dict(os.environ, VGPA_REPO=repo, VERIF_TIER="quick"))
                    res[prop] = {0: "quiet", 1: "CAUGHT"}.get(p.returncode, "rc %d" % p.returncode)
                    if "-v" in sys.argv or "--verbose" in sys.argv:
                        print(p.stdout[-1500:])
            print(bug, meta["property"], "valid" if ok else "INVALID clean=%d patched=%d apply=%d tests=%s\n%s\n%s" % (
                a.returncode, b.returncode, ap.returncode, failed, a.stdout[-800:] if a.returncode else "", ap.stdout[-400:]), res, flush=True)
        finally:
            shutil.rmtree(work)


main()
