"""Running code of the repository in processes of its own.

A reference result must not depend on what ran before, not even through
state that is shared by all objects of a process. `apart' computes results
in forked children, each of which starts from this process as it is; as long
as this process has run nothing of the repository but imports, they are what
a fresh process computes.
"""
import os, pickle, sys
from rec import attempt


def _fork(thunk):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = attempt(thunk)
            data = pickle.dumps(res if res[1] == "ok" else (None, res[1], res[2]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            sys.stdout = sys.stderr = open(os.devnull, "w")
            os._exit(code)
    os.close(w)
    return pid, os.fdopen(r, "rb")


def apart(thunks, jobs=7):
    """[(result, outcome, exception)] of the thunks, each in a child."""
    sys.stdout.flush()
    out, running, todo = [None] * len(thunks), [], list(enumerate(thunks))
    while todo or running:
        while todo and len(running) < jobs:
            i, thunk = todo.pop(0)
            running.append((i, *_fork(thunk)))
        i, pid, f = running.pop(0)
        with f:
            data = f.read()
        os.waitpid(pid, 0)
        out[i] = pickle.loads(data) if data else (None, "error", "Died")
    return out


def _dispatchers():
    """The compiled functions of the repository's modules."""
    from numba.core.dispatcher import Dispatcher
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] == "src" and mod is not None:
            for attr, v in sorted(vars(mod).items()):
                if isinstance(v, Dispatcher) and v.__module__ == name:
                    yield name, attr, v


def compiled(thunks):
    """Compile in this process what the thunks need, without running them in
    it: children run them and tell the signatures they compiled. This only
    saves time; without it every child compiles for itself."""
    def sigs(thunk):
        attempt(thunk)
        return [(name, attr, list(v.signatures)) for name, attr, v in _dispatchers()]
    try:
        want = {}
        for res, outcome, _ in apart([lambda t=t: sigs(t) for t in thunks]):
            for name, attr, ss in res or []:
                for s in ss:
                    want[(name, attr, s)] = None
        for name, attr, s in want:
            getattr(sys.modules[name], attr).compile(s)
    except Exception:   # noqa: BLE001
        pass
