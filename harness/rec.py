"""Recording of what the implementation does, as traces for TLC.

Runs under the interpreter of /repo. Numbers are written as decimal strings
with repr(), which is exact to the last bit of a double.
"""
import json, os, sys, copy
import numpy as np

REPO = os.environ.get("VGPA_REPO", "/repo")
sys.path.insert(0, REPO)


def num(x):
    x = float(x)
    return repr(x)


def enc(x):
    """Nested lists of number strings."""
    a = np.asarray(x)
    if a.dtype == object:
        a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return num(a)
    return [enc(v) for v in a]


def shape(x):
    return [int(n) for n in np.shape(x)]


def seq1(x):
    """1-D array -> sequence of 1-vectors; anything else as it is."""
    a = np.asarray(x, dtype=float)
    return enc(a.reshape(-1, 1)) if a.ndim == 1 else enc(a)


def seq11(x):
    """1-D array -> sequence of 1x1 matrices; anything else as it is."""
    a = np.asarray(x, dtype=float)
    return enc(a.reshape(-1, 1, 1)) if a.ndim == 1 else enc(a)


def attempt(fun, *args, **kw):
    """(result, "ok") or (None, "error"), with the kind of exception."""
    try:
        return fun(*args, **kw), "ok", ""
    except Exception as e:  # noqa: BLE001 - every exception is an outcome
        return None, "error", type(e).__name__


def frozen(*arrays):
    return [copy.deepcopy(a) for a in arrays]


def same(old, new):
    """Bitwise equality of (nested) values."""
    if isinstance(old, dict):
        return isinstance(new, dict) and old.keys() == new.keys() and all(same(old[k], new[k]) for k in old)
    if isinstance(old, (list, tuple)):
        return len(old) == len(new) and all(same(a, b) for a, b in zip(old, new))
    if isinstance(old, np.ndarray) or isinstance(new, np.ndarray):
        old, new = np.asarray(old), np.asarray(new)
        return old.shape == new.shape and old.dtype == new.dtype and np.array_equal(old, new, equal_nan=old.dtype.kind == "f")
    return isinstance(old, float) == isinstance(new, float) and (old == new or (old != old and new != new))


class Recorder:
    def __init__(self, path):
        self.path = path
        self.out = open(path, "w")
        self.meta = []

    def trace(self, name, **rec):
        """One trace; `name' identifies its input for humans and for the
        list of known findings."""
        self.meta.append(name)
        rec["name"] = name
        self.out.write(json.dumps(rec) + "\n")

    def close(self):
        self.out.close()
        with open(self.path + ".meta", "w") as f:
            json.dump(self.meta, f)


def amid(fun, *arrays):
    """fun(), in the midst of other evaluations: just before, the same memory
    held other values, and afterwards it does again; what fun() returned is
    returned as it is after that. Whatever is remembered must not go by the
    identity of an array, and whatever is returned must be there to stay."""
    arrays = [a for a in arrays if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.flags.writeable and a.size]
    keep = [a.copy() for a in arrays]

    def restore():
        for a, k in zip(arrays, keep):
            a[...] = k
    for a in arrays:
        a *= 0.75
    attempt(fun)
    restore()
    res = fun()
    for a in arrays:
        a *= 1.25
    attempt(fun)
    restore()
    return res


def spd(rng, d, scale=1.0, spread=1.0):
    """A well conditioned random symmetric positive definite matrix."""
    q, _ = np.linalg.qr(rng.standard_normal((d, d)))
    w = scale * np.exp(spread * rng.uniform(-1, 1, d))
    a = (q * w) @ q.T
    return 0.5 * (a + a.T)


def hold(rng, *paths):
    """Paths (over the first axis) in which every combination of them keeps,
    at some grid point, exactly its value of an earlier (mostly the previous)
    grid point while the others change."""
    n, k = len(paths[0]), len(paths)
    out = [p.copy() for p in paths]
    todo = rng.permutation(np.arange(1, 2 ** k))
    for t in range(1, n):
        keep = int(todo[(t - 1) % len(todo)])
        j = t - 1 if rng.random() < 0.7 else int(rng.integers(t))
        for i, p in enumerate(out):
            if keep >> i & 1:
                p[t] = p[j]
    return out
