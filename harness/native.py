"""Watch the calls of the three native modules.

Every call goes to the real function; a watcher may repeat it on the same inputs under other
conditions (heap contents, number of threads) and compare what it leaves in its arguments.
"""

import functools

import numpy as np

MODULES = ("_phono3py", "_phononcalc", "_recgrid")


class Calls:
    """Patch the modules with `watch(name, func, args, kwargs)`."""

    def __init__(self, watch):
        self.watch = watch
        self.saved = []
        self.depth = 0

    def __enter__(self):
        import importlib

        for m in MODULES:
            mod = importlib.import_module("phono3py." + m)
            for name in dir(mod):
                f = getattr(mod, name)
                if name.startswith("__") or not callable(f):
                    continue
                self.saved.append((mod, name, f))
                setattr(mod, name, self._wrap(name, f))
        return self

    def _wrap(self, name, f):
        @functools.wraps(f, assigned=())
        def call(*a, **k):
            if self.depth:
                return f(*a, **k)
            self.depth += 1
            try:
                return self.watch(name, f, a, k)
            finally:
                self.depth -= 1

        return call

    def __exit__(self, *x):
        for mod, name, f in self.saved:
            setattr(mod, name, f)


def arrays(a, k):
    return [x for x in list(a) + [k[y] for y in sorted(k)] if isinstance(x, np.ndarray)]


def outcome(ret, arr):
    """(returned values, contents of the argument arrays)."""
    r = ret if isinstance(ret, (tuple, list)) else [ret]
    return [np.array(x) for x in r if x is not None], [x.copy(order="K") for x in arr]


def repeat(f, a, k, conditions, max_bytes=2e8):
    """Call f once per condition on the same inputs; yields (label, returned, arrays).

    The first condition is what the caller gets; the arguments are left in its state.
    """
    arr = arrays(a, k)
    if sum(x.nbytes for x in arr) > max_bytes:
        return f(*a, **k), []
    before = [x.copy(order="K") for x in arr]
    first = None
    res = []
    for label, enter, leave in conditions:
        if first is not None:
            for x, b in zip(arr, before):
                if x.flags.writeable:
                    x[...] = b
        enter()
        try:
            ret = f(*a, **k)
        finally:
            leave()
        o = outcome(ret, arr)
        res.append((label,) + o)
        if first is None:
            first = (ret, o[1])
    for x, b in zip(arr, first[1]):
        if x.flags.writeable:
            x[...] = b
    return first[0], res


def same(x, y, rtol):
    """None, or a description of the difference; rtol relative to the largest element."""
    if x.shape != y.shape or x.dtype != y.dtype:
        return f"shape or type {x.shape} {x.dtype} / {y.shape} {y.dtype}"
    if x.dtype.kind in "fc":
        bad = ~((x == y) | (np.isnan(x) & np.isnan(y)))
        if bad.any() and rtol:
            with np.errstate(all="ignore"):
                d = np.abs(x - y)
                fin = np.abs(x[np.isfinite(x)])
                s = fin.max() if fin.size else 0.0
                bad &= ~(d <= rtol * s)
    else:
        bad = x != y
    if not bad.any():
        return None
    i = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
    return f"{int(bad.sum())}/{bad.size} elements, first at {tuple(int(v) for v in i)}: {x[i]!r} / {y[i]!r}"
