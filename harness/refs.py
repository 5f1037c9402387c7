"""Reference formulas written from the physics, independently of the library's code."""

import itertools

import numpy as np

# CODATA-like constants via phonopy's unit module (trusted dependency)
from phonopy.physical_units import get_physical_units

_u = get_physical_units()
THzToEv = _u.THzToEv
KB = _u.KB


def bspline_M(x, knots):
    """Normalised B-spline density of order 4 (cubic) at scalar x; knots (..., 5) sorted."""
    t = np.asarray(knots, dtype=float)
    N = [((t[..., i] <= x) & (x < t[..., i + 1])).astype(float) for i in range(4)]
    for k in range(1, 4):
        new = []
        for i in range(4 - k):
            d1 = t[..., i + k] - t[..., i]
            d2 = t[..., i + k + 1] - t[..., i + 1]
            a = np.where(d1 > 0, (x - t[..., i]) / np.where(d1 > 0, d1, 1), 0)
            b = np.where(d2 > 0, (t[..., i + k + 1] - x) / np.where(d2 > 0, d2, 1), 0)
            new.append(a * N[i] + b * N[i + 1])
        N = new
    w = t[..., 4] - t[..., 0]
    return np.where(w > 0, 4.0 / np.where(w > 0, w, 1), 0) * N[0]


def bspline_C(x, knots):
    """Cumulative distribution of bspline_M."""
    t5 = np.asarray(knots, dtype=float)
    top = np.maximum(t5[..., -1], x) + 1.0
    t = np.concatenate([t5, np.stack([top + j for j in range(4)], axis=-1)], axis=-1)
    n = t.shape[-1]
    N = [((t[..., i] <= x) & (x < t[..., i + 1])).astype(float) for i in range(n - 1)]
    for k in range(1, 5):
        new = []
        for i in range(n - 1 - k):
            d1 = t[..., i + k] - t[..., i]
            d2 = t[..., i + k + 1] - t[..., i + 1]
            a = np.where(d1 > 0, (x - t[..., i]) / np.where(d1 > 0, d1, 1), 0)
            b = np.where(d2 > 0, (t[..., i + k + 1] - x) / np.where(d2 > 0, d2, 1), 0)
            new.append(a * N[i] + b * N[i + 1])
        N = new
    inside = sum(N[:4])
    return np.where(x >= t5[..., 4], 1.0, np.where(x < t5[..., 0], 0.0, inside))


def tetra_weight(x, f, function="I", eps=None):
    """Linear tetrahedron weight of the central point; f (..., 24, 4), f[..., 0] central.

    Returns (value, lo, hi): at discontinuities both one-sided limits are acceptable.
    """
    f = np.asarray(f, dtype=float)
    kn = np.sort(np.concatenate([f[..., :1], f], axis=-1), axis=-1)
    fun = bspline_M if function == "I" else bspline_C
    v = fun(x, kn).mean(axis=-1)
    if eps is None:
        eps = 1e-9 * max(1.0, abs(x))
    a, b = fun(x - eps, kn).mean(axis=-1), fun(x + eps, kn).mean(axis=-1)
    return v, np.minimum(np.minimum(a, b), v), np.maximum(np.maximum(a, b), v)


def tetrahedra(microzone, diag):
    """The 24 tetrahedra around the origin for main diagonal `diag` of the cell.

    diag = (s0, s1, s2), s_i = +-1: main diagonal runs along sum s_i m_i.
    Returns list of frozensets of three relative addresses (origin excluded).
    """
    s = np.array(diag)
    out = set()
    for perm in itertools.permutations(range(3)):
        path = [np.zeros(3, int)]
        for p in perm:
            nxt = path[-1].copy()
            nxt[p] += 1
            path.append(nxt)
        path = np.array(path) * s
        for o in range(4):
            rel = path - path[o]
            out.add(frozenset(tuple(int(v) for v in r) for r in rel if r.any()))
    return out


def main_diagonals(microzone):
    d = [(s, float(((microzone @ np.array(s)) ** 2).sum()))
         for s in [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)]]
    m = min(x for _, x in d)
    return [s for s, x in d if x < m * (1 + 1e-6)]


def gauss(x, s):
    return np.exp(-((x / s) ** 2) / 2) / (np.sqrt(2 * np.pi) * s)


def bose(f, T):
    """n(f, T) for f in THz (f > 0)."""
    if T <= 0:
        return np.zeros_like(np.asarray(f, dtype=float))
    with np.errstate(over="ignore"):
        return 1.0 / np.expm1(np.asarray(f, dtype=float) * THzToEv / (KB * T))
