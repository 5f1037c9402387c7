"""Random but replayable BZ grids (crystal, mesh type, shift, map type) and exact helpers."""

import numpy as np

from harness import models

_DS = {}


def dataset(cell):
    import spglib

    key = (cell.cell.tobytes(), cell.scaled_positions.tobytes())
    if key not in _DS:
        _DS[key] = spglib.get_symmetry_dataset(cell.totuple(), symprec=1e-5)
    return _DS[key]


def random_lattice(rng):
    while True:
        a = rng.normal(size=(3, 3)) * 2 + np.eye(3) * rng.uniform(0.5, 4)
        v = abs(np.linalg.det(a))
        if v > 2 and np.linalg.cond(a) < 12:
            if np.linalg.det(a) < 0:
                a[0] *= -1
            return a


def gen(rng, max_points=400, grg_share=0.45):
    """JSON parameters of one grid."""
    kind = rng.choice(["crystal", "lattice"], p=[0.75, 0.25])
    c = {"dense": bool(rng.integers(2)), "tr": bool(rng.integers(4) > 0)}
    if kind == "crystal":
        c["name"] = str(rng.choice(models.NAMES))
    else:
        c["lattice"] = random_lattice(rng).round(6).tolist()
    u = rng.random()
    if u < 1 - grg_share:
        while True:
            m = rng.integers(1, 9, size=3)
            if rng.random() < 0.6:
                m[:] = m[0]
            elif rng.random() < 0.5:
                m[1] = m[0]
            if m.prod() <= max_points:
                break
        c["mesh"] = [int(x) for x in m]
    elif u < 1 - grg_share / 2:
        c["mesh"] = float(np.round(rng.uniform(4, 26), 2))
        c["grg"] = bool(rng.integers(4) > 0)
        c["coord"] = str(rng.choice(["reciprocal", "direct"]))
    else:
        for _ in range(1000):
            M = rng.integers(-4, 6, size=(3, 3))
            d = round(np.linalg.det(M))
            if 0 < d <= max_points:
                break
        k = rng.random()
        if k < 0.7:  # symmetric conventional-like matrices keep the point group
            n = int(rng.integers(1, 5))
            B = [np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]),
                 np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]), np.eye(3, dtype=int),
                 np.diag([1, 1, 2])][int(rng.integers(4))]
            M = B * n
            if np.linalg.det(M) < 0:
                M = -M
        c["mesh"] = M.astype(int).tolist()
        c["grg"] = True
    c["force"] = bool(rng.integers(3) == 0)
    if rng.random() < 0.2:
        c["shift"] = [int(x) for x in rng.integers(0, 2, size=3)]
    return c


def make(c, primitive=None, dense=None, reciprocal=False):
    """Build the BZGrid; returns (bzgrid or RuntimeError, lattice, dataset)."""
    from phono3py.phonon.grid import BZGrid

    if "name" in c:
        cell = models.primcell(c["name"])
        lat = cell.cell
        ds = dataset(cell)
        kw = dict(symmetry_dataset=ds)
    else:
        lat = np.array(c["lattice"])
        ds = None
        kw = {}
        if c.get("grg"):
            kw["transformation_matrix"] = np.eye(3)
    mesh = c["mesh"]
    try:
        g = BZGrid(
            mesh, **({"reciprocal_lattice": np.linalg.inv(lat)} if reciprocal
                     else {"lattice": lat}), is_shift=c.get("shift"), is_time_reversal=c["tr"],
            use_grg=bool(c.get("grg", False)), force_SNF=c.get("force", False),
            SNF_coordinates=c.get("coord", "reciprocal"),
            store_dense_gp_map=c["dense"] if dense is None else dense, **kw)
    except RuntimeError as e:
        return e, lat, ds
    return g, lat, ds


def point_group(ds, tr=True):
    """Reciprocal-space integer operations acting on fractional q, from direct ones."""
    if ds is None:
        rots = [np.eye(3, dtype=int)]
    else:
        rots = [np.array(r, dtype=int) for r in ds.rotations]
    out = {}
    for r in rots:
        w = r.T  # q' = R^T q spans the same set as (R^-1)^T
        out[w.tobytes()] = w
        if tr:
            out[(-w).tobytes()] = -w
    return list(out.values())


def gr_index(a, D):
    a = np.mod(a, D)
    return a[..., 0] + D[0] * a[..., 1] + D[0] * D[1] * a[..., 2]


def all_gr_addresses(D):
    n = int(np.prod(D))
    i = np.arange(n)
    return np.stack([i % D[0], (i // D[0]) % D[1], i // (D[0] * D[1])], axis=1)


def qmap(g):
    """address -> fractional q (exact up to rounding); includes the half-grid shift."""
    Q = np.array(g.Q, dtype=float)
    Dinv = 1.0 / np.array(g.D_diag, dtype=float)

    def f(adrs):
        return (np.asarray(adrs) + np.array(g.PS) / 2.0) * Dinv @ Q.T

    return f
