"""Independent phonon / ph-ph oracles on top of the arrays of a Phono3py object."""

import itertools

import numpy as np

from . import models as M

# CODATA values used by phonopy.units are reproduced to ~1e-7
_HBAR = 6.582119569e-16  # eV s
_EV = 1.602176634e-19
_AMU = 1.66053906660e-27
_THZ = 1e12
_ANG = 1e-10


def min_images(prim, scell):
    """svecs[i][j]: shortest vectors (in primitive scaled coordinates) from primitive atom i
    to supercell atom j, images under the supercell lattice."""
    lat = np.array(scell.cell)
    pos = np.array(scell.scaled_positions)
    pinv = np.linalg.inv(np.array(prim.cell))
    L = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    out = []
    for i in prim.p2s_map:
        row = []
        d0 = pos - pos[i]
        d0 -= np.rint(d0)
        for j in range(len(pos)):
            v = (d0[j] + L) @ lat
            n = np.linalg.norm(v, axis=1)
            row.append(v[n < n.min() + 1e-5] @ pinv)
        out.append(row)
    return out


def full_fc3(ph3):
    """fc3 rows of primitive atoms (n_prim, n_super, n_super, 3,3,3)."""
    f = ph3.fc3
    if f.shape[0] == f.shape[1]:
        return f[ph3.primitive.p2s_map]
    return f


class Oracle:
    """Brute force anharmonic coupling."""

    def __init__(self, ph3, r0=None):
        self.ph3 = ph3
        p = ph3.primitive
        self.np_, self.ns = len(p), len(ph3.supercell)
        self.sv = min_images(p, ph3.supercell)
        s2p = np.array(p.s2p_map)
        p2p = {int(x): k for k, x in enumerate(p.p2s_map)}
        self.kind = np.array([p2p[int(x)] for x in s2p])
        self.masses = np.array(p.masses)
        self.fc3 = full_fc3(ph3)
        self.r0 = r0 if r0 is not None else ph3._make_r0_average
        sel = np.zeros((self.ns, self.np_))
        sel[np.arange(self.ns), self.kind] = 1
        self.sel = sel

    def phase(self, q):
        return np.array([[np.exp(2j * np.pi * v @ q).mean() for v in row] for row in self.sv])

    def fourier(self, q0, q1, q2):
        """(P,P,P,3,3,3) fourier transform with reference atom on the first leg."""
        P1, P2 = self.phase(q1), self.phase(q2)
        G = q0 + q1 + q2
        # position of the reference atoms relative to atom 0 of the primitive cell
        out = np.zeros((self.np_,) * 3 + (3, 3, 3), complex)
        for i in range(self.np_):
            a = self.sel * P1[i][:, None]
            b = self.sel * P2[i][:, None]
            t = np.tensordot(a, self.fc3[i], axes=(0, 0))  # (P, S, 3,3,3)
            t = np.tensordot(b, t, axes=(0, 1))  # (P2, P1, ...)
            out[i] = t.transpose(1, 0, 2, 3, 4) * np.exp(
                2j * np.pi * self.sv[0][self.ph3.primitive.p2s_map[i]][0] @ G)
        return out

    def fc3q(self, q0, q1, q2):
        f0 = self.fourier(q0, q1, q2)
        if not self.r0:
            return f0
        f1 = self.fourier(q1, q0, q2).transpose(1, 0, 2, 4, 3, 5)
        f2 = self.fourier(q2, q1, q0).transpose(2, 1, 0, 5, 4, 3)
        return (f0 + f1 + f2) / 3

    def phi2(self, q, freqs, eigs, cutoff, ngrid, sym=False):
        """|Phi|^2 in eV^2 for three q-points (band0, band1, band2)."""
        if sym:
            acc = 0
            for p in itertools.permutations(range(3)):
                inv = np.argsort(p)
                v = self.phi2([q[x] for x in p], [freqs[x] for x in p],
                              [eigs[x] for x in p], cutoff, ngrid)
                acc = acc + v.transpose(*inv)
            return acc / 6
        f = self.fc3q(*q)
        nb = 3 * self.np_
        f = f.transpose(0, 3, 1, 4, 2, 5).reshape(nb, nb, nb)
        m = np.repeat(1 / np.sqrt(self.masses), 3)
        e = [eigs[k] * m[:, None] for k in range(3)]
        t = np.einsum("abc,ai,bj,ck->ijk", f, *e, optimize=True)
        ok = [freqs[k] > cutoff for k in range(3)]
        inv = [np.where(o, 1 / np.where(o, x, 1.0), 0.0) for o, x in zip(ok, freqs)]
        v = np.abs(t) ** 2 * inv[0][:, None, None] * inv[1][:, None] * inv[2]
        return v * unit(ngrid)


def unit(ngrid):
    w = 2 * np.pi * _THZ
    return ((_HBAR * _EV) ** 3 / 36 / 8 * (_EV / _ANG**3) ** 2 / (w * _AMU) ** 3 / ngrid / _EV**2)


def qpoint(ph3, gp):
    g = ph3.grid
    return np.array(g.Q) @ (np.array(g.addresses[gp]) / np.array(g.D_diag, float))


# ---------------------------------------------------------------------------
FAMILY = {}
for _n in M.NAMES:
    FAMILY[_n] = ("cubic" if _n in ("diamond", "nacl", "zincblende", "fcc", "bcc", "cscl", "sc",
                                    "perovskite", "chiralcubic", "rhomb") else
                  "uniax" if _n in ("wurtzite", "hcp", "omega", "quartzlike", "rutile") else
                  "bct" if _n in ("bct", "orthoC") else "any")


def gen(rng, max_mesh=4, names=None, max_atoms=4, grg=0.25, nac=0.3, min_mesh=1):
    """A random configuration of a Phono3py object + mesh (JSON-able)."""
    names = names or [n for n in M.NAMES if M.NATOM[n] <= max_atoms]
    name = names[int(rng.integers(len(names)))]
    use_grg = bool(rng.random() < grg) and M.NATOM[name] <= 4
    if M.NATOM[name] > 4:
        max_mesh = min(max_mesh, 3)

    def r():
        return int(rng.integers(min_mesh, max_mesh + 1))

    fam = FAMILY[name]
    if use_grg:
        mesh = float(rng.uniform(6, 14) + 3 * (max_mesh - 3))
    elif fam == "cubic":
        mesh = [r()] * 3
    elif fam == "uniax":
        a = r()
        mesh = [a, a, r()]
    elif fam == "bct":
        mesh = [r()] * 3
    else:
        mesh = [r(), r(), r()]
    soft = float(rng.choice([0, 0, 0, 0, 0, 4])) * (0.3 if name == "p1" else 1)
    return {"name": name, "soft": soft, "set": int(rng.integers(len(M.DIMS[name]))), "mesh": mesh,
            "grg": use_grg, "compact": bool(rng.integers(2)), "r0": bool(rng.integers(2)),
            "nac": bool(name in M.POLAR and rng.random() < nac),
            "snf": "direct" if use_grg and rng.random() < 0.3 else "reciprocal"}


def build(c, mesh=True, **kw):
    """Phono3py object of a configuration; None when the mesh is refused."""
    s = M.setting(c["name"], c.get("set", 0))
    k = dict(compact=c.get("compact", False), nac=c.get("nac", False), use_grg=c.get("grg", False),
             make_r0_average=c.get("r0", True))
    if c.get("soft"):
        k["soft"] = c["soft"]
    if c.get("pin"):
        k["pin"] = c["pin"]
    if c.get("grg"):
        k["SNF_coordinates"] = c.get("snf", "reciprocal")
    if c.get("phdim"):
        k["phdim"] = c["phdim"]
    if "ms" in c:
        k["is_mesh_symmetry"] = c["ms"]
    if "cutf" in c:
        k["cutoff_frequency"] = c["cutf"]
    k.update(s)
    k.update(kw)
    ph3 = M.make_ph3(c["name"], **k)
    if mesh:
        try:
            ph3.mesh_numbers = c["mesh"]
        except RuntimeError as e:
            if "onsistent" in str(e) or "ncommensurate" in str(e) or "ymmetry" in str(e):
                return None
            raise
    return ph3


def ngrid(ph3):
    return int(np.prod(np.array(ph3.mesh_numbers)))


def ir_gps(ph3):
    from phono3py.phonon.grid import get_ir_grid_points

    return np.array(ph3.grid.grg2bzg)[get_ir_grid_points(ph3.grid)[0]]


class Tetra:
    """Linear tetrahedron weights on a BZ grid from the division of the microzone cell."""

    def __init__(self, grid):
        from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

        from . import gridgen as G
        from . import refs

        rel = np.array(get_tetrahedra_relative_grid_address(grid.microzone_lattice))
        got = {frozenset(tuple(int(x) for x in v) for v in t if np.any(v)) for t in rel}
        mz = np.array(grid.microzone_lattice)
        ok = [s for s in refs.main_diagonals(mz) if got == refs.tetrahedra(mz, s)]
        self.ok = bool(ok)
        # any shortest diagonal is a valid division; C05 judges the choice of the code
        s = (ok or refs.main_diagonals(mz))[0]
        tets = np.array([np.array([(0, 0, 0)] + sorted(t)) for t in refs.tetrahedra(mz, s)])
        self.D = np.array(grid.D_diag)
        self.rel = tets @ np.array(grid.P).T
        self.G, self.refs = G, refs

    def weights(self, adrs, f, x, eps=1e-7, function="I", noise=1e-8):
        """(value, lo, hi), each (band,), of bands f[GR index, band] around one address.

        Tetrahedra with a vertex exactly at x carry no weight in the code, so those with a
        vertex that equals x within rounding may or may not contribute.
        """
        v = np.moveaxis(f[self.G.gr_index(np.array(adrs)[None, None] + self.rel, self.D)], -1, 0)
        kn = np.sort(np.concatenate([v[..., :1], v], axis=-1), axis=-1)
        fun = self.refs.bspline_M if function == "I" else self.refs.bspline_C
        tie = (np.abs(v - x) < noise).any(axis=-1)
        a = np.array([fun(y, kn) for y in (x, x - eps, x + eps)])
        lo = np.where(tie, 0, a.min(axis=0))
        n = kn.shape[-2]
        return a[0].sum(axis=-1) / n, lo.sum(axis=-1) / n, a.max(axis=0).sum(axis=-1) / n


def older_names(mon, obj, skip=()):
    """get_x() / set_x(v) kept for older scripts mean the attribute x."""
    import warnings

    for name in sorted(n for n in dir(type(obj)) if n[:4] in ("get_", "set_")):
        attr = {"phonons": None}.get(name[4:], name[4:])
        if name in skip or not isinstance(getattr(type(obj), attr or "", None), property):
            continue
        try:
            want = getattr(obj, attr)
        except Exception:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if name[:4] == "get_":
                try:
                    got = getattr(obj, name)()
                except TypeError:  # takes arguments: not an accessor
                    continue
            else:
                if np.asarray(want).dtype.kind != "f":
                    continue
                keep = np.array(want) if np.ndim(want) else float(want)
                getattr(obj, name)(keep * 2)
                got = np.array(getattr(obj, attr))
                want = np.array(keep * 2)
                getattr(obj, name)(keep)
        mon.check("older-names", same_value(got, want), f"{type(obj).__name__}.{name}", key="older-names:" + name)


def same_value(a, b):
    if a is b:
        return True
    try:
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
        return bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))
    except Exception:
        return type(a) is type(b) and bool(a == b)
