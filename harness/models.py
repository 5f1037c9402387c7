"""Toy crystals with analytic, exactly symmetric polynomial lattice potentials.

Every crystal gets an energy E(u) = 1/2 Phi2 u u + 1/6 Phi3 u u u on its supercell, built
from bond-stretch (including the geometric cubic terms of a spring at rest length) and
bond-angle terms.  Terms depend on species and distances only, hence invariance under the
whole space group, permutation of legs and rigid translation is exact to rounding.
fc2, fc3 and the forces of any displaced supercell follow exactly.
"""

import functools
import itertools

import numpy as np
from phonopy.structure.atoms import PhonopyAtoms

S3 = np.sqrt(3)


def _cubic(a, symbols, pos):
    return dict(cell=np.eye(3) * a, symbols=symbols, scaled_positions=pos)


_F = [[0, 0, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]


def _fadd(v):
    return [list(np.add(x, v)) for x in _F]


def _hex(a, c):
    return np.array([[a, 0, 0], [-a / 2, a * S3 / 2, 0], [0, 0, c]])


FPRIM = "F"

# name: (cell dict, primitive_matrix, polar charges {symbol: Z} or None, cutoff)
def _defs():
    d = {}
    d["diamond"] = (_cubic(5.43, ["Si"] * 8, _F + _fadd([0.25] * 3)), "F", None, 3.9)
    d["nacl"] = (_cubic(5.64, ["Na"] * 4 + ["Cl"] * 4, _F + _fadd([0.5] * 3)), "F",
                 {"Na": 1.1, "Cl": -1.1}, 4.1)
    d["zincblende"] = (_cubic(5.45, ["Ga"] * 4 + ["P"] * 4, _F + _fadd([0.25] * 3)), "F",
                       {"Ga": 2.0, "P": -2.0}, 3.95)
    d["fcc"] = (_cubic(3.6, ["Cu"] * 4, _F), "F", None, 3.7)
    d["bcc"] = (_cubic(3.2, ["Fe"] * 2, [[0, 0, 0], [0.5] * 3]), "I", None, 3.3)
    d["cscl"] = (_cubic(3.9, ["Cs", "Cl"], [[0, 0, 0], [0.5] * 3]), "P",
                 {"Cs": 1.0, "Cl": -1.0}, 4.0)
    d["sc"] = (_cubic(3.0, ["Nb"], [[0, 0, 0]]), "P", None, 4.4)
    d["perovskite"] = (
        _cubic(3.9, ["Sr", "Ti", "O", "O", "O"],
               [[0, 0, 0], [0.5] * 3, [0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]]), "P",
        {"Sr": 2.0, "Ti": 4.0, "O": -2.0}, 3.5)
    d["wurtzite"] = (
        dict(cell=_hex(3.25, 5.2), symbols=["Zn", "Zn", "S", "S"],
             scaled_positions=[[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.3819],
                               [2 / 3, 1 / 3, 0.8819]]), "P", {"Zn": 1.5, "S": -1.5}, 3.35)
    d["hcp"] = (
        dict(cell=_hex(3.2, 5.2), symbols=["Mg"] * 2,
             scaled_positions=[[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]]), "P", None, 4.6)
    d["omega"] = (  # P6/mmm
        dict(cell=_hex(4.6, 2.83), symbols=["Ti", "V", "V"],
             scaled_positions=[[0, 0, 0], [1 / 3, 2 / 3, 0.5], [2 / 3, 1 / 3, 0.5]]), "P",
        None, 3.8)
    d["quartzlike"] = (  # P3_1 21, no inversion
        dict(cell=_hex(4.9, 5.4), symbols=["Se"] * 3,
             scaled_positions=[[0.47, 0, 1 / 3], [0, 0.47, 2 / 3], [0.53, 0.53, 0]]), "P",
        None, 4.0)
    d["rhomb"] = (  # R-3m, hexagonal setting, two atoms in primitive
        dict(cell=_hex(3.8, 9.5), symbols=["Bi"] * 6,
             scaled_positions=[list(np.add([0, 0, z], t) % 1)
                               for z in (0.235, -0.235)
                               for t in ([0, 0, 0], [2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3])]),
        "R", None, 4.0)
    d["rutile"] = (
        dict(cell=np.diag([4.5, 4.5, 2.95]), symbols=["Sn"] * 2 + ["O"] * 4,
             scaled_positions=[[0, 0, 0], [0.5] * 3, [0.305, 0.305, 0], [0.695, 0.695, 0],
                               [0.195, 0.805, 0.5], [0.805, 0.195, 0.5]]), "P",
        {"Sn": 3.0, "O": -1.5}, 3.2)
    d["bct"] = (dict(cell=np.diag([3.1, 3.1, 4.0]), symbols=["In"] * 2,
                     scaled_positions=[[0, 0, 0], [0.5] * 3]), "I", None, 4.1)
    d["orthoP"] = (dict(cell=np.diag([3.4, 3.9, 4.3]), symbols=["Ga", "As"],
                        scaled_positions=[[0, 0, 0], [0.5, 0.5, 0.4]]), "P", None, 4.4)
    d["orthoC"] = (dict(cell=np.diag([3.3, 4.9, 3.8]), symbols=["U"] * 2,
                        scaled_positions=[[0, 0, 0], [0.5, 0.5, 0]]), "C", None, 5.0)
    m = np.array([[4.1, 0, 0], [0, 3.5, 0], [-0.9, 0, 4.4]])
    d["mono"] = (dict(cell=m, symbols=["Ag", "Br"],
                      scaled_positions=[[0.05, 0, 0.02], [0.55, 0.5, 0.47]]), "P",
                 {"Ag": 0.9, "Br": -0.9}, 4.6)
    t = np.array([[3.6, 0, 0], [0.4, 3.9, 0], [-0.5, 0.6, 4.2]])
    d["tric"] = (dict(cell=t, symbols=["K", "I"],
                      scaled_positions=[[0, 0, 0], [0.47, 0.53, 0.44]]), "P",
                 {"K": 0.8, "I": -0.8}, 4.7)
    d["tric1"] = (dict(cell=t * 0.8, symbols=["Al"], scaled_positions=[[0.1, 0.2, 0.3]]), "P",
                  None, 4.9)
    # no symmetry at all (P1), three species
    d["p1"] = (dict(cell=t * 1.08, symbols=["Na", "Mg", "F"],
                    scaled_positions=[[0.02, 0.01, 0.05], [0.46, 0.55, 0.41],
                                      [0.71, 0.12, 0.63]]), "P",
               {"Na": 1.0, "Mg": 1.0, "F": -2.0}, 4.3)
    d["chiralcubic"] = (  # P2_1 3
        _cubic(4.6, ["Mn"] * 4, [[0.08, 0.08, 0.08], [0.42, 0.92, 0.58], [0.58, 0.42, 0.92],
                                 [0.92, 0.58, 0.42]]), "P", None, 3.6)
    return d


_DEFS = _defs()
NAMES = list(_DEFS)
# number of atoms of the primitive cell; small ones make cheap interaction workloads
NATOM = {"diamond": 2, "nacl": 2, "zincblende": 2, "fcc": 1, "bcc": 1, "cscl": 2, "sc": 1,
         "perovskite": 5, "wurtzite": 4, "hcp": 2, "omega": 3, "quartzlike": 3, "rhomb": 2,
         "rutile": 6, "bct": 1, "orthoP": 2, "orthoC": 1, "mono": 2, "tric": 2, "tric1": 1,
         "p1": 3, "chiralcubic": 4}
SMALL = [n for n in NAMES if NATOM[n] <= 2]
MEDIUM = [n for n in NAMES if NATOM[n] <= 4]
POLAR = [n for n in NAMES if _DEFS[n][2] is not None]


def unitcell(name):
    c = _DEFS[name][0]
    return PhonopyAtoms(cell=c["cell"], symbols=c["symbols"],
                        scaled_positions=np.array(c["scaled_positions"], float) % 1.0)


def centring(name):
    return _DEFS[name][1]


def nac_params(name, primitive, symprec=1e-5):
    """Born charges: symmetrised, charge-neutral, slightly anisotropic when allowed."""
    from phonopy.structure.symmetry import symmetrize_borns_and_epsilon

    z = _DEFS[name][2]
    if z is None:
        return None
    rng = np.random.default_rng(7)
    n = len(primitive)
    born = np.array([np.eye(3) * z[s] for s in primitive.symbols])
    born += rng.normal(size=(n, 3, 3)) * 0.1
    a = rng.normal(size=(3, 3)) * 0.3
    eps = np.eye(3) * 3.0 + a @ a.T
    b, e = symmetrize_borns_and_epsilon(born, eps, primitive, symprec=symprec)
    b = b - b.mean(axis=0)
    return {"born": b, "dielectric": e, "factor": 14.4}


# ---------------------------------------------------------------------------
def _species_num(symbols):
    return {s: 1.0 + 0.13 * (sum(map(ord, s)) % 7) for s in set(symbols)}


def _neighbours(cell, rc):
    """Directed bonds (i, j, R) with R = r_j + lattice - r_i, 0 < |R| < rc, infinite lattice."""
    lat = cell.cell
    pos = cell.scaled_positions
    h = 1.0 / np.linalg.norm(np.linalg.inv(lat), axis=0)
    nmax = np.ceil(rc / h).astype(int) + 1
    rng = [np.arange(-m, m + 1) for m in nmax]
    L = np.array(list(itertools.product(*rng)))
    out = []
    for i in range(len(cell)):
        for j in range(len(cell)):
            R = (pos[j] - pos[i] + L) @ lat
            d = np.linalg.norm(R, axis=1)
            for k in np.where((d > 1e-4) & (d < rc))[0]:
                out.append((i, j, R[k], d[k]))
    return out


class Lattice:
    """Polynomial potential of one supercell."""

    def __init__(self, name, supercell, anh=1.0, seed=0, rc=None, soft=0.0, pin=0.0):
        self.sc = supercell
        rc = rc or _DEFS[name][3]
        n = len(supercell)
        sp = _species_num(supercell.symbols)
        w = np.array([sp[s] for s in supercell.symbols])
        bonds = _neighbours(supercell, rc)
        dmin = min(b[3] for b in bonds)
        fc2 = np.zeros((n, n, 3, 3))
        fc3 = np.zeros((n, n, n, 3, 3, 3))
        I3 = np.eye(3)
        # --- bonds (each undirected bond appears twice -> weight 1/2)
        for i, j, R, d in bonds:
            e = R / d
            x = d / dmin
            k = 6.0 * np.sqrt(w[i] * w[j]) * np.exp(-2.2 * (x - 1)) - soft
            g = -14.0 * anh * (w[i] + w[j]) / 2 * np.exp(-3.0 * (x - 1))
            P = (I3 - np.outer(e, e)) / d
            p2 = k * np.outer(e, e)
            p3 = g * np.einsum("a,b,c->abc", e, e, e) + anh * k * (
                np.einsum("ab,c->abc", P, e) + np.einsum("ac,b->abc", P, e)
                + np.einsum("bc,a->abc", P, e))
            # s = u_j - u_i
            sg = ((j, 1.0), (i, -1.0))
            for a, sa in sg:
                for b, sb in sg:
                    fc2[a, b] += 0.5 * sa * sb * p2
                    for c, sc_ in sg:
                        fc3[a, b, c] += 0.5 * sa * sb * sc_ * p3
        # --- springs to the sites (no acoustic sum rule; moves Gamma modes off zero)
        for i in range(n):
            fc2[i, i] += pin * w[i] * I3
        # --- angles around i between first-shell bonds: theta and stretch couplings
        rs = dmin * 1.06
        near = [[] for _ in range(n)]
        for i, j, R, d in bonds:
            if d < rs:
                near[i].append((j, R / d))
        for i in range(n):
            for (j, ej), (l, el) in itertools.combinations(near[i], 2):
                sj = np.zeros((3, 3))  # rows: atoms (i, j, l)
                sl = np.zeros((3, 3))
                th = np.zeros((3, 3))
                sj[1] += ej
                sj[0] -= ej
                sl[2] += el
                sl[0] -= el
                th[1] += el
                th[2] += ej
                th[0] -= el + ej
                ca = w[i] * 0.5
                cb = 0.8 * ca * anh
                cc = -1.1 * ca * anh
                at = np.array([i, j, l])
                # h/2 theta^2 + b/6 theta^3 + c/2 (sj^2 sl + sj sl^2)
                t9 = th.ravel()
                a9 = sj.ravel()
                b9 = sl.ravel()
                m2 = ca * np.outer(t9, t9)
                m3 = cb * np.einsum("a,b,c->abc", t9, t9, t9)
                for u, v in ((a9, b9), (b9, a9)):
                    m3 = m3 + cc * (np.einsum("a,b,c->abc", u, u, v)
                                    + np.einsum("a,b,c->abc", u, v, u)
                                    + np.einsum("a,b,c->abc", v, u, u))
                m2 = m2.reshape(3, 3, 3, 3).transpose(0, 2, 1, 3)
                m3 = m3.reshape(3, 3, 3, 3, 3, 3).transpose(0, 2, 4, 1, 3, 5)
                for a in range(3):
                    for b in range(3):
                        fc2[at[a], at[b]] += m2[a, b]
                        for c in range(3):
                            fc3[at[a], at[b], at[c]] += m3[a, b, c]
        self.fc2 = fc2
        self.fc3 = fc3

    def forces(self, u, order=3):
        """Exact forces for displacements u (n, 3)."""
        f = -np.einsum("ijab,jb->ia", self.fc2, u)
        if order >= 3:
            f -= 0.5 * np.einsum("ijkabc,jb,kc->ia", self.fc3, u, u, optimize=True)
        return f

    def energy(self, u, order=3):
        e = 0.5 * np.einsum("ijab,ia,jb", self.fc2, u, u, optimize=True)
        if order >= 3:
            e += np.einsum("ijkabc,ia,jb,kc", self.fc3, u, u, u, optimize=True) / 6
        return e


_CACHE = {}


def lattice(name, supercell, **kw):
    key = (name, supercell.cell.tobytes(), supercell.scaled_positions.tobytes(),
           tuple(sorted(kw.items())))
    if key not in _CACHE:
        if len(_CACHE) > 6:
            _CACHE.clear()
        _CACHE[key] = Lattice(name, supercell, **kw)
    return _CACHE[key]


def make_ph3(name, dim=(2, 2, 2), phdim=None, primitive="auto", compact=False, nac=False,
             fc=True, anh=1.0, soft=0.0, pin=0.0, cell=None, **kw):
    """A Phono3py object of the toy crystal, with force constants unless fc=False."""
    from phono3py import Phono3py

    cell = unitcell(name) if cell is None else cell
    pm = centring(name) if primitive == "auto" else primitive
    smat = np.array(dim)
    ph3 = Phono3py(
        cell, supercell_matrix=np.diag(smat) if smat.ndim == 1 else smat,
        primitive_matrix=pm,
        phonon_supercell_matrix=None if phdim is None else (
            np.diag(phdim) if np.ndim(phdim) == 1 else np.array(phdim)),
        **kw)
    if fc:
        set_fc(ph3, name, compact=compact, anh=anh, soft=soft, pin=pin)
    if nac:
        p = nac_params(name, ph3.primitive)
        if p is not None:
            ph3.nac_params = p
    return ph3


def set_fc(ph3, name, compact=False, anh=1.0, soft=0.0, pin=0.0):
    lat = lattice(name, ph3.supercell, anh=anh, soft=soft, pin=pin)
    fc3 = lat.fc3
    if compact:
        fc3 = fc3[ph3.primitive.p2s_map]
    lat2 = lat if ph3.phonon_supercell is ph3.supercell or (
        len(ph3.phonon_supercell) == len(ph3.supercell)) else lattice(
            name, ph3.phonon_supercell, anh=0.0, soft=soft, pin=pin)
    fc2 = lat2.fc2
    if compact:
        fc2 = fc2[ph3.phonon_primitive.p2s_map]
    ph3.fc3 = np.array(fc3, dtype="double", order="C")
    ph3.fc2 = np.array(fc2, dtype="double", order="C")
    return lat


# supercells that keep the point group of the crystal, <= 32 atoms: [(prim?, dim), ...]
_I = [-1, 1, 1], [1, -1, 1], [1, 1, -1]
DIMS = {
    "diamond": [(0, (1, 1, 1)), (1, (2, 2, 2))],
    "nacl": [(0, (1, 1, 1)), (1, (2, 2, 2))],
    "zincblende": [(0, (1, 1, 1)), (1, (2, 2, 2))],
    "fcc": [(0, (1, 1, 1)), (0, (2, 2, 2)), (1, (2, 2, 2)), (1, (3, 3, 3))],
    "bcc": [(0, (2, 2, 2)), (1, (2, 2, 2))],
    "cscl": [(0, (2, 2, 2))],
    "sc": [(0, (2, 2, 2)), (0, (3, 3, 3))],
    "perovskite": [(0, (1, 1, 1))],
    "wurtzite": [(0, (2, 2, 1)), (0, (2, 2, 2))],
    "hcp": [(0, (2, 2, 2)), (0, (3, 3, 1))],
    "omega": [(0, (2, 2, 2)), (0, (2, 2, 1))],
    "quartzlike": [(0, (2, 2, 2)), (0, (2, 2, 1))],
    "rhomb": [(0, (2, 2, 1)), (1, (2, 2, 2))],
    "rutile": [(0, (1, 1, 2)), (0, (2, 2, 1))],
    "bct": [(0, (2, 2, 2)), (1, (2, 2, 2))],
    "orthoP": [(0, (2, 2, 2)), (0, (3, 2, 2)), (0, (2, 1, 3))],
    "orthoC": [(0, (2, 2, 2)), (0, (2, 2, 3)), (1, (2, 2, 2))],
    "mono": [(0, (2, 2, 2)), (0, (2, 3, 2))],
    "tric": [(0, (2, 2, 2)), (0, (2, 3, 2))],
    "tric1": [(0, (2, 2, 2)), (0, (3, 2, 2)), (0, (3, 2, 4))],
    "p1": [(0, (2, 2, 2))],
    "chiralcubic": [(0, (2, 2, 2)), (0, (1, 1, 1))],
}


def primcell(name):
    """The primitive cell of the toy crystal as an input cell."""
    from phonopy.structure.cells import get_primitive

    c = unitcell(name)
    pm = centring(name)
    if pm == "P":
        return c
    p = get_primitive(c, pm)
    return PhonopyAtoms(cell=p.cell, symbols=p.symbols, scaled_positions=p.scaled_positions)


def setting(name, i=0, **kw):
    """kwargs (cell, dim, primitive) of the i-th supercell choice of a crystal."""
    prim, dim = DIMS[name][i % len(DIMS[name])]
    if prim:
        return dict(cell=primcell(name), dim=dim, primitive="P", **kw)
    return dict(dim=dim, **kw)
