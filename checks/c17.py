"""Symmetrization of force constants: projectors, compact/full consistency, sum rules."""

import contextlib
import io
import itertools
import re

import numpy as np

from harness import models as M
from harness.core import Skip

PROP = "C17"
RULE = ("A case takes random or perturbed third- and second-order force constants (invariant under the lattice "
        "translations only, or under the whole space group) of a random supercell in full and compact form and "
        "applies the symmetrization, expansion, truncation and drift operations to both; it is non-trivial when "
        "the results were compared with an independent projector.")
REQUIRED = {"permutation": 60, "translation": 60, "compact-full": 100, "fixed-point": 60, "spacegroup": 20,
            "api": 60, "drift": 40, "produce": 20, "expand": 20, "cutoff": 20}
ASSUMPTIONS = ["projectors of index permutation and of the sum rules written with numpy on the full array"]
NAMES = [n for n in M.NAMES]


def cases(tier, rng):
    out = []
    n = 200 if tier == "quick" else 3000
    for i in range(n):
        out.append(dict(kind=["rand", "rand", "produce", "cli"][i % 4], name=NAMES[int(rng.integers(len(NAMES)))],
                        set=int(rng.integers(4)), amp=float(rng.choice([1e-6, 1e-2, 1.0, 100.0])),
                        smat=[[int(x) for x in r] for r in rng.integers(-1, 2, size=(3, 3)) + np.diag(rng.integers(0, 3, size=3))],
                        o=int(rng.integers(10 ** 6))))
    return out


def translations(p):
    """Permutations of supercell atoms by the lattice translations of the primitive cell:
    perm[t][a] = atom at x_a + t (own search by positions)."""
    sc = p.supercell
    x = np.array(sc.scaled_positions)
    same = [j for j in range(len(x)) if p.primitive.s2p_map[j] == p.primitive.p2s_map[0]]
    out = []
    for j in same:
        t = x[j] - x[p.primitive.p2s_map[0]]
        d = (x + t)[:, None] - x[None]
        d -= np.rint(d)
        k = np.argmin((d @ sc.cell).__pow__(2).sum(-1), axis=1)
        out.append(k)
    return np.array(out)


def self_paired(perms):
    """Whether some lattice translation of the supercell is its own inverse."""
    e = np.arange(perms.shape[1])
    return any((g[g] == e).all() and (g != e).any() for g in perms)


def defect(f, perms):
    """Translational invariance of compact fc3 with the known defect: exchanging the first two indices
    leaves the pairs of atoms alone that differ by a self-inverse lattice translation."""
    e = np.arange(perms.shape[1])
    pairs = [g for g in perms if (g[g] == e).all() and (g != e).any()]

    def t(x):
        y = x.transpose(1, 0, 2, 4, 3, 5).copy()
        for g in pairs:
            y[e, g] = x[e, g]
        return y

    f = t(f)
    f = t(f - f.mean(axis=1, keepdims=True))
    f = f - f.mean(axis=1, keepdims=True)
    return f - f.mean(axis=2, keepdims=True)


def compare_compact(mon, cl, got, want, bad, atol, key, sp):
    """want: specified; bad: outcome of the known defect (only where self-paired translations exist)."""
    if sp and np.shape(got) == np.shape(bad) and np.abs(got - bad).max() <= atol and np.abs(got - want).max() > atol:
        mon.check(cl, False, f"{key}: max deviation {np.abs(got - want).max():.3e} from the full form",
                  key="compact-transpose:self-paired")
    else:
        mon.close(cl, got, want, atol=atol, key=key)


def random_fc(p, perms, rng, order):
    n = len(p.supercell)
    f = rng.normal(size=(n,) * order + (3,) * order)
    acc = np.zeros_like(f)
    for g in perms:
        acc += f[np.ix_(*[g] * order)]
    return acc / len(perms)


def sym_perm(f):
    o = f.ndim // 2
    acc = np.zeros_like(f)
    for q in itertools.permutations(range(o)):
        acc += f.transpose(*q, *[o + k for k in q])
    return acc / len(list(itertools.permutations(range(o))))


def sym_trans(f):
    for ax in range(f.ndim // 2):
        f = f - f.mean(axis=ax, keepdims=True)
    return f


def drift(f):
    return [np.abs(f.sum(axis=ax)).max() for ax in range(3)]


def project(c):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    if c["kind"] == "rand":
        smat = np.array(c["smat"])
        if np.linalg.det(smat) < 0.5:
            smat[0] *= -1
        if not 0.5 < np.linalg.det(smat) < 8.5:
            smat = np.roll([[1, c["o"] % 3, 0], [0, [1, 3, 5][c["o"] % 3], 0], [0, 0, 1]], c["o"] % 3, (0, 1))
        cell, prim = (M.primcell(c["name"]), "P") if c["o"] & 1 else (M.unitcell(c["name"]), M.centring(c["name"]))
    else:
        smat = np.diag(s["dim"])
        cell = s.get("cell") or M.unitcell(c["name"])
        prim = s.get("primitive", "auto")
        prim = M.centring(c["name"]) if prim == "auto" else prim
    p = Phono3py(cell, supercell_matrix=smat, primitive_matrix=prim)
    if len(p.supercell) > 16:
        raise Skip("large")
    return p


def C(x):
    return np.array(x, dtype="double", order="C")


def rand(c, mon, rng):
    from phono3py.phonon3 import fc3 as F

    p = project(c)
    perms = translations(p)
    m = p.primitive.p2s_map
    n = len(p.supercell)
    f3 = random_fc(p, perms, rng, 3) * c["amp"]
    f2 = random_fc(p, perms, rng, 2) * c["amp"]
    if c["o"] & 2:  # perturbation of a physical array
        lat = M.lattice(c["name"], p.supercell)
        f3 = lat.fc3 + 0.1 * f3
        f2 = lat.fc2 + 0.1 * f2
    s3, s2 = (max(np.abs(f).max(), 1.0 if c["o"] & 2 else c["amp"]) for f in (f3, f2))
    a3, a2 = s3 * 1e-12, s2 * 1e-12
    P3, T3 = sym_perm(f3), sym_trans(f3)
    # known finding: transposition of compact fc3 (see known_findings.txt)
    sp = self_paired(perms)
    B3 = defect(f3, perms)
    mon.events["supercells-self-paired" if sp else "supercells-not-self-paired"] += 1
    mon.sig("rand", c["name"], n, len(m), c["o"] & 3)

    def both(name, full, comp, want, atol=a3):
        """apply to full and compact, compare each with the projector"""
        x, y = C(f3), C(f3[m])
        full(x)
        comp(y)
        cl = "permutation" if name == "perm" else "translation" if name == "trans" else "compact-full"
        mon.close(cl, x, want, atol=atol, key=f"{cl}:full:{name}")
        bad = want if name == "perm" else B3 if name == "trans" else sym_perm(B3)
        compare_compact(mon, "compact-full", y, want[m], bad[m], atol, f"compact-full:{name}", sp)
        x2, y2 = C(x), C(y)
        full(x2)
        comp(y2)
        mon.close("fixed-point", x2, x, atol=atol * 2, key=f"fixed-point:full:{name}")
        if name == "perm" or not sp:
            mon.close("fixed-point", y2, y, atol=atol * 2, key=f"fixed-point:compact:{name}")
        return x, y

    both("perm", F.set_permutation_symmetry_fc3,
         lambda y: F.set_permutation_symmetry_compact_fc3(y, p.primitive), P3)
    both("trans", F.set_translational_invariance_fc3,
         lambda y: F.set_translational_invariance_compact_fc3(y, p.primitive), T3)

    def fullboth(x):
        F.set_translational_invariance_fc3(x)
        F.set_permutation_symmetry_fc3(x)

    def compboth(y):
        F.set_translational_invariance_compact_fc3(y, p.primitive)
        F.set_permutation_symmetry_compact_fc3(y, p.primitive)

    x, y = both("both", fullboth, compboth, sym_perm(T3))
    mon.check("translation", max(drift(x)) <= s3 * n * 1e-12, f"drift {drift(x)}", key="translation:after-both")
    mon.close("permutation", x, sym_perm(x), atol=a3, key="permutation:after-both")

    # API
    for compact in (False, True):
        for meth, g3, g2 in (("set_permutation_symmetry", P3, sym_perm(f2)),
                             ("set_translational_invariance", T3, sym_trans(f2))):
            p.fc3 = C(f3[m] if compact else f3)
            p.fc2 = C(f2[m] if compact else f2)
            getattr(p, meth)()
            if p.fc3.shape != (g3[m] if compact else g3).shape:
                mon.check("api", False, "shape", key=f"api:{meth}:shape")
                continue
            k = f"{meth}:{'compact' if compact else 'full'}"
            b3 = (B3 if meth == "set_translational_invariance" else g3)
            compare_compact(mon, "api", p.fc3, g3[m] if compact else g3, b3[m] if compact else b3, a3, f"api:fc3:{k}", sp)
            mon.close("api", p.fc2, g2[m] if compact else g2, atol=a2, key=f"api:fc2:{k}")

    # reported drifts, arrays unchanged
    for compact in (False, True):
        z = C(f3[m] if compact else f3)
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            F.show_drift_fc3(z, primitive=p.primitive)
        mon.close("drift", z, f3[m] if compact else f3, atol=a3, key="drift:modifies")
        v = [abs(float(t)) for t in re.findall(r"(-?\d+\.\d+) \(", b.getvalue())]
        mon.check("drift", len(v) == 3, b.getvalue(), key="drift:format")
        if len(v) == 3:
            d = drift(f3)
            if sp and compact:
                # exchange of self-paired atoms (known finding): the first drift is not that of the first index
                v, d = v[1:], d[1:]
            mon.close("drift", v, d, rtol=1e-9, atol=6e-7, key=f"drift:{'compact' if compact else 'full'}")

    # distribution of rows by symmetry: full array from the rows of the primitive cell
    sym = p.symmetry
    lattice = p.supercell.cell.T
    rot = sym.symmetry_operations["rotations"]
    z = np.zeros_like(f3, order="C")
    z[m] = f3[m]
    for i in m:
        own = np.array([k for k in range(n) if p.primitive.s2p_map[k] == i and k != i], dtype=int)
        F.distribute_fc3(z, np.array([i]), own, lattice, rot, sym.atomic_permutations, np.arange(n, dtype="int64"))
    mon.close("expand", z, f3, atol=a3, key="expand:translations")

    # symmetric arrays are fixed points; a function of the whole space group stays invariant
    lat = M.lattice(c["name"], p.supercell)
    sl = max(np.abs(lat.fc3).max(), 1.0) * 1e-12 * n
    for compact in (False, True):
        p.fc3 = C(lat.fc3[m] if compact else lat.fc3)
        p.fc2 = C(lat.fc2[m] if compact else lat.fc2)
        p.set_permutation_symmetry()
        p.set_translational_invariance()
        mon.close("fixed-point", p.fc3, lat.fc3[m] if compact else lat.fc3, atol=sl, key="fixed-point:physical:fc3")
        mon.close("fixed-point", p.fc2, lat.fc2[m] if compact else lat.fc2, atol=max(np.abs(lat.fc2).max(), 1.0) * 1e-12 * n,
                  key="fixed-point:physical:fc2")
    # truncation acts on compact and full alike
    d = p.supercell.scaled_positions
    rc = float(np.linalg.norm(p.supercell.cell, axis=1).min() * rng.uniform(0.3, 0.9))
    p.fc3 = C(f3)
    p.cutoff_fc3_by_zero(rc)
    x = p.fc3.copy()
    p.fc3 = C(f3[m])
    p.cutoff_fc3_by_zero(rc)
    mon.equal("cutoff", p.fc3, x[m], key="cutoff:compact-full")
    mon.check("cutoff", bool(np.all((x == 0) | (x == f3))), "values changed", key="cutoff:values")
    mon.close("cutoff", sym_perm((x != 0).astype(float)) * 1.0, np.where(np.abs(f3) > 0, (x != 0).astype(float), 0),
              atol=1e-9, key="cutoff:asymmetric")


def rotate(f, p, op):
    """Space-group image of full force constants."""
    R, perm, order = op[0], op[1], f.ndim // 2
    # f'(g i, g j, g k) = R f(i, j, k)
    out = np.zeros_like(f)
    g = np.ix_(*[perm] * order)
    if order == 3:
        out[g] = np.einsum("ad,be,cf,ijkdef->ijkabc", R, R, R, f, optimize=True)
    else:
        out[g] = np.einsum("ad,be,ijde->ijab", R, R, f, optimize=True)
    return out


def operations(p):
    sc = p.supercell
    x = np.array(sc.scaled_positions)
    ops = p.symmetry.symmetry_operations
    L = sc.cell.T
    out = []
    for r, t in zip(ops["rotations"], ops["translations"]):
        y = x @ r.T + t
        d = y[:, None] - x[None]
        d -= np.rint(d)
        k = np.argmin((d ** 2).sum(-1), axis=1)
        out.append((L @ r @ np.linalg.inv(L), k))
    return out


def produce(c, mon, rng):
    """Noisy forces: the produced arrays have the invariances that are claimed."""
    from checks.c15 import pair_displacements

    p = project(c)
    n = len(p.supercell)
    p.generate_displacements(distance=0.03)
    nd = len(p.supercells_with_displacements)
    if nd * n ** 3 > 1.5e6:
        raise Skip("large")
    lat = M.lattice(c["name"], p.supercell)
    u = pair_displacements(p.dataset)[0]
    F = np.array([lat.forces(x) for x in u])
    F += rng.normal(size=F.shape) * 1e-3
    p.forces = F
    m = p.primitive.p2s_map
    p.produce_fc3()
    raw3, raw2 = p.fc3, p.fc2
    p.fc2 = None
    p.produce_fc3(is_compact_fc=True)
    s3 = max(np.abs(raw3).max(), 1.0)
    s2 = max(np.abs(raw2).max(), 1.0)
    mon.close("produce", p.fc3, raw3[m], atol=s3 * 1e-11, key="produce:raw-compact")
    mon.close("produce", p.fc2, raw2[m], atol=s2 * 1e-12, key="produce:raw-compact-fc2")
    p.fc2 = None
    p.produce_fc3(symmetrize_fc3r=True)
    x3, x2 = p.fc3, p.fc2
    p.fc2 = None
    p.produce_fc3(symmetrize_fc3r=True, is_compact_fc=True)
    perms = translations(p)
    compare_compact(mon, "produce", p.fc3, x3[m], sym_perm(defect(raw3, perms))[m], s3 * 1e-11,
                    "produce:sym-compact", self_paired(perms))
    mon.close("produce", x3, sym_perm(sym_trans(raw3)), atol=s3 * 1e-11, key="produce:projector")
    mon.check("produce", max(drift(x3)) <= s3 * n * 1e-11, f"{drift(x3)}", key="produce:sum-rule")
    mon.close("produce", x2, sym_perm(x2), atol=s2 * 1e-11, key="produce:fc2-permutation")
    mon.close("produce", x2.sum(axis=0), 0 * x2.sum(axis=0), atol=s2 * n * 1e-11, key="produce:fc2-sum-rule")
    mon.close("produce", x2.sum(axis=1), 0 * x2.sum(axis=1), atol=s2 * n * 1e-11, key="produce:fc2-sum-rule")
    # an existing fc2 is not touched
    q = C(raw2) + 1.0
    p.fc2 = q.copy()
    p.produce_fc3(symmetrize_fc3r=True)
    mon.equal("produce", p.fc2, q, key="produce:fc2-overwritten")
    ops = operations(p)
    if len(ops) > 64:
        ops = [ops[k] for k in rng.permutation(len(ops))[:64]]
    for op in ops:
        mon.close("spacegroup", rotate(raw2, p, op), raw2, atol=s2 * 1e-10, key="spacegroup:raw-fc2")
        mon.close("spacegroup", rotate(raw3, p, op), raw3, atol=s3 * 1e-9, key="spacegroup:raw-fc3")
        mon.close("spacegroup", rotate(x3, p, op), x3, atol=s3 * 1e-9, key="spacegroup:sym-fc3")
        mon.close("spacegroup", rotate(x2, p, op), x2, atol=s2 * 1e-10, key="spacegroup:sym-fc2")
    mon.sig("produce", c["name"], n, nd, len(ops))


def cli(c, mon, rng):
    """The symmetrization on reading force-constant files is that of the arrays in memory."""
    from types import SimpleNamespace

    from phono3py.cui.create_force_constants import _read_phono3py_fc2, _read_phono3py_fc3
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    p = project(c)
    perms = translations(p)
    m = p.primitive.p2s_map
    f3 = random_fc(p, perms, rng, 3) * c["amp"]
    f2 = random_fc(p, perms, rng, 2) * c["amp"]
    s3, s2 = (max(np.abs(f).max(), c["amp"]) for f in (f3, f2))
    res = {}
    for compact in (False, True):
        write_fc3_to_hdf5(C(f3[m] if compact else f3), p2s_map=m)
        write_fc2_to_hdf5(C(f2[m] if compact else f2), p2s_map=m)
        for sym in (False, True):
            _read_phono3py_fc3(p, sym, None, 0)
            _read_phono3py_fc2(p, sym, None, 0)
            w3 = sym_perm(sym_trans(f3)) if sym else f3
            k = f"{'compact' if compact else 'full'}:sym{sym}"
            b3 = sym_perm(defect(f3, perms)) if sym else f3
            compare_compact(mon, "api", p.fc3, w3[m] if compact else w3, b3[m] if compact else b3, s3 * 1e-12,
                            f"api:read-fc3:{k}", self_paired(perms))
            res[compact, sym] = p.fc2.copy()
    mon.equal("compact-full", res[True, False], res[False, False][m], key="compact-full:read-fc2")
    x = res[False, True]
    mon.close("permutation", x, sym_perm(x), atol=s2 * 1e-12, key="permutation:read-fc2")
    mon.sig("cli", c["name"], len(p.supercell))


def run(c, mon):
    rng = np.random.default_rng(c["o"])
    {"rand": rand, "produce": produce, "cli": cli}[c["kind"]](c, mon, rng)
