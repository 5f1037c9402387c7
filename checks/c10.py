"""C10: independence of the crystal setting and of the use of mesh symmetry."""

import numpy as np

from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C10"
RULE = (
    "random crystal, supercell, mesh; reference run with symmetry, then the same crystal "
    "without mesh symmetry / k-star / any symmetry, and the same crystal rotated, translated, "
    "atoms permuted, basis changed by a unimodular matrix (incl. conventional <-> primitive "
    "input cell), force constants carried over by the geometric atom mapping; frequencies, "
    "linewidths, isotope rates, joint DOS per q-point and kappa tensor compared; distinct by "
    "(crystal, mesh, transformation, options)"
)
REQUIRED = {"freq": 3000, "gamma": 3000, "isotope": 3000, "jdos": 2000,
            "kappa": 200, "speed": 2000}
TRANSFORMS = ["ms", "kstar", "nosym", "rot", "shift", "perm", "basis", "all", "basis", "rot"]


def cases(tier, rng):
    n = 400 if tier == "quick" else 1500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 6, max_atoms=3 if i % 8 else 4,
                   min_mesh=2)
        c["var"] = TRANSFORMS[i % len(TRANSFORMS)]
        c["r0"] = bool(rng.integers(4))
        if c["var"] in ("basis", "all"):
            c["nac"] = False  # phonopy's reciprocal sum is truncated differently in skewed bases
        elif i % 3 == 0:
            c["name"] = ["tric", "tric1", "p1", "mono", "orthoP"][int(rng.integers(5))]
            c["nac"] = False
        if c["var"] in ("basis", "all"):
            if not c["grg"]:
                c["mesh"] = [int(rng.integers(2, 5))] * 3
        c["sigma"] = float(rng.uniform(0.15, 0.9))
        c["scut"] = [None, 4.0][int(rng.integers(2))]
        c["T"] = [float(rng.choice([5, 50, 300, 1000]))]
        c["bmfp"] = [None, 0.5][int(rng.integers(2))]
        out.append(c)
    return out


def transform(p, var, rng, c):
    """A new Phono3py object for the transformed crystal and the rotation matrix."""
    from phono3py import Phono3py
    from phonopy.structure.atoms import PhonopyAtoms

    R = np.eye(3)
    prim = p.primitive
    if var == "basis":
        base = prim
    else:
        base = p.unitcell if var != "all" or c["grg"] else prim
    cell, pos = np.array(base.cell), np.array(base.scaled_positions)
    sym = list(base.symbols)
    masses = np.array(base.masses)
    pm = p.primitive_matrix if base is p.unitcell else np.eye(3)
    smat = np.array(p.supercell_matrix) if base is p.unitcell else np.rint(
        np.linalg.inv(prim.cell).T @ p.supercell.cell.T).astype(int)
    perm = np.arange(len(pos))
    U = np.eye(3, dtype=int)
    if var in ("rot", "all"):
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        R = q * np.sign(np.linalg.det(q))
        cell = cell @ R.T
    if var in ("basis", "all") and not c["grg"] and base is prim:
        for _ in range(int(rng.integers(1, 4))):
            E = np.eye(3, dtype=int)
            i, j = rng.permutation(3)[:2]
            E[i, j] = rng.choice([-1, 1])
            U = U @ E
        cell = U.T @ cell  # new rows: combinations of old ones
        pos = pos @ np.linalg.inv(U.T)
        smat = np.rint(np.linalg.inv(U) @ smat).astype(int)
    if var in ("shift", "all"):
        pos = pos + rng.uniform(-1, 1, size=3)
    if var in ("perm", "all"):
        perm = rng.permutation(len(pos))
    pos = (pos % 1.0)[perm]
    uc = PhonopyAtoms(cell=cell, symbols=[sym[i] for i in perm], scaled_positions=pos,
                      masses=masses[perm])
    kw = dict(cutoff_frequency=p.phph_interaction.cutoff_frequency if p.phph_interaction else 1e-4)
    new = Phono3py(uc, supercell_matrix=smat, primitive_matrix=pm, make_r0_average=c["r0"],
                   use_grg=c["grg"], is_symmetry=var != "nosym",
                   is_mesh_symmetry=var != "ms",
                   **({"SNF_coordinates": c["snf"]} if c["grg"] else {}), **kw)
    # --- carry force constants over
    s1, s2 = p.supercell, new.supercell
    inv = np.linalg.inv(s1.cell)
    x1 = s1.positions
    x2 = s2.positions @ R  # rotated back
    d0 = None
    for i in range(len(x1)):  # translation taking atom 0 of the new cell onto atom i
        t = x1[i] - x2[0]
        d = (x2[:, None] + t - x1[None]) @ inv
        d -= np.rint(d)
        m = (np.linalg.norm(d @ s1.cell, axis=2) < 1e-4)
        if (m.sum(1) == 1).all() and (m.sum(0) == 1).all():
            mp = m.argmax(1)
            if all(s1.symbols[mp[k]] == s2.symbols[k] for k in range(len(x2))):
                d0 = mp
                break
    if d0 is None:
        raise Skip("transformed cell not matched")
    fc2 = p.fc2[np.ix_(d0, d0)]
    fc2 = np.einsum("ab,cd,ijbd->ijac", R, R, fc2)
    fc3 = p.fc3[np.ix_(d0, d0, d0)]
    fc3 = np.einsum("ad,be,cf,ijkdef->ijkabc", R, R, R, fc3, optimize=True)
    if c["compact"] and var != "nosym":
        k = new.primitive.p2s_map
        fc2, fc3 = fc2[k], fc3[k]
    new.fc2 = np.array(fc2, order="C")
    new.fc3 = np.array(fc3, order="C")
    if p.nac_params is not None:
        s2p = {int(a): i for i, a in enumerate(prim.p2s_map)}
        idx = [s2p[int(prim.s2p_map[d0[k]])] for k in new.primitive.p2s_map]
        n = p.nac_params
        born = np.einsum("ab,cd,ibd->iac", R, R, np.array(n["born"])[idx])
        new.nac_params = {"born": born, "dielectric": R @ np.array(n["dielectric"]) @ R.T,
                          "factor": n["factor"]}
    idx = [list(prim.p2s_map).index(prim.s2p_map[d0[k]]) for k in new.primitive.p2s_map]
    return new, R, idx


def qcart(p, gps):
    g = p.grid
    q = np.array(g.addresses)[gps] @ np.array(g.QDinv).T
    return q @ np.linalg.inv(p.primitive.cell).T


def locate(p, k):
    """BZ indices of grid points of p at the cartesian wave vectors k (mod G)."""
    g = p.grid
    q = k @ np.array(p.primitive.cell).T
    Qi = np.rint(np.linalg.inv(np.array(g.Q))).astype(int)
    D = np.array(g.D_diag)
    a = q @ Qi.T * D
    if np.abs(a - np.rint(a)).max() > 1e-5:
        return None
    a = np.rint(a).astype(int) % D
    i = a[:, 0] + D[0] * (a[:, 1] + D[1] * a[:, 2])
    return np.array(g.grg2bzg)[i]


def tensor(x):
    xx, yy, zz, yz, xz, xy = np.moveaxis(np.asarray(x), -1, 0)
    return np.stack([np.stack([xx, xy, xz], -1), np.stack([xy, yy, yz], -1),
                     np.stack([xz, yz, zz], -1)], -2)


def groups(x, f):
    """Average over degenerate modes (a single one depends on the choice of eigenvectors)."""
    out = np.array(x)
    for i in range(len(f)):
        lo = 0
        for b in range(1, f.shape[1] + 1):
            if b == f.shape[1] or f[i, b] - f[i, b - 1] > 1e-4:
                out[i, lo:b] = out[i, lo:b].mean()
                lo = b
    return out


def run(c, mon):
    from phono3py import Phono3pyJointDos
    from phono3py.phonon.grid import get_ir_grid_points

    rng = np.random.default_rng(c["seed"])
    p = ph.build(dict(c, compact=False))
    if p is None:
        raise Skip("mesh refused")
    if ph.ngrid(p) > 130:
        raise Skip("large mesh")
    var = c["var"]
    new, R, idx = transform(p, var, rng, c)
    if c["compact"]:
        k = p.primitive.p2s_map
        p.fc2, p.fc3 = np.array(p.fc2[k], order="C"), np.array(p.fc3[k], order="C")
    if c["grg"] and var in ("rot", "shift", "perm", "ms", "kstar"):
        new.mesh_numbers = c["mesh"]
    elif p.grid.grid_matrix is not None:
        try:
            # the same q-mesh expressed on the new primitive basis
            G = np.array(p.grid.grid_matrix)
            T = new.primitive.cell @ R @ np.linalg.inv(p.primitive.cell)
            T = np.rint(T).astype(int)  # rows of the new basis in the old one
            new.mesh_numbers = np.rint(G @ np.linalg.inv(T)).astype(int)
        except RuntimeError as e:
            raise Skip(str(e)) from e
    else:
        new.mesh_numbers = p.mesh_numbers
    if ph.ngrid(new) != ph.ngrid(p):
        raise Skip("other mesh")
    gr = np.array(new.grid.grg2bzg)
    loc = locate(p, qcart(new, gr) @ R)
    if loc is None or len(set(loc.tolist())) != len(loc):
        raise Skip("other q-points")
    nir = len(get_ir_grid_points(p.grid)[0])
    sig = [c["sigma"]]
    kinds = sorted(set(p.primitive.symbols))
    mv = np.array([2e-3 * (1 + kinds.index(x)) for x in p.primitive.symbols])
    res = []
    for o, m in ((p, mv), (new, mv[idx])):
        o.sigmas = sig
        o.sigma_cutoff = c["scut"]
        o.init_phph_interaction()
        o.run_thermal_conductivity(temperatures=c["T"], is_isotope=True, mass_variances=m,
                                   boundary_mfp=c["bmfp"],
                                   is_kappa_star=not (o is new and var in ("ms", "kstar")))
        res.append(o.thermal_conductivity)
    t1, t2 = res
    # map points of the transformed run to the irreducible points of the reference
    gmap = np.array(get_ir_grid_points(p.grid)[2])
    irpos = {int(p.grid.bzg2grg[g]): i for i, g in enumerate(t1.grid_points)}
    pos2 = {int(g): i for i, g in enumerate(gr)}
    sel = [pos2[int(gr[new.grid.bzg2grg[g]])] for g in t2.grid_points]
    back = [irpos[int(gmap[p.grid.bzg2grg[loc[s]]])] for s in sel]
    f1, f2 = np.array(t1.frequencies)[back], np.array(t2.frequencies)
    sc = np.abs(f1).max()
    # acoustic modes at Gamma are sqrt(rounding): compare squares
    nacg = p.nac_params is not None
    mon.close("freq", f2 * np.abs(f2), f1 * np.abs(f1), rtol=1e-5 if nacg else 1e-9, scale=sc**2)
    rt = 1e-4 if nacg else 3e-7
    g1, g2 = np.array(t1.gamma)[:, :, back], np.array(t2.gamma)
    gi1, gi2 = np.array(t1.gamma_isotope)[:, back], np.array(t2.gamma_isotope)
    # modes next to the cutoffs (degeneracy 1e-4 THz, frequency) may legitimately differ
    gap = np.abs(np.diff(f1, axis=1))
    bad = ((gap > 3e-5) & (gap < 3e-4)).any()
    if bad:
        raise Skip("quasi-degenerate modes")
    s = max(np.abs(g1[0]).max(), 1e-12)
    mon.close("gamma", g2[0], g1[0], rtol=rt, scale=s, key=f"gamma:{var}", detail=var)
    mon.close("isotope", groups(gi2[0], f1), groups(gi1[0], f1), rtol=rt, scale=max(np.abs(gi1[0]).max(), 1e-14),
              key=f"isotope:{var}", detail=var)
    ndeg = np.ones(f1.shape, bool)
    ndeg[:, 1:] &= gap > 1e-3
    ndeg[:, :-1] &= gap > 1e-3
    v1, v2 = (np.linalg.norm(np.array(t.group_velocities), axis=2) for t in (t1, t2))
    v1 = v1[back]
    kt = 1e-3 if nacg else 1e-6
    mon.close("speed", (v2 * ndeg), (v1 * ndeg), rtol=kt, atol=1e-4, scale=v1.max(),
              key=f"speed:{var}", detail=var)
    cut = 1e-4
    live = (f1 > cut) & (v1 > 1e-6 * v1.max()) & (v1 > 1e-3)
    alld = (ndeg | ~live).all()
    # every contributing mode must have a resolved linewidth
    gs = (g1[0, 0] + gi1[0])
    if live.any() and alld and gs[live].size and gs[live].min() > 1e-9:
        k1, k2 = np.array(t1.kappa)[0, 0], np.array(t2.kappa)[0, 0]
        want = R @ tensor(k1) @ R.T
        mon.close("kappa", tensor(k2), want, rtol=100 * kt, scale=np.abs(want).max() or 1e-30,
                  key=f"kappa:{var}", detail=var)
    # joint DOS at corresponding points
    if p.nac_params is None:
        pick = rng.permutation(len(sel))[:2]
        js = []
        for k in pick:
            two = []
            for o, gp in ((p, t1.grid_points[back[k]]), (new, t2.grid_points[k])):
                mesh = o.mesh_numbers if o.grid.grid_matrix is None else np.array(
                    o.grid.grid_matrix)
                j = Phono3pyJointDos(
                    o.phonon_supercell, o.phonon_primitive, o.fc2, mesh=mesh,
                    sigmas=[c["sigma"]], temperatures=[None, c["T"]][c["seed"] % 2],
                    num_frequency_points=15, use_grg=c["grg"],
                    **({"SNF_coordinates": c["snf"]} if c["grg"] else {}),
                    is_symmetry=not (o is new and var == "nosym"),
                    is_mesh_symmetry=not (o is new and var == "ms"))
                if not np.array_equal(j.grid.addresses[gp], o.grid.addresses[gp]):
                    break
                j.run([gp])
                two.append((np.array(j.joint_dos), np.array(j.frequency_points)))
            js.append(two)
        for two in js:
            if len(two) == 2 and np.allclose(two[0][1], two[1][1], atol=1e-7):
                mon.close("jdos", two[1][0], two[0][0], rtol=1e-5,
                          scale=max(np.abs(two[0][0]).max(), 1e-12), key=f"jdos:{var}",
                          detail=var)
    mon.sig(c["name"], c["set"], tuple(np.array(p.mesh_numbers).tolist()), var, c["r0"],
            c["compact"], nir)
