"""Saved projects reload to the same model (save / load / force and force-constant files)."""

import pathlib

import numpy as np

from harness import models as M, ph
from harness.core import Skip

PROP = "C15"
RULE = ("A case builds a project (crystal, supercells, masses, magnetic moments, Born charges, a type-1 or "
        "type-2 dataset with exact forces of a cubic potential, energies, cutoff pairs, calculator units), "
        "writes it by one of the documented routes and loads it; it is non-trivial when the loaded object "
        "was compared as cells, datasets, force constants, dynamical matrices and interaction strengths.")
REQUIRED = {"cells": 200, "dataset": 300, "force-constants": 100, "dynmat": 100, "strength": 20,
            "nac": 10, "fc-file": 20, "units": 20, "refusal": 4}
ASSUMPTIONS = ["numbers are written with the decimals of the file formats; tolerances follow from them"]
NAMES = [n for n in M.NAMES if M.NATOM[n] <= 4]
# calculators whose native length or force unit is not Angstrom or eV/Angstrom
CALCS = [None, "vasp", "qe", "abinit", "elk", "turbomole", "siesta", "aims", "crystal", "dftbp", "wien2k"]


def cases(tier, rng):
    out = []
    n = 110 if tier == "quick" else 900
    for i in range(n):
        name = NAMES[int(rng.integers(len(NAMES)))]
        st = int(rng.integers(len(M.DIMS[name])))
        prim, dim = M.DIMS[name][st]
        ph2 = bool(rng.random() < 0.35) and not prim
        out.append(dict(kind=["t1", "t1", "t2", "files", "fc", "calc"][i % 6], name=name, set=st,
                        phdim=[int(x) + int(k) for k, x in enumerate(dim) if True][:3] if False else (
                            [int(x) for x in M.DIMS[name][int(rng.integers(len(M.DIMS[name])))][1]]
                            if ph2 else None),
                        nac=bool(name in M.POLAR and rng.random() < 0.6), compact=bool(rng.integers(2)),
                        energy=bool(rng.integers(2)), pm=[True, "auto"][int(rng.integers(2))],
                        diag=bool(rng.integers(2)), cut=bool(rng.random() < 0.4),
                        masses=bool(rng.random() < 0.3), mag=bool(rng.random() < 0.2),
                        calc=CALCS[int(rng.integers(len(CALCS)))], own=bool(rng.integers(2)),
                        t2=bool(rng.integers(2)), o=int(rng.integers(64))))
    return out


def project(c, rng, scale=1.0, calculator=None):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    cell = s.get("cell") or M.unitcell(c["name"])
    if c["mag"]:
        cell.magnetic_moments = [0.5] * len(cell)
    prim = s.get("primitive", "auto")
    pm = M.centring(c["name"]) if prim == "auto" else prim
    if scale != 1.0:
        cell = cell.copy()
        cell.cell = cell.cell * scale
    p = Phono3py(cell, supercell_matrix=np.diag(s["dim"]), primitive_matrix=pm,
                 phonon_supercell_matrix=None if not c["phdim"] else np.diag(c["phdim"]),
                 calculator=calculator)
    if len(p.supercell) > 24 or len(p.phonon_supercell) > 48:
        raise Skip("large")
    if c["masses"]:
        p.masses = np.array(p.masses) * np.random.default_rng(3).uniform(0.8, 1.2)
    if c["nac"]:
        p.nac_params = M.nac_params(c["name"], p.primitive)
    return p


def disp(p, c, rng, scale=1.0, type2=False):
    """Displacements and exact forces (of the model in Angstrom and eV)."""
    kw = {}
    if type2:
        nd = 6
        p.generate_displacements(distance=0.03 * scale, number_of_snapshots=nd, random_seed=int(rng.integers(1, 99)))
        if c["phdim"]:
            p.generate_fc2_displacements(distance=0.03 * scale, number_of_snapshots=4,
                                         random_seed=int(rng.integers(1, 99)))
    else:
        if c["cut"]:
            dmin = np.sort(np.unique(np.round(np.linalg.norm(
                np.concatenate([v for row in ph.min_images(p.primitive, p.supercell) for v in row])
                @ np.array(p.primitive.cell), axis=1), 4)))
            kw["cutoff_pair_distance"] = float(dmin[len(dmin) // 2]) + 0.05 * scale
        p.generate_displacements(distance=0.03 * scale, is_plusminus=c["pm"], is_diagonal=c["diag"], **kw)


def lattices(c, p, q=None):
    """Potential on the supercells in Angstrom (of the object q when p has other units)."""
    r = q or p
    a = M.lattice(c["name"], r.supercell)
    b = a if not c["phdim"] or len(r.phonon_supercell) == len(r.supercell) else M.lattice(
        c["name"], r.phonon_supercell, anh=0.0)
    return a, b


def pair_displacements(d):
    """Displacements of all supercells of a type-1 dataset (written from its definition)."""
    n = d["natom"]
    out, inc = [], []
    for x in d["first_atoms"]:
        u = np.zeros((n, 3))
        u[x["number"]] += x["displacement"]
        out.append(u)
        inc.append(True)
    for x in d["first_atoms"]:
        for y in x.get("second_atoms", []):
            u = np.zeros((n, 3))
            u[x["number"]] += x["displacement"]
            u[y["number"]] += y["displacement"]
            out.append(u)
            inc.append(y.get("included", True))
    return np.array(out), np.array(inc)


def give_forces(p, c, ref=None, s=1.0, f=1.0):
    """Exact forces; s: length unit in A (1/s natural units), f: eV/A per force unit."""
    la, lb = lattices(c, p, ref)
    d = p.dataset
    u, inc = (d["displacements"], None) if "displacements" in d else pair_displacements(d)
    F = np.array([la.forces(x * s) / f for x in u])
    if inc is not None:
        F[~inc] = 0
    E = np.array([la.energy(x * s) for x in u])
    p.forces = F
    if c["energy"]:
        p.supercell_energies = E
    if c["phdim"]:
        d = p.phonon_dataset
        u = d["displacements"] if "displacements" in d else pair_displacements(d)[0]
        p.phonon_forces = np.array([lb.forces(x * s) / f for x in u])
        if c["energy"]:
            p.phonon_supercell_energies = np.array([lb.energy(x * s) for x in u])


# ---------------------------------------------------------------------------
def same_cell(mon, a, b, what, scale=1.0):
    mon.close("cells", np.array(b.cell), np.array(a.cell) * scale, rtol=1e-12, atol=2e-14, key=f"cells:{what}:lattice")
    mon.equal("cells", np.array(b.numbers), np.array(a.numbers), key=f"cells:{what}:numbers")
    x = np.array(b.scaled_positions) - np.array(a.scaled_positions)
    x -= np.rint(x)
    mon.close("cells", x, np.zeros_like(x), atol=1e-13, key=f"cells:{what}:positions")
    mon.close("cells", np.array(b.masses), np.array(a.masses), rtol=1e-12, atol=1.1e-6, key=f"cells:{what}:masses")
    if a.magnetic_moments is not None:
        mon.check("cells", b.magnetic_moments is not None and np.allclose(
            a.magnetic_moments, b.magnetic_moments, atol=1e-7), "magmoms", key=f"cells:{what}:magmoms")


def same_cells(mon, p, q, scale=1.0):
    for w in ("unitcell", "supercell", "primitive", "phonon_supercell", "phonon_primitive"):
        same_cell(mon, getattr(p, w), getattr(q, w), w, scale)
    mon.equal("cells", q.supercell_matrix, p.supercell_matrix, key="cells:supercell_matrix")
    a, b = p.phonon_supercell_matrix, q.phonon_supercell_matrix
    mon.check("cells", (a is None) == (b is None) and (a is None or np.array_equal(a, b)), key="cells:phonon_supercell_matrix")
    mon.close("cells", q.primitive_matrix, p.primitive_matrix, atol=1e-12, key="cells:primitive_matrix")
    for w in ("p2s_map", "s2p_map"):
        for k in ("primitive", "phonon_primitive"):
            mon.equal("cells", getattr(getattr(q, k), w), getattr(getattr(p, k), w), key=f"cells:{k}.{w}")


def same_dataset(mon, a, b, what, s=1.0, f=1.0, forces=True, ftol=1e-14):
    if a is None or b is None:
        mon.check("dataset", a is None and b is None, f"{what}: {a is None} {b is None}", key=f"dataset:{what}:none")
        return
    if "displacements" in a:
        if not mon.check("dataset", "displacements" in b, "type", key=f"dataset:{what}:type"):
            return
        mon.close("dataset", b["displacements"], np.array(a["displacements"]) * s, atol=1e-8 if ftol > 1e-13 else 1e-15,
                  key=f"dataset:{what}:displacements")
        if forces and "forces" in a and mon.check("dataset", "forces" in b, key=f"dataset:{what}:forces-lost"):
            mon.close("dataset", b["forces"], np.array(a["forces"]) * f, rtol=1e-13, atol=ftol, key=f"dataset:{what}:forces")
        if forces and "supercell_energies" in a and ftol < 1e-12:
            mon.close("dataset", b.get("supercell_energies", np.zeros(0)), a["supercell_energies"], atol=1e-8,
                      key=f"dataset:{what}:energies")
        return
    if not mon.check("dataset", "first_atoms" in b and a["natom"] == b["natom"]
                     and len(a["first_atoms"]) == len(b["first_atoms"]), key=f"dataset:{what}:type"):
        return
    if "cutoff_distance" in a:
        mon.close("dataset", b.get("cutoff_distance", -1), a["cutoff_distance"] * s, atol=2e-8, key=f"dataset:{what}:cutoff")
    else:
        mon.check("dataset", "cutoff_distance" not in b, key=f"dataset:{what}:cutoff")
    if "duplicates" in a:
        mon.check("dataset", [list(x) for x in a["duplicates"]] == [list(x) for x in b.get("duplicates", [])],
                  key=f"dataset:{what}:duplicates")

    def one(x, y, w):
        mon.equal("dataset", y["number"], x["number"], key=f"dataset:{what}:{w}number")
        mon.close("dataset", y["displacement"], np.array(x["displacement"]) * s, atol=1e-15, rtol=1e-14,
                  key=f"dataset:{what}:{w}displacement")
        if forces and "forces" in x and mon.check("dataset", "forces" in y, key=f"dataset:{what}:{w}forces-lost"):
            mon.close("dataset", y["forces"], np.array(x["forces"]) * f, rtol=1e-13, atol=ftol,
                      key=f"dataset:{what}:{w}forces")
        if forces and "supercell_energy" in x and ftol < 1e-12:
            mon.close("dataset", y.get("supercell_energy", np.nan), x["supercell_energy"], atol=1e-8,
                      key=f"dataset:{what}:{w}energy")
        if "included" in x:
            mon.check("dataset", y.get("included", True) == x["included"], key=f"dataset:{what}:included")
        if "pair_distance" in x and s == 1.0:
            mon.close("dataset", y.get("pair_distance", -1), x["pair_distance"], atol=1e-8, key=f"dataset:{what}:pair_distance")

    for x, y in zip(a["first_atoms"], b["first_atoms"]):
        one(x, y, "")
        xs, ys = x.get("second_atoms", []), y.get("second_atoms", [])
        if mon.check("dataset", len(xs) == len(ys), key=f"dataset:{what}:pairs"):
            for u, v in zip(xs, ys):
                one(u, v, "2nd ")


def same_nac(mon, a, b, rtol=1e-6):
    if a is None or b is None:
        mon.check("nac", a is None and b is None, f"{a is None} {b is None}", key="nac:lost")
        return
    for k in ("born", "dielectric", "factor"):
        mon.close("nac", b[k], a[k], atol=1e-9, rtol=rtol if k == "factor" else 1e-12, key=f"nac:{k}")


def physics(mon, p, q, rng, rtol=1e-6, fc_rtol=1e-9):
    """Force constants, dynamical matrices and interaction strengths of two objects."""
    for w in ("fc2", "fc3"):
        a, b = getattr(p, w), getattr(q, w)
        mon.check("force-constants", a is not None and b is not None, w, key=f"fc:{w}:none")
        mon.close("force-constants", b, a, rtol=fc_rtol, atol=1e-11, key=f"fc:{w}")
    for x in (p, q):
        x.mesh_numbers = [2, 2, 2]
    for x in (p, q):
        x.init_phph_interaction()
    for k in rng.uniform(-1, 1, size=(4, 3)):
        d = []
        for x in (p, q):
            dm = x.dynamical_matrix
            dm.run(k)
            d.append(np.array(dm.dynamical_matrix))
        mon.close("dynmat", d[1], d[0], rtol=rtol, key="dynmat")
    if len(p.primitive) <= 2:
        gp = int(p.grid.grg2bzg[-1])
        out = []
        for x in (p, q):
            it = x.phph_interaction
            it.set_grid_point(gp)
            it.run()
            tri, w, _, _ = it.get_triplets_at_q()
            f, _, _ = it.get_phonons()
            # gauge independent: sum over all bands of each triplet
            out.append((np.array(it.interaction_strength).sum(axis=(1, 2, 3)), np.array(w),
                        np.abs(np.array(f)[np.array(tri)]).min(axis=(1, 2)) > 0.1))
        mon.equal("strength", out[1][1], out[0][1], key="strength:weights")
        if np.abs(p.fc3).max() > 1e-6:
            k = out[0][2]
            mon.close("strength", out[1][0][k], out[0][0][k], rtol=max(rtol, 10 * fc_rtol) * 30, atol=1e-20, key="strength")


def build_fc(p, c, sym, compact):
    p.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact)
    p.produce_fc2(symmetrize_fc2=sym, is_compact_fc=compact)


def solver_ok(c, p):
    """Traditional solver on type-1; symfc with type-2 is left to C16."""
    return "first_atoms" in p.dataset


def run(c, mon):
    globals()["k_" + c["kind"]](c, mon, np.random.default_rng(c["seed"]))


def after(c, mon, p, q, rng, tol=1e-9):
    sym = bool(c["o"] & 1)
    if solver_ok(c, p):
        for x in (p, q):
            build_fc(x, c, sym, c["compact"])
        physics(mon, p, q, rng, fc_rtol=tol)
    mon.sig(c["kind"], c["name"], c["set"], str(c["phdim"]), c["nac"], c["energy"], c["cut"], c["compact"],
            c["calc"] if c["kind"] == "calc" else "")


def k_t1(c, mon, rng, type2=False):
    import phono3py

    p = project(c, rng)
    disp(p, c, rng, type2=type2)
    with_forces = c["o"] % 4 != 0
    if with_forces:
        give_forces(p, c)
    p.save("p.yaml")
    q = phono3py.load("p.yaml", produce_fc=False, log_level=0)
    same_cells(mon, p, q)
    same_dataset(mon, p.dataset, q.dataset, "fc3")
    same_dataset(mon, p.phonon_dataset, q.phonon_dataset, "fc2")
    same_nac(mon, p.nac_params, q.nac_params)
    # the file of the loaded project is that of the saved one
    q.save("q.yaml")
    r = phono3py.load("q.yaml", produce_fc=False, log_level=0)
    same_dataset(mon, q.dataset, r.dataset, "again")
    if with_forces:
        after(c, mon, p, q, rng)
        if solver_ok(c, p) and c["o"] & 2:
            z = phono3py.load("p.yaml", is_compact_fc=c["compact"], symmetrize_fc=bool(c["o"] & 1), log_level=0)
            mon.close("force-constants", z.fc3, p.fc3, rtol=1e-9, atol=1e-11, key="fc:load-produce:fc3")
            mon.close("force-constants", z.fc2, p.fc2, rtol=1e-9, key="fc:load-produce:fc2")
    # without forces
    p.save("n.yaml", settings={"force_sets": False})
    n = phono3py.load("n.yaml", produce_fc=False, log_level=0)
    from phono3py.phonon3.dataset import forces_in_dataset

    mon.check("dataset", not forces_in_dataset(n.dataset), "forces written", key="dataset:force_sets-False")
    same_dataset(mon, p.dataset, n.dataset, "noforces", forces=False)
    if p.nac_params is not None:
        p.save("b.yaml", settings={"born_effective_charge": False, "dielectric_constant": False})
        z = phono3py.load("b.yaml", produce_fc=False, log_level=0)
        mon.check("nac", z.nac_params is None, key="nac:settings")
        z = phono3py.load("p.yaml", produce_fc=False, is_nac=False, log_level=0)
        mon.check("nac", z.nac_params is None, key="nac:is_nac-False")


def k_t2(c, mon, rng):
    k_t1(c, mon, rng, type2=True)


def k_files(c, mon, rng):
    """phono3py_disp.yaml + FORCES_FC3 / FORCES_FC2 (+ BORN)."""
    import phono3py
    from phono3py.file_IO import write_FORCES_FC2, write_FORCES_FC3

    p = project(c, rng)
    disp(p, c, rng, type2=c["t2"])
    p.save("phono3py_disp.yaml", settings={"force_sets": False})
    give_forces(p, c)
    own = c["own"]
    a = "F3.dat" if own else "FORCES_FC3"
    b = "F2.dat" if own else "FORCES_FC2"
    write_FORCES_FC3(p.dataset, filename=a)
    if c["phdim"]:
        write_FORCES_FC2(p.phonon_dataset, filename=b)
    kw = {}
    if own:
        kw = dict(forces_fc3_filename=a)
        if c["phdim"]:
            kw["forces_fc2_filename"] = b
    q = phono3py.load("phono3py_disp.yaml", produce_fc=False, log_level=0, **kw)
    same_cells(mon, p, q)
    same_dataset(mon, p.dataset, q.dataset, "FORCES_FC3", ftol=6e-9 if c["t2"] else 6e-11)
    if c["phdim"]:
        same_dataset(mon, p.phonon_dataset, q.phonon_dataset, "FORCES_FC2", ftol=6e-9 if c["t2"] else 6e-11)
    same_nac(mon, p.nac_params, q.nac_params)
    after(c, mon, p, q, rng, tol=1e-6)


def k_fc(c, mon, rng):
    """Force-constant files, picked up by default names or given."""
    import phono3py
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    p = project(c, rng)
    M.set_fc(p, c["name"], compact=c["compact"])
    comp = [None, "gzip", 4, "lzf"][c["o"] % 4]
    own = c["own"]
    a, b = ("a.hdf5", "b.hdf5") if own else ("fc3.hdf5", "fc2.hdf5")
    maps = (c["o"] // 4) % 4 != 0
    write_fc3_to_hdf5(p.fc3, filename=a, p2s_map=p.primitive.p2s_map if maps else None, compression=comp)
    write_fc2_to_hdf5(p.fc2, filename=b, p2s_map=p.phonon_primitive.p2s_map if maps else None, compression=comp)
    p.save("p.yaml")
    kw = dict(fc3_filename=a, fc2_filename=b) if own else {}
    q = phono3py.load("p.yaml", log_level=0, **kw)
    mon.equal("fc-file", q.fc3, p.fc3, key="fc-file:fc3")
    mon.equal("fc-file", q.fc2, p.fc2, key="fc-file:fc2")
    same_cells(mon, p, q)
    physics(mon, p, q, rng)
    mon.sig("fc", c["name"], c["set"], str(c["phdim"]), c["compact"], own, maps, str(comp), c["nac"])
    # force constants of another supercell or with another index map are refused
    bad = []
    if maps and c["compact"] and len(p.supercell) > len(p.primitive):
        m = np.array(p.primitive.p2s_map)
        write_fc3_to_hdf5(p.fc3, filename=a, p2s_map=m + 1)
        bad.append("p2s_map")
    else:
        write_fc3_to_hdf5(p.fc3[:, :-1, :-1].copy(), filename=a)
        bad.append("shape")
    try:
        phono3py.load("p.yaml", log_level=0, **kw)
        mon.check("refusal", False, f"{bad} accepted", key=f"refusal:{bad[0]}")
    except RuntimeError:
        mon.check("refusal", True)


def k_calc(c, mon, rng):
    """A project in the units of a calculator loads to the model in Angstrom and eV."""
    import phono3py
    from phono3py.file_IO import write_FORCES_FC2, write_FORCES_FC3
    from phonopy.interface.calculator import get_default_physical_units

    calc = c["calc"]
    u = get_default_physical_units(calc)
    s = u["distance_to_A"] or 1.0
    f = u["force_to_eVperA"] or 1.0
    ref = project(c, rng)  # the model in Angstrom
    p = project(c, rng, scale=1 / s, calculator=calc)
    if p.supercell.cell.shape != ref.supercell.cell.shape or not np.array_equal(
            p.primitive.p2s_map, ref.primitive.p2s_map):
        raise Skip("cells differ")
    disp(p, c, rng, scale=1 / s, type2=c["t2"])
    nac = p.nac_params
    p.nac_params = None
    if c["own"]:
        give_forces(p, c, ref, s, f)
        p.save("phono3py_disp.yaml")
    else:
        p.save("phono3py_disp.yaml", settings={"force_sets": False})
        give_forces(p, c, ref, s, f)
        write_FORCES_FC3(p.dataset, filename="FORCES_FC3")
        if c["phdim"]:
            write_FORCES_FC2(p.phonon_dataset, filename="FORCES_FC2")
    if nac is not None:
        from phonopy.file_IO import write_BORN  # noqa: F401
        born(ref)
    q = phono3py.load("phono3py_disp.yaml", produce_fc=False, log_level=0)
    mon.check("units", True, n=5)
    same_cells(mon, p, q, scale=s)
    tol = 1e-14 if c["own"] else 6e-11 if not c["t2"] else 6e-9
    same_dataset(mon, p.dataset, q.dataset, "calc", s=s, f=f, ftol=tol * max(1, f))
    if c["phdim"]:
        same_dataset(mon, p.phonon_dataset, q.phonon_dataset, "calc-fc2", s=s, f=f, ftol=tol * max(1, f))
    if nac is not None:
        # Born charges with force constants in eV/A^2 and lengths in A
        ref2 = dict(ref.nac_params, factor=14.399652)
        mon.close("nac", q.nac_params["factor"], ref2["factor"], rtol=1e-6, detail=str(calc), key="nac:units")
        mon.close("nac", q.nac_params["born"], ref2["born"], atol=1e-6, key="nac:BORN:born")
        mon.close("nac", q.nac_params["dielectric"], ref2["dielectric"], atol=1e-6, key="nac:BORN:dielectric")
    # exact force constants of the potential
    if solver_ok(c, p):
        la, lb = lattices(c, ref)
        build_fc(q, c, False, False)
        if not c["cut"]:
            mon.close("units", q.fc3, la.fc3, rtol=1e-7 if c["own"] else 3e-6, atol=1e-9, detail=str(calc), key="units:fc3")
        mon.close("units", q.fc2, lb.fc2, rtol=1e-7 if c["own"] else 1e-6, detail=str(calc), key="units:fc2")
        if c["cut"]:
            x = project(c, rng)
            disp(x, c, np.random.default_rng(0))
            x.dataset = dict(x.dataset, cutoff_distance=p.dataset["cutoff_distance"] * s)
            give_forces(x, c)
            build_fc(x, c, False, False)
            mon.close("units", q.fc3, x.fc3, rtol=1e-6 if c["own"] else 1e-5, atol=1e-9, detail=str(calc), key="units:fc3-cutoff")
    mon.sig("calc", c["name"], calc, c["t2"], c["own"], c["nac"], str(c["phdim"]), c["cut"])


def born(p):
    """BORN file written from its documented format: first line text, dielectric, independent atoms."""
    from phonopy.structure.symmetry import Symmetry

    n = p.nac_params
    s = Symmetry(p.primitive)
    with open("BORN", "w") as w:
        w.write("# epsilon and Z* of atoms\n")
        w.write(" ".join("%.12f" % x for x in np.ravel(n["dielectric"])) + "\n")
        for i in s.get_independent_atoms():
            w.write(" ".join("%.12f" % x for x in np.ravel(n["born"][i])) + "\n")


assert pathlib
