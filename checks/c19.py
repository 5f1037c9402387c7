"""Datasets, displacements and forces keep their pairing in every representation and file."""

import copy
import pathlib

import numpy as np

from harness import cli
from harness import models as M
from harness.core import Skip
from checks.c15 import pair_displacements

PROP = "C19"
RULE = ("A case builds displacement datasets with random pairs, exclusions, forces and energies and moves them "
        "through setters, getters, conversions, force files or the force-set commands with fake calculator outputs; "
        "it is non-trivial when displacements and forces were compared row by row with the model dataset.")
REQUIRED = {"api": 300, "conversion": 60, "file": 40, "cli": 20, "refusal": 4}
ASSUMPTIONS = ["numbers are written with the decimals of the file formats",
               "parsers of calculator outputs are those of phonopy (external), which subtract the drift of forces"]
NAMES = [n for n in M.NAMES if M.NATOM[n] <= 4]
KINDS = ["api", "api", "conversion", "file", "cli", "cli"]


def cases(tier, rng):
    out = []
    n = 210 if tier == "quick" else 2000
    for i in range(n):
        name = NAMES[int(rng.integers(len(NAMES)))]
        out.append(dict(kind=KINDS[i % 6], name=name, set=int(rng.integers(len(M.DIMS[name]))),
                        phdim=bool(rng.random() < 0.5), cut=bool(rng.random() < 0.5), t2=bool(rng.random() < 0.4),
                        pt2=bool(rng.random() < 0.4), energy=bool(rng.integers(2)),
                        partial=bool(rng.random() < 0.5), calc=["vasp", "siesta", "qe", "abinit"][int(rng.integers(4))],
                        own=bool(rng.integers(2)), zero=bool(rng.random() < 0.4), o=int(rng.integers(10 ** 6))))
    return out


def project(c):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    cell = s.get("cell") or M.unitcell(c["name"])
    prim = s.get("primitive", "auto")
    pm = M.centring(c["name"]) if prim == "auto" else prim
    d = np.diag(s["dim"])
    p = Phono3py(cell, supercell_matrix=d, primitive_matrix=pm,
                 phonon_supercell_matrix=d * np.array([2, 1, 1]) if c["phdim"] else None,
                 calculator=c["calc"] if c["kind"] == "cli" and c["own"] else None)
    if len(p.supercell) > 18 or len(p.phonon_supercell) > 36:
        raise Skip("large")
    return p


def type1(n, rng, cut, pairs=True, tidy=False):
    """A dataset with arbitrary atoms and pairs (tidy: second atoms in order and not empty)."""
    d = {"natom": n, "first_atoms": []}
    k = int(rng.integers(1, 4))
    idx = k + 1
    if cut:
        d["cutoff_distance"] = 3.25
    for i in range(k):
        a = {"number": int(rng.integers(n)), "displacement": np.round(rng.normal(size=3) * 0.05, 10), "id": i + 1}
        if pairs:
            a["second_atoms"] = []
            nums = [int(b) for b in rng.permutation(n)[: int(rng.integers(1 if tidy else 0, min(n, 4) + 1))]]
            nums = sorted(nums) if tidy else nums
            for b in nums:
                inc = bool(rng.integers(2))
                dist = round(float(rng.uniform(0.1, 6)), 4)
                for _ in range(int(rng.integers(1, 4))):
                    e = {"number": b, "displacement": np.round(rng.normal(size=3) * 0.05, 10), "id": idx,
                         "pair_distance": dist}
                    if cut:
                        e["included"] = inc
                    a["second_atoms"].append(e)
                    idx += 1
        d["first_atoms"].append(a)
    return d


def type2(n, rng):
    return {"displacements": np.round(rng.normal(size=(int(rng.integers(1, 8)), n, 3)) * 0.05, 10)}


def nodrift(rng, m, n):
    f = np.round(rng.normal(size=(m, n, 3)), 8)
    f[:, -1] -= f.sum(axis=1)
    return np.round(f, 8)


def rows(d):
    if "first_atoms" in d:
        return pair_displacements(d)
    return np.array(d["displacements"]), np.ones(len(d["displacements"]), dtype=bool)


def put(d, F, E=None, inc=None):
    """Forces into the dataset by definition (all rows, or the included ones only)."""
    if "first_atoms" not in d:
        d["forces"] = F
        if E is not None:
            d["supercell_energies"] = E
        return d
    xs = list(d["first_atoms"]) + [y for x in d["first_atoms"] for y in x.get("second_atoms", [])]
    for k, x in enumerate(xs):
        if inc is None or inc[k]:
            x["forces"] = F[k].copy()
            if E is not None:
                x["supercell_energy"] = float(E[k])
    return d


def frozen(d):
    return copy.deepcopy(d)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


# ---------------------------------------------------------------------------
def api(c, mon, rng):
    p = project(c)
    for which in ("fc3", "fc2") if c["phdim"] else ("fc3",):
        sc = p.supercell if which == "fc3" else p.phonon_supercell
        n = len(sc)
        pre = "" if which == "fc3" else "phonon_"

        def get(x):
            return getattr(p, pre + x)

        def put_(x, v):
            setattr(p, pre + x, v)

        for it in range(3):
            t2 = bool(rng.integers(2))
            d = type2(n, rng) if t2 else type1(n, rng, c["cut"], which == "fc3")
            u, inc = rows(d)
            F = rng.normal(size=u.shape)
            E = rng.normal(size=len(u)) if c["energy"] else None
            have = bool(rng.integers(2))
            given = frozen(d)
            if have:
                put(given, F, E, inc if c["partial"] else None)
            orig = frozen(given)
            put_("dataset", given)
            exp = F.copy() if have else None
            if have and c["partial"]:
                exp[~inc] = 0
            expE = None if not have or E is None else np.where(inc | (not c["partial"]), E, 0.0)
            hist = ["dataset"]

            def look():
                w = "+".join(hist[-2:])
                mon.close("api", get("displacements"), u, atol=0, rtol=0, key=f"api:{which}:{t2}:displacements")
                g = get("forces")
                mon.check("api", (g is None) == (exp is None), f"{w}: {g is None}", key=f"api:{which}:{t2}:forces-none")
                if exp is not None and g is not None:
                    mon.close("api", np.array(g), exp, atol=0, rtol=0, detail=w, key=f"api:{which}:{t2}:forces")
                g = get("supercell_energies") if exp is not None or which == "fc3" else None
                if exp is not None and expE is not None:
                    mon.close("api", np.array(g), expE, atol=0, rtol=0, detail=w, key=f"api:{which}:{t2}:energies")
                elif exp is not None:
                    mon.check("api", g is None, f"{w}: {g}", key=f"api:{which}:{t2}:energies-none")
                cells = get("supercells_with_displacements")
                mon.equal("api", len(cells), len(u), key=f"api:{which}:{t2}:supercells-number")
                for x, v, i in zip(cells, u, inc):
                    if x is None:
                        mon.check("api", not i, "missing", key=f"api:{which}:{t2}:supercells-missing")
                    else:
                        mon.close("api", x.positions, sc.positions + v, atol=1e-10, key=f"api:{which}:{t2}:supercells")

            look()
            mon.check("api", same(orig, given), "caller's dataset modified", key=f"api:{which}:caller-modified")
            for _ in range(int(rng.integers(1, 5))):
                op = ["forces", "energies", "displacements", "mutate", "again"][int(rng.integers(5))]
                if op == "forces":
                    exp = rng.normal(size=u.shape)
                    arg = exp.copy()
                    put_("forces", arg if rng.integers(2) else arg.tolist())
                    arg[:] = 7.0
                elif op == "energies":
                    if exp is None:
                        continue
                    expE = rng.normal(size=len(u))
                    arg = expE.copy()
                    put_("supercell_energies", arg)
                    arg[:] = 7.0
                elif op == "displacements":
                    arg = np.round(rng.normal(size=u.shape) * 0.03, 8)
                    if t2:
                        put_("displacements", arg)
                        u = arg.copy()
                        arg[:] = 3.0
                        for bad in (np.zeros((2, n + 1, 3)), np.zeros((n, 3))):
                            try:
                                put_("displacements", bad)
                                mon.check("refusal", False, f"{bad.shape}", key="refusal:displacements-shape")
                            except RuntimeError:
                                mon.check("refusal", True)
                    else:
                        try:
                            put_("displacements", arg)
                            mon.check("refusal", False, "type-1", key="refusal:displacements-type1")
                        except RuntimeError:
                            mon.check("refusal", True)
                elif op == "mutate":
                    # the object must not share memory with the caller's dataset
                    if "first_atoms" in given:
                        given["first_atoms"][0]["displacement"][:] = 9.0
                        if have:
                            given["first_atoms"][0]["forces"][:] = 9.0
                    else:
                        given["displacements"][:] = 9.0
                        if have:
                            given["forces"][:] = 9.0
                else:
                    back = get("dataset")
                    put_("dataset", back)
                hist.append(op)
                look()
        try:
            put_("dataset", {"natom": n})
            mon.check("refusal", False, "broken dataset", key="refusal:dataset")
        except RuntimeError:
            mon.check("refusal", True)
    mon.sig("api", c["name"], c["phdim"], c["cut"], c["energy"])


def conversion(c, mon, rng):
    from phono3py.phonon3.dataset import forces_in_dataset, get_displacements_and_forces_fc3

    p = project(c)
    n = len(p.supercell)
    for t in range(6):
        d = type2(n, rng) if c["t2"] else type1(n, rng, c["cut"])
        u, inc = rows(d)
        F = rng.normal(size=u.shape)
        have = bool(rng.integers(4))
        if have:
            put(d, F, None, inc if c["partial"] else None)
        mon.equal("conversion", bool(forces_in_dataset(d)), have, key="conversion:forces-in-dataset")
        orig = frozen(d)
        a, f = get_displacements_and_forces_fc3(d)
        mon.check("conversion", same(orig, d), "dataset modified", key="conversion:modified")
        if np.shape(a) != u[inc].shape:
            mon.check("conversion", False, f"{np.shape(a)} {u[inc].shape}", key="conversion:rows")
            continue
        pair = np.zeros(len(u), dtype=bool)
        if not c["t2"]:
            lab = [False] * len(d["first_atoms"]) + [x["number"] == y["number"] for x in d["first_atoms"]
                                                     for y in x["second_atoms"]]
            pair = np.array(lab)
        s = pair[inc]
        mon.close("conversion", a[~s], u[inc][~s], atol=0, rtol=0, key="conversion:displacements")
        if s.any():
            mon.close("conversion", a[s], u[inc][s], atol=0, rtol=0, key="conversion:same-atom-pair")
        mon.check("conversion", (f is None) == (not have), "forces", key="conversion:forces-none")
        if have and f is not None:
            mon.close("conversion", f, F[inc], atol=0, rtol=0, key="conversion:forces")
        # through the object: type-2 conversion of the included rows has the same displacements
        p.dataset = d
        mon.close("conversion", p.displacements, u, atol=0, rtol=0, key="conversion:object")
    mon.sig("conv", c["name"], c["t2"], c["cut"], c["partial"])


def file(c, mon, rng):
    from phono3py.file_IO import (get_length_of_first_line, parse_FORCES_FC2, parse_FORCES_FC3, write_FORCES_FC2,
                                  write_FORCES_FC3)
    from phonopy.file_IO import parse_FORCE_SETS

    p = project(c)
    for t in range(3):
        for which in ("fc3", "fc2"):
            n = len(p.supercell)
            d = type2(n, rng) if c["t2"] else type1(n, rng, c["cut"], which == "fc3")
            u, inc = rows(d)
            F = np.round(rng.normal(size=u.shape), 9)
            bare = frozen(d)
            own = bool(rng.integers(2))
            wr = write_FORCES_FC3 if which == "fc3" else write_FORCES_FC2
            if own:
                put(d, F, None, inc if c["partial"] else None)
                wr(d, filename="F")
            elif which == "fc3":
                wr(d, F[inc], filename="F")
            else:
                wr(d, F, filename="F")
            with open("F") as h:
                length = get_length_of_first_line(h)
            mon.equal("file", length, 6 if c["t2"] else 3, key="file:first-line")
            factor = float(rng.choice([1.0, 25.71104309541616])) if rng.integers(2) else None
            if c["t2"]:
                e = parse_FORCE_SETS(n, filename="F")
                mon.close("file", e["displacements"], u, atol=1e-8, key=f"file:{which}:type2-displacements")
                mon.close("file", e["forces"], F, atol=1e-8, key=f"file:{which}:type2-forces")
                continue
            exp = np.where(inc[:, None, None], F, 0.0)
            rd = parse_FORCES_FC3 if which == "fc3" else parse_FORCES_FC2
            kw = dict(use_loadtxt=True) if which == "fc3" and rng.integers(2) else {}
            rd(bare, filename="F", unit_conversion_factor=factor, **kw)
            xs = list(bare["first_atoms"]) + [y for x in bare["first_atoms"] for y in x.get("second_atoms", [])]
            got = np.array([x["forces"] for x in xs])
            mon.close("file", got, exp * (factor or 1.0), rtol=1e-8, atol=2e-9, key=f"file:{which}:forces")
            mon.close("file", rows(bare)[0], u, atol=0, rtol=0, key=f"file:{which}:displacements")
            text = open("F").read().splitlines()
            head = [x for x in text if x.startswith("# File")]
            mon.equal("file", [int(x.split()[-1]) for x in head], list(range(1, len(u) + 1)), key="file:numbering")
            # a truncated file is refused
            open("G", "w").write("\n".join(text[:-1]) + "\n")
            try:
                r = rd(frozen(bare), filename="G")
                mon.check("file", which == "fc2" and r == [], "truncated file accepted", key=f"file:{which}:truncated")
            except (RuntimeError, ValueError):
                mon.check("file", True)
            # conversion of the fc2 part from FORCE_SETS and back
            if which == "fc2":
                from phonopy.file_IO import write_FORCE_SETS

                e = put(frozen(d), F)
                write_FORCE_SETS(e)
                code, out = cli.call("--fs2f2")
                mon.equal("cli", code, 0, key="cli:fs2f2:exit")
                back = frozen(d)
                parse_FORCES_FC2(back, filename="FORCES_FC2")
                mon.close("cli", np.array([x["forces"] for x in back["first_atoms"]]), F, atol=2e-9,
                          key="cli:fs2f2:forces")
                for x in d["first_atoms"]:
                    mon.check("cli", "%20.16f" % x["displacement"][0] in open("FORCES_FC2").read(), "displacement",
                              key="cli:fs2f2:displacement")
    mon.sig("file", c["name"], c["t2"], c["cut"], c["partial"])


# ---------------------------------------------------------------------------
VX = '''<?xml version="1.0" encoding="ISO-8859-1"?>
<modeling>
 <generator>
  <i name="version" type="string">6.3.2 </i>
 </generator>
 <calculation>
  <structure>
   <crystal>
    <varray name="basis" >
%s    </varray>
   </crystal>
   <varray name="positions" >
%s   </varray>
  </structure>
  <varray name="forces" >
%s  </varray>
  <energy>
   <i name="e_fr_energy"> %.10f </i>
   <i name="e_wo_entrp"> %.10f </i>
   <i name="e_0_energy"> %.10f </i>
  </energy>
 </calculation>
</modeling>
'''


def _v(a):
    return "".join("    <v> %.16f %.16f %.16f </v>\n" % tuple(r) for r in a)


def output(calc, name, cell, F, E):
    """Write a fake calculator output."""
    if calc == "vasp":
        text = VX % (_v(cell.cell), _v(cell.scaled_positions), _v(F), E - 1, E, E + 1)
    elif calc == "siesta":
        text = "%d\n" % len(F) + "".join("%d %.10f %.10f %.10f\n" % (i + 1, *f) for i, f in enumerate(F))
    elif calc == "abinit":
        text = " cartesian forces (eV/Angstrom) at end:\n" + "".join(
            "%5d %.10f %.10f %.10f\n" % (i + 1, *f) for i, f in enumerate(F))
    else:
        text = "     Forces acting on atoms (cartesian axes, Ry/au):\n\n" + "".join(
            "     atom %4d type  1   force = %.10f %.10f %.10f\n" % (i + 1, *f) for i, f in enumerate(F))
    pathlib.Path(name).write_text(text)


def displaced(sc, v):
    from phonopy.structure.atoms import PhonopyAtoms

    return PhonopyAtoms(cell=sc.cell, numbers=sc.numbers, positions=sc.positions + v)


def read_file(name, d, fc2):
    from phono3py.file_IO import get_length_of_first_line, parse_FORCES_FC2, parse_FORCES_FC3
    from phonopy.file_IO import parse_FORCE_SETS

    if "first_atoms" not in d:
        e = parse_FORCE_SETS(d["displacements"].shape[1], filename=name)
        return e["displacements"], e["forces"]
    e = frozen(d)
    (parse_FORCES_FC2 if fc2 else parse_FORCES_FC3)(e, filename=name)
    xs = list(e["first_atoms"]) + [y for x in e["first_atoms"] for y in x.get("second_atoms", [])]
    return rows(e)[0], np.array([x["forces"] for x in xs])


def cmd(c, mon, rng):
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    calc = c["calc"]
    c["own"] = c["own"] or calc == "siesta"  # no command-line option
    p = project(c)
    n = len(p.supercell)
    parts = [("fc3", p.supercell, type2(n, rng) if c["t2"] else type1(n, rng, c["cut"], tidy=True))]
    p.dataset = parts[0][2]
    if c["phdim"]:
        m = len(p.phonon_supercell)
        d2 = type2(m, rng) if c["pt2"] else type1(m, rng, False, False)
        p.phonon_dataset = d2
        parts.append(("fc2", p.phonon_supercell, d2))
    p.save("phono3py_disp.yaml")
    args, want = [], {}
    res = {}
    for w, sc, d in parts:
        u, inc = rows(d)
        F = nodrift(rng, len(u), len(sc))
        E = np.round(rng.normal(size=len(u)), 8)
        Z = nodrift(rng, 1, len(sc))[0] if c["zero"] else np.zeros((len(sc), 3))
        names = []
        ids = np.flatnonzero(inc)
        # fewer outputs than displacements are allowed for type-2 data
        if "first_atoms" not in d and rng.random() < 0.4:
            ids = ids[: int(rng.integers(1, len(ids) + 1))]
        order = list(ids)
        for k in order:
            nm = f"{w}-{k:03d}.out"
            output(calc, nm, displaced(sc, u[k]), F[k], E[k])
            names.append(nm)
        if c["zero"]:
            output(calc, f"{w}-zero.out", displaced(sc, 0 * u[0]), Z, 0.0)
        res[w] = (d, u, inc, F, E, Z, ids, names)
    a3 = res["fc3"]
    flag = [] if c["own"] or calc == "vasp" else [f"--{calc}"]
    if rng.integers(3) == 0:
        pathlib.Path("list").write_text("\n".join(a3[7]) + "\n")
        args = ["--cf3-file", "list"]
    else:
        args = ["--cf3", *a3[7]]
    do2 = "fc2" in res and rng.random() < 0.8
    if do2:
        args += ["--cf2", *res["fc2"][7]]
    if c["zero"]:
        args += ["--cfz", "fc3-zero.out"]
        if do2:
            args += ["--cfz-fc2", "fc2-zero.out"]
    sp = bool(rng.integers(2))
    if sp:
        args += ["--sp"]
    code, out = cli.call(*args, *flag)
    mon.check("cli", code == 0, out[-300:], key=f"cli:{calc}:exit")
    if code:
        return
    use = ["fc3", "fc2"] if do2 else ["fc3"]
    for w in use:
        d, u, inc, F, E, Z, ids, names = res[w]
        exp = F - Z
        t = "type1" if "first_atoms" in d else "type2"
        if sp:
            y = Phono3pyYaml(settings={"force_sets": True, "displacements": True})
            y.read("phono3py_params.yaml")
            e = y.dataset if w == "fc3" else y.phonon_dataset
            if t == "type1":
                gu = rows(e)[0]
                mon.close("cli", gu, u, atol=1e-12, key=f"cli:params:{w}:displacements")
                xs = list(e["first_atoms"]) + [q for x in e["first_atoms"] for q in x.get("second_atoms", [])]
                for k, x in enumerate(xs):
                    mon.check("cli", not inc[k] or "forces" in x, f"{k}", key=f"cli:params:{w}:forces-missing")
                    if inc[k] and "forces" in x:
                        mon.close("cli", x["forces"], exp[k], atol=1e-8, key=f"cli:params:{w}:forces", detail=calc)
                        if calc == "vasp":
                            mon.close("cli", x.get("supercell_energy", 0.123), E[k], atol=1e-7, key=f"cli:params:{w}:energy")
                        else:
                            mon.check("cli", "supercell_energy" not in x, "energy", key=f"cli:params:{w}:energy-made-up")
            else:
                mon.close("cli", e["displacements"], u[ids], atol=1e-12, key=f"cli:params:{w}:type2-displacements")
                mon.close("cli", e["forces"], exp[ids], atol=1e-8, key=f"cli:params:{w}:type2-forces", detail=calc)
                if calc == "vasp":
                    mon.close("cli", e["supercell_energies"], E[ids], atol=1e-7, key=f"cli:params:{w}:type2-energies")
        else:
            gu, gf = read_file("FORCES_FC3" if w == "fc3" else "FORCES_FC2", d, w == "fc2")
            if t == "type1":
                exp = np.where(inc[:, None, None], exp, 0.0)
                mon.close("cli", gf, exp, atol=1e-8, key=f"cli:file:{w}:forces", detail=calc)
            elif len(ids) < len(u):
                k = min(len(ids), len(gf))
                mon.close("cli", gf[:k], exp[ids][:k], atol=1e-8, key=f"cli:file:{w}:type2-forces")
                mon.close("cli", gu[:k], u[ids][:k], atol=1e-8, key=f"cli:file:{w}:type2-displacements")
                mon.equal("cli", len(gf), len(ids), key=f"cli:file:{w}:type2-number")
            else:
                mon.close("cli", gu, u, atol=1e-8, key=f"cli:file:{w}:type2-displacements")
                mon.close("cli", gf, exp, atol=1e-8, key=f"cli:file:{w}:type2-forces", detail=calc)
    # wrong number of files (type-1) and exchanged files (VASP outputs contain positions) are refused
    for w in use:
        d, u, inc, F, E, Z, ids, names = res[w]
        for f in ("FORCES_FC3", "FORCES_FC2", "phono3py_params.yaml"):
            pathlib.Path(f).unlink(missing_ok=True)
        base = [] if w == "fc3" else ["--cf3", *a3[7]]
        z = (["--cfz", "fc3-zero.out"] if c["zero"] and w == "fc3" else [])
        o = "--cf3" if w == "fc3" else "--cf2"
        tgt = "FORCES_FC3" if w == "fc3" else "FORCES_FC2"
        if "first_atoms" in d:
            for bad in (names[:-1], names + names[-1:]):
                if not bad:
                    continue
                code, out = cli.call(*base, o, *bad, *z, *flag)
                mon.check("refusal", code != 0 and not pathlib.Path(tgt).exists(), f"{len(bad)} {len(names)}",
                          key=f"refusal:{w}:number-of-files")
        if calc == "vasp" and len(names) > 1 and np.abs(u[ids[0]] - u[ids[1]]).max() > 1e-4:
            bad = [names[1], names[0], *names[2:]]
            try:
                code, out = cli.call(*base, o, *bad, *flag)
                mon.check("refusal", False, "exchanged files accepted", key=f"refusal:{w}:exchanged")
            except RuntimeError:
                mon.check("refusal", True)
    mon.sig("cli", c["name"], calc, c["t2"], do2, sp, c["zero"])


def run(c, mon):
    rng = np.random.default_rng(c["o"])
    {"api": api, "conversion": conversion, "file": file, "cli": cmd}[c["kind"]](c, mon, rng)
