"""Generated displacements: completeness, independence, duplicates, options, random displacements."""

import itertools

import numpy as np
import spglib

from harness import models as M
from harness.core import Skip
from checks.c15 import pair_displacements

PROP = "C18"
RULE = ("A case generates displacements of a random supercell with random options and compares the dataset with "
        "a symmetry enumeration of its own (space group of the supercell from spglib, site and bond groups by "
        "atom images); it is non-trivial when at least one first atom with its pairs was enumerated.")
REQUIRED = {"first": 60, "orbits": 60, "directions": 60, "distance": 60, "ids": 60, "supercells": 30, "cutoff": 15,
            "duplicates": 40, "random": 30, "fc2": 15}
ASSUMPTIONS = ["space group of the supercell as found by spglib"]


def cases(tier, rng):
    out = []
    n = 170 if tier == "quick" else 1500
    for i in range(n):
        out.append(dict(kind=["pairs", "pairs", "random"][i % 3], name=M.NAMES[int(rng.integers(len(M.NAMES)))],
                        set=int(rng.integers(4)), pm=[True, False, "auto"][int(rng.integers(3))],
                        diag=bool(rng.integers(2)), cut=float(rng.random()) if rng.random() < 0.5 else None,
                        amp=float(rng.choice([0.03, 0.001, 0.2, 1.0])), mag=bool(rng.random() < 0.2),
                        ph=bool(rng.random() < 0.3), o=int(rng.integers(10 ** 6)),
                        smat=[[int(x) for x in r] for r in
                              rng.integers(-1, 2, size=(3, 3)) + np.diag(rng.integers(0, 3, size=3))]
                        if rng.random() < 0.4 else None))
    return out


def project(c):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    cell = s.get("cell") or M.unitcell(c["name"])
    prim = s.get("primitive", "auto")
    prim = M.centring(c["name"]) if prim == "auto" else prim
    smat = np.diag(s["dim"])
    if c["smat"] is not None:
        smat = np.array(c["smat"])
        if np.linalg.det(smat) < 0:
            smat[0] *= -1
        if not 0.5 < np.linalg.det(smat) < 6.5:
            smat = np.diag([2, 1, 1])
    if c["mag"]:
        cell.magnetic_moments = [1.0 - 2 * (k % 2) for k in range(len(cell))]
        prim = "P" if prim != "P" else prim
    phs = None
    if c["ph"]:
        phs = smat.copy()
        phs[:, c["o"] % 3] *= 2
    try:
        p = Phono3py(cell, supercell_matrix=smat, primitive_matrix=prim, phonon_supercell_matrix=phs)
    except (AttributeError, spglib.SpglibError) as e:  # symmetry search (phonopy, spglib)
        raise Skip(f"symmetry search: {e}")
    if len(p.supercell) > 24:
        raise Skip("large")
    return p


def group(sc, mag):
    """Space-group operations (rotation, translation) of the supercell."""
    if mag:
        d = spglib.get_magnetic_symmetry((sc.cell, sc.scaled_positions, sc.numbers, sc.magnetic_moments),
                                         symprec=1e-5)
        return list(zip(d["rotations"], d["translations"]))
    d = spglib.get_symmetry((sc.cell, sc.scaled_positions, sc.numbers), symprec=1e-5)
    return list(zip(d["rotations"], d["translations"]))


def image(x, r, t):
    y = x @ r.T + t
    d = y[:, None] - x[None]
    d -= np.rint(d)
    return np.argmin((d ** 2).sum(-1), axis=1)


def site_group(ops, x, i):
    out = []
    for r, t in ops:
        d = r @ x[i] + t - x[i]
        d -= np.rint(d)
        if np.abs(d).max() < 1e-4:
            out.append(r)
    return np.unique(np.array(out), axis=0)


def perms_at(x, i, rots):
    """Atom images under rotations about atom i."""
    return [image(x - x[i], r, np.zeros(3)) for r in rots]


def dist(sc, i, j):
    d = sc.scaled_positions[j] - sc.scaled_positions[i]
    d -= np.rint(d)
    L = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    return np.linalg.norm((d + L) @ sc.cell, axis=1).min()


def in_images(d, rots, others, sign=1):
    for r in rots:
        v = sign * (r @ d)
        if any(np.abs(v - e).max() < 1e-5 for e in others):
            return True
    return False


def rank(vs, rots):
    return np.linalg.matrix_rank(np.array([r @ v for r in rots for v in vs]), tol=1e-6)


def check_first(mon, sc, ops, firsts, pm, what, diag):
    """firsts: list of (atom, direction in supercell axes)"""
    x = np.array(sc.scaled_positions)
    ims = np.array([image(x, r, t) for r, t in ops])
    orbit = ims.min(axis=0)
    atoms = sorted({a for a, _ in firsts})
    mon.equal("first", sorted({int(orbit[a]) for a in atoms}), sorted({int(o) for o in orbit}),
              key=f"first:{what}:orbits-missing")
    mon.check("first", len({int(orbit[a]) for a in atoms}) == len(atoms), f"{atoms}", key=f"first:{what}:equivalent-atoms")
    for a in atoms:
        rots = site_group(ops, x, a)
        ds = [d for b, d in firsts if b == a]
        mon.check("first", rank(ds, rots) == 3, f"atom {a}: {ds}", key=f"first:{what}:incomplete")
        for k, d in enumerate(ds):
            rest = ds[:k] + ds[k + 1:]
            oth = [e for e in rest if np.abs(d + e).max() > 1e-5] if pm is True else rest
            mon.check("first", not in_images(d, rots, oth), f"atom {a}: {ds}", key=f"first:{what}:equivalent")
            has = any(np.abs(d + e).max() < 1e-5 for e in rest)
            same = in_images(d, rots, [d], -1)
            if pm is True:
                mon.check("first", has, f"atom {a} {ds}", key=f"first:{what}:no-minus")
            elif pm is False:
                mon.check("first", not has, f"atom {a} {ds}", key=f"first:{what}:minus")
            else:
                mon.check("first", has != same, f"atom {a} {ds} has={has} same={same}", key=f"first:{what}:auto")
            if not diag:
                mon.check("first", np.count_nonzero(d) == 1, f"{d}", key=f"first:{what}:not-axis")
        # with positive directions only, none of them can be dropped
        pos = [d for k, d in enumerate(ds) if not any(np.abs(d + e).max() < 1e-5 for e in ds[:k])]
        for k in range(len(pos)):
            mon.check("first", rank(pos[:k] + pos[k + 1:], rots) < 3 if len(pos) > 1 else True,
                      f"atom {a} {pos}", key=f"first:{what}:redundant")


def pairs(c, mon, rng):
    p = project(c)
    sc = p.supercell
    n = len(sc)
    kw = {}
    D = np.array([[dist(sc, i, j) for j in range(n)] for i in range(n)])
    rc = None
    if c["cut"] is not None:
        sh = np.unique(np.round(D, 4))
        k = int(c["cut"] * (len(sh) - 1))
        rc = sh[k] + 0.5 * (sh[k + 1] - sh[k]) if k + 1 < len(sh) else sh[k] + 1.0
        kw["cutoff_pair_distance"] = rc
    p.generate_displacements(distance=c["amp"], is_plusminus=c["pm"], is_diagonal=c["diag"], **kw)
    d = p.dataset
    ops = group(sc, c["mag"])
    x = np.array(sc.scaled_positions)
    mon.equal("ids", d["natom"], n, key="ids:natom")
    L = np.linalg.inv(sc.cell)
    fr = [(f["number"], np.rint(np.array(f["direction"])).astype(int)) for f in d["first_atoms"]]
    check_first(mon, sc, ops, fr, c["pm"], "fc3", False)
    ids = [f["id"] for f in d["first_atoms"]] + [s["id"] for f in d["first_atoms"] for s in f["second_atoms"]]
    mon.equal("ids", ids, list(range(1, len(ids) + 1)), key="ids:sequence")
    mon.check("cutoff", ("cutoff_distance" in d) == (rc is not None) and (rc is None or d["cutoff_distance"] == rc),
              "cutoff_distance", key="cutoff:key")
    for f in d["first_atoms"]:
        a = f["number"]
        for o in (f, *f["second_atoms"]):
            u = np.array(o["displacement"])
            mon.close("distance", np.linalg.norm(u), c["amp"], rtol=1e-12, key="distance:amplitude")
            v = np.array(o["direction"]) @ sc.cell
            mon.close("distance", u / c["amp"], v / np.linalg.norm(v), atol=1e-12, key="distance:direction")
        d1 = np.array(f["direction"])
        rots = [r for r in site_group(ops, x, a) if np.abs(r @ d1 - d1).max() < 1e-5]
        ims = np.array(perms_at(x, a, rots))
        orbit = ims.min(axis=0)
        nums = [s["number"] for s in f["second_atoms"]]
        uniq = list(dict.fromkeys(nums))
        mon.equal("orbits", sorted(int(orbit[k]) for k in uniq), sorted({int(o) for o in orbit}),
                  key="orbits:one-per-orbit", detail=f"first {a} {d1}")
        mon.check("orbits", len(np.flatnonzero(np.diff(nums))) + 1 == len(uniq), f"{nums}", key="orbits:grouped")
        for b in uniq:
            bond = [r for r, im in zip(rots, ims) if im[b] == b]
            ds = [np.array(s["direction"]) for s in f["second_atoms"] if s["number"] == b]
            mon.check("directions", rank(ds, bond) == 3, f"{a}-{b}: {ds}", key="directions:incomplete")
            for k, e in enumerate(ds):
                rest = ds[:k] + ds[k + 1:]
                mon.check("directions", not in_images(e, bond, rest), f"{a}-{b}: {ds}", key="directions:equivalent")
                has = any(np.abs(e + y).max() < 1e-5 for y in rest)
                mon.check("directions", has != in_images(e, bond, [e], -1), f"{a}-{b}: {ds}", key="directions:minus")
                if not c["diag"]:
                    mon.check("directions", np.count_nonzero(np.abs(e) > 1e-8) == 1, f"{e}", key="directions:not-axis")
            pos = [e for k, e in enumerate(ds) if not any(np.abs(e + y).max() < 1e-5 for y in ds[:k])]
            if len(pos) > 1:
                for k in range(len(pos)):
                    mon.check("directions", rank(pos[:k] + pos[k + 1:], bond) < 3, f"{pos}", key="directions:redundant")
        for s in f["second_atoms"]:
            mon.close("distance", s["pair_distance"], D[a, s["number"]], atol=1e-8, key="distance:pair")
            if rc is None:
                mon.check("cutoff", s.get("included", True), "excluded", key="cutoff:excluded")
            else:
                mon.check("cutoff", s["included"] == (D[a, s["number"]] < rc), f"{s['included']} {D[a, s['number']]} {rc}",
                          key="cutoff:included")
    # the displaced supercells
    u, inc = pair_displacements(d)
    cells = p.supercells_with_displacements
    mon.equal("supercells", len(cells), len(u), key="supercells:number")
    for k, (cell, v) in enumerate(zip(cells, u)):
        if not inc[k]:
            mon.check("supercells", cell is None, "excluded pair has a supercell", key="supercells:excluded")
            continue
        if cell is None:
            mon.check("supercells", False, "missing", key="supercells:missing")
            continue
        mon.close("supercells", cell.positions, sc.positions + v, atol=1e-10, key="supercells:positions")
        mon.check("supercells", bool((cell.numbers == sc.numbers).all()) and np.allclose(cell.masses, sc.masses)
                  and np.allclose(cell.cell, sc.cell) and (sc.magnetic_moments is None or np.allclose(
                      cell.magnetic_moments, sc.magnetic_moments)), "cell", key="supercells:cell")
    mon.close("supercells", p.displacements, u, atol=1e-14, key="supercells:displacements")
    # duplicates: pairs of two different atoms giving the same structure; pairs cancelling to the perfect crystal
    n1 = len(d["first_atoms"])
    lab = [(f["number"], s["number"]) for f in d["first_atoms"] for s in f["second_atoms"]]
    want = set()
    for i in range(n1, len(u)):
        a, b = lab[i - n1]
        if np.abs(u[i]).max() < 1e-8 * c["amp"]:
            want.add((i + 1, 0))
            continue
        if a == b:
            continue
        for j in range(n1, i):
            if lab[j - n1] == (b, a) and np.abs(u[i] - u[j]).max() < 1e-8 * c["amp"]:
                want.add((i + 1, j + 1))
    got = {(int(i), int(j)) for i, j in d.get("duplicates", [])}
    # pairs of one atom listed as perfect crystal because the opposite pair exists (known finding)
    opp = {(i, j) for i, j in got - want if j == 0 and i > n1 and lab[i - 1 - n1][0] == lab[i - 1 - n1][1]
           and any(lab[k - n1] == lab[i - 1 - n1] and np.abs(u[i - 1] + u[k]).max() < 1e-8 * c["amp"]
                   for k in range(n1, len(u)))}
    if opp:
        mon.violation("duplicates:opposite-pairs-as-perfect", f"{sorted(opp)[:5]} are not perfect crystals")
    got -= opp
    mon.check("duplicates", got == want, f"extra {sorted(got - want)[:5]} missing {sorted(want - got)[:5]}",
              key="duplicates:" + ("extra" if got - want else "missing"))
    mon.events["duplicate-pairs"] += len(want)
    if c["ph"]:
        fc2(c, mon, p, c["amp"], c["pm"], False)
        p.generate_fc2_displacements(distance=0.05, is_plusminus=c["pm"], is_diagonal=c["diag"])
        fc2(c, mon, p, 0.05, c["pm"], c["diag"])
    mon.sig("pairs", c["name"], n, len(u), c["pm"], c["diag"], len(want))


def fc2(c, mon, p, amp, pm, diag):
    sc = p.phonon_supercell
    if len(sc) > 40:
        return
    d = p.phonon_dataset
    ops = group(sc, c["mag"])
    fr = [(f["number"], np.rint(np.array(f["direction"])).astype(int) if "direction" in f else
           np.rint(np.array(f["displacement"]) @ np.linalg.inv(sc.cell) / np.abs(
               np.array(f["displacement"]) @ np.linalg.inv(sc.cell)).max()).astype(int)) for f in d["first_atoms"]]
    check_first(mon, sc, ops, fr, pm, "fc2", diag)
    cells = p.phonon_supercells_with_displacements
    mon.equal("fc2", len(cells), len(d["first_atoms"]), key="fc2:number")
    for f, cell in zip(d["first_atoms"], cells):
        v = np.zeros((len(sc), 3))
        v[f["number"]] = f["displacement"]
        mon.close("fc2", np.linalg.norm(f["displacement"]), amp, rtol=1e-12, key="fc2:amplitude")
        mon.close("fc2", cell.positions, sc.positions + v, atol=1e-10, key="fc2:positions")


def random(c, mon, rng):
    p = project(c)
    for which in ("fc3", "fc2") if c["ph"] else ("fc3",):
        sc = p.supercell if which == "fc3" else p.phonon_supercell
        gen = p.generate_displacements if which == "fc3" else p.generate_fc2_displacements

        def data():
            return p.dataset if which == "fc3" else p.phonon_dataset

        ns, seed = int(rng.integers(1, 12)), int(rng.choice([0, 1, 2 ** 32 - 1, rng.integers(2 ** 32)]))
        mx = None if rng.random() < 0.5 else c["amp"] * float(rng.uniform(1, 4))
        kw = dict(distance=c["amp"], number_of_snapshots=ns, max_distance=mx, is_plusminus=c["pm"])
        gen(random_seed=seed, **kw)
        a = np.array(data()["displacements"])
        N = ns * (2 if c["pm"] is True else 1)
        if a.shape != (N, len(sc), 3):
            mon.check("random", False, f"{a.shape}", key="random:shape")
            continue
        mon.equal("random", data().get("random_seed"), seed, key="random:seed-recorded")
        r = np.linalg.norm(a, axis=2)
        if mx is None:
            mon.close("random", r, np.full_like(r, c["amp"]), rtol=1e-12, key="random:amplitude")
        else:
            mon.check("random", r.min() >= c["amp"] * (1 - 1e-12) and r.max() <= mx * (1 + 1e-12),
                      f"{r.min()} {r.max()}", key="random:range")
        if c["pm"] is True:
            mon.equal("random", a[ns:], -a[:ns], key="random:minus")
        mon.check("random", len(np.unique(np.round(a[:ns], 12), axis=0)) == ns, "repeated", key="random:distinct")
        gen(random_seed=seed, **kw)
        mon.equal("random", np.array(data()["displacements"]), a, key="random:reproducible")
        gen(random_seed=(seed + 1) % 2 ** 32, **kw)
        mon.check("random", np.abs(np.array(data()["displacements"]) - a).max() > 0, "seed ignored", key="random:seed")
        gen(**kw)
        b = np.array(data()["displacements"])
        mon.check("random", np.abs(b - a).max() > 0 and b.shape == a.shape, "not random", key="random:no-seed")
        mon.check("random", "random_seed" not in data(), "stale seed", key="random:stale-seed")
        gen(**kw)
        mon.check("random", np.abs(np.array(data()["displacements"]) - b).max() > 0, "not random", key="random:no-seed2")
        cells = p.supercells_with_displacements if which == "fc3" else p.phonon_supercells_with_displacements
        mon.equal("random", len(cells), N, key="random:supercells")
        for k, cell in enumerate(cells):
            mon.close("random", cell.positions, sc.positions + np.array(data()["displacements"])[k], atol=1e-10,
                      key="random:positions")
        kw2 = dict(kw, number_of_snapshots=ns + 1)
        gen(**kw2)  # after the previous supercells were read
        cells = p.supercells_with_displacements if which == "fc3" else p.phonon_supercells_with_displacements
        mon.equal("random", len(cells), len(data()["displacements"]), key="random:renewed")
        for cell, u in zip(cells, np.array(data()["displacements"])):
            mon.close("random", cell.positions, sc.positions + u, atol=1e-10, key="random:renewed-positions")
        try:
            gen(distance=c["amp"], number_of_snapshots=3, max_distance=c["amp"] * 0.5)
            mon.check("random", False, "max_distance < distance accepted", key="random:max-distance")
        except RuntimeError:
            mon.check("random", True)
        if len(sc) <= 16 and c["o"] % 4 == 0 and not c["mag"]:
            from phonopy.interface.symfc import SymfcFCSolver

            try:
                o = 3 if which == "fc3" else 2
                s = p.symmetry if which == "fc3" else p.phonon_supercell_symmetry
                want = 2 * SymfcFCSolver(sc, s).estimate_numbers_of_supercells(orders=[o])[o]
            except Exception:
                continue
            if want > 0:
                gen(distance=c["amp"], number_of_snapshots="auto")
                mon.equal("random", len(data()["displacements"]), want, key="random:auto")
            if o == 3:
                cut = float(rng.uniform(1.5, 5.0))
                try:
                    want = 2 * SymfcFCSolver(
                        sc, s, options={"cutoff": {3: cut}}).estimate_numbers_of_supercells(orders=[o])[o]
                except Exception:
                    continue
                if want > 0:
                    gen(distance=c["amp"], number_of_snapshots="auto", cutoff_pair_distance=cut)
                    mon.equal("random", len(data()["displacements"]), want, key="random:auto-cutoff")
    mon.sig("random", c["name"], len(p.supercell), c["pm"])
    mon.events["fc2"] += 1 if c["ph"] else 0


def run(c, mon):
    rng = np.random.default_rng(c["o"])
    {"pairs": pairs, "random": random}[c["kind"]](c, mon, rng)
