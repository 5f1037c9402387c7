"""Finite-displacement and fitted force constants reproduce an exactly cubic potential."""

import warnings

import numpy as np

from harness import models as M, ph
from harness.core import Skip
from checks.c15 import pair_displacements

PROP = "C16"
RULE = ("A case generates displacements with the code's own options, evaluates the exact forces of a cubic "
        "potential, produces force constants by finite differences or fitting and compares them with the "
        "analytic second and third derivatives; it is non-trivial when at least one array of third-order force "
        "constants was compared element-wise.")
REQUIRED = {"fc3-exact": 60, "fc2-exact": 60, "cutoff": 10, "fit": 10, "scaling": 5, "phonon-fc2": 10,
            "refusal": 4, "lapacke": 1}
ASSUMPTIONS = ["with minus displacements included the second differences of a cubic polynomial are exact"]
NAMES = [n for n in M.NAMES if M.NATOM[n] <= 6]
SMAX = 24


def cases(tier, rng):
    out = []
    n = 260 if tier == "quick" else 2400
    for i in range(n):
        name = NAMES[int(rng.integers(len(NAMES)))]
        st = int(rng.integers(len(M.DIMS[name])))
        prim, dim = M.DIMS[name][st]
        ph2 = bool(rng.random() < 0.3) and not prim
        out.append(dict(kind=["fd", "fd", "cut", "fd", "fit", "scale"][i % 6], name=name, set=st,
                        phdim=[int(x) for x in M.DIMS[name][int(rng.integers(len(M.DIMS[name])))][1]]
                        if ph2 and not M.DIMS[name][-1][0] else None,
                        amp=float(rng.choice([1e-3, 0.01, 0.03, 0.1, 0.4])),
                        pm=[True, "auto"][int(rng.integers(2))], diag=bool(rng.integers(2)),
                        sym=bool(rng.integers(2)), issym=bool(rng.random() < 0.85),
                        frac=float(rng.random()), o=int(rng.integers(10 ** 6))))
        if i % 12 == 3:
            out[-1]["variant"] = "lapacke"
    return out


def project(c):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    cell = s.get("cell") or M.unitcell(c["name"])
    prim = s.get("primitive", "auto")
    if np.prod(s["dim"]) > 1 or M.centring(c["name"]) != "P":
        c["issym"] = True  # without symmetry there are no translations either
    p = Phono3py(cell, supercell_matrix=np.diag(s["dim"]),
                 primitive_matrix=M.centring(c["name"]) if prim == "auto" else prim,
                 phonon_supercell_matrix=None if not c["phdim"] else np.diag(c["phdim"]),
                 is_symmetry=c["issym"])
    n = len(p.supercell)
    if n > SMAX or (not c["issym"] and n > 8):
        raise Skip("large")
    return p


def feed(p, lat, latp=None, junk=None):
    d = p.dataset
    if "displacements" in d:
        u, inc = d["displacements"], None
    else:
        u, inc = pair_displacements(d)
    F = np.array([lat.forces(x) for x in u])
    if inc is not None and junk is not None:
        F[~inc] = junk.normal(size=F[~inc].shape)
    p.forces = F
    if latp is not None:
        d = p.phonon_dataset
        u = d["displacements"] if "displacements" in d else pair_displacements(d)[0]
        p.phonon_forces = np.array([latp.forces(x) for x in u])


def pair_distance(p):
    sc = p.supercell
    L = np.array(np.meshgrid(*[range(-3, 4)] * 3, indexing="ij")).reshape(3, -1).T
    d = sc.scaled_positions[:, None] - sc.scaled_positions[None]
    d -= np.rint(d)
    v = (d[:, :, None] + L) @ sc.cell
    return np.sqrt((v ** 2).sum(-1)).min(-1)


def tol(lat, amp):
    """Rounding of forces amplified by the two differences."""
    f = np.abs(lat.fc2).max() * amp * 3 + np.abs(lat.fc3).max() * amp ** 2 * 4
    return f * 2e-13 / amp, f * 2e-13 / amp ** 2


def compare(mon, p, lat, what, amp, compact, cl="fc3-exact"):
    t2, t3 = tol(lat, amp)
    m = p.primitive.p2s_map
    r3 = lat.fc3[m] if compact else lat.fc3
    if p.fc3.shape != r3.shape:
        mon.check(cl, False, f"shape {p.fc3.shape} {r3.shape}", key=f"{cl}:shape:{what}")
        return
    mon.close(cl, p.fc3, r3, rtol=1e-8, atol=t3, key=f"{cl}:{what}", detail=f"amp={amp}")
    mon.sig("fc3", p.fc3.shape, what, amp, round(float(np.abs(r3).sum()), 3))


def fd(c, mon, rng):
    p = project(c)
    lat = M.lattice(c["name"], p.supercell)
    latp = None
    if c["phdim"]:
        if len(p.phonon_supercell) > 40:
            raise Skip("large")
        latp = M.lattice(c["name"], p.phonon_supercell)
    kw = {}
    p.generate_displacements(distance=c["amp"], is_plusminus=c["pm"], is_diagonal=c["diag"])
    nd = len(p.supercells_with_displacements)
    if nd * len(p.supercell) ** 3 > 6e6:
        raise Skip("large")
    feed(p, lat, latp)
    amp = c["amp"]
    t2, t3 = tol(lat, amp)
    what = f"pm{c['pm']}:diag{c['diag']}"
    first = bool(c["o"] & 1)
    for compact in ((False, True) if first else (True, False)):
        p.fc2 = p.fc3 = None
        p.produce_fc3(symmetrize_fc3r=c["sym"], is_compact_fc=compact)
        compare(mon, p, lat, f"{'compact' if compact else 'full'}:sym{c['sym']}:{what}", amp, compact)
        m = p.primitive.p2s_map
        if c["phdim"]:
            # produce_fc3 must not set force constants of the other supercell
            mon.check("phonon-fc2", p.fc2 is None, "fc2 of the fc3 supercell", key="phonon-fc2:not-set")
        else:
            mon.close("fc2-exact", p.fc2, lat.fc2[m] if compact else lat.fc2, rtol=1e-9, atol=t2,
                      key=f"fc2-exact:fc3:{'compact' if compact else 'full'}:{what}")
        p.produce_fc2(symmetrize_fc2=c["sym"], is_compact_fc=compact)
        q = p.phonon_primitive.p2s_map
        ref = (latp or lat).fc2
        if latp is not None:
            amp2 = 0.03 if False else np.abs(p.phonon_dataset["first_atoms"][0]["displacement"]).max()
            mon.close("phonon-fc2", p.fc2, ref[q] if compact else ref, rtol=1e-9,
                      atol=tol(latp, amp2)[0] * 3, key=f"phonon-fc2:{'compact' if compact else 'full'}")
        else:
            mon.close("fc2-exact", p.fc2, ref[q] if compact else ref, rtol=1e-9, atol=t2,
                      key=f"fc2-exact:{'compact' if compact else 'full'}:{what}")
    if c.get("variant") == "lapacke":
        from phono3py.phonon3.fc3 import get_fc3

        for compact in (False, True):
            f2, f3 = get_fc3(p.supercell, p.primitive, p.dataset, p.symmetry, is_compact_fc=compact,
                             pinv_solver="lapacke")
            m = p.primitive.p2s_map
            mon.close("fc3-exact", f3, lat.fc3[m] if compact else lat.fc3, rtol=1e-8, atol=t3,
                      key=f"fc3-exact:lapacke:{compact}:{what}")
            mon.close("fc2-exact", f2, lat.fc2[m] if f2.shape[0] != f2.shape[1] else lat.fc2,
                      rtol=1e-9, atol=t2, key=f"fc2-exact:lapacke:{compact}:{what}")
        mon.events["lapacke"] += 1
    # repeating the production on the same dataset gives the same numbers
    a = p.fc3.copy()
    p.produce_fc3(symmetrize_fc3r=c["sym"], is_compact_fc=not first is False if False else p.fc3.shape[0] != p.fc3.shape[1])
    mon.equal("fc3-exact", p.fc3, a, key="fc3-exact:repeat")


def cut(c, mon, rng):
    """Only pairs closer than the cutoff are displaced."""
    p = project(c)
    lat = M.lattice(c["name"], p.supercell)
    D = pair_distance(p)
    shells = np.unique(np.round(D[D > 1e-3], 3))
    if len(shells) < 2:
        raise Skip("one shell")
    k = int(c["frac"] * (len(shells) - 1))
    if shells[k + 1] - shells[k] < 0.01:
        raise Skip("close shells")
    rc = 0.5 * (shells[k] + shells[k + 1])
    p.generate_displacements(distance=c["amp"], is_plusminus=c["pm"], is_diagonal=c["diag"],
                             cutoff_pair_distance=rc)
    if len(p.supercells_with_displacements) * len(p.supercell) ** 3 > 4e6 or len(p.supercell) > 16:
        raise Skip("large")
    feed(p, lat, None, rng)
    near = D < rc
    any_ = near[:, :, None] | near[:, None, :] | near[None, :, :]
    ref = lat.fc3 * any_[..., None, None, None]
    t2, t3 = tol(lat, c["amp"])
    for compact in (False, True):
        p.fc2 = p.fc3 = None
        p.produce_fc3(is_compact_fc=compact)
        r = ref[p.primitive.p2s_map] if compact else ref
        if p.fc3.shape != r.shape:
            mon.check("cutoff", False, f"shape {p.fc3.shape}", key="cutoff:shape")
            continue
        mon.close("cutoff", p.fc3, r, rtol=1e-8, atol=t3, key=f"cutoff:{'compact' if compact else 'full'}")
        mon.sig("cut", c["name"], c["set"], k)
    mon.events["elements-cut"] += int((~any_).sum())
    # explicit truncation: every element having a pair farther than the distance vanishes, no other changes
    all_ = near[:, :, None] & near[:, None, :] & near[None, :, :]
    full = lat.fc3.copy()
    p.fc3 = full
    p.cutoff_fc3_by_zero(rc)
    mon.close("cutoff", p.fc3, lat.fc3 * all_[..., None, None, None], atol=0, key="cutoff:by-zero:full")
    comp = np.array(lat.fc3[p.primitive.p2s_map], order="C")
    p.fc3 = comp
    p.cutoff_fc3_by_zero(rc)
    mon.close("cutoff", p.fc3, (lat.fc3 * all_[..., None, None, None])[p.primitive.p2s_map], atol=0,
              key="cutoff:by-zero:compact")


def fit(c, mon, rng):
    """Random displacements with the fitting backend, and type-1 datasets given to it."""
    c = dict(c, issym=True)
    p = project(c)
    if len(p.supercell) > 16:
        raise Skip("large")
    lat = M.lattice(c["name"], p.supercell)
    latp = None
    if c["phdim"]:
        if len(p.phonon_supercell) > 32:
            raise Skip("large")
        latp = M.lattice(c["name"], p.phonon_supercell)
    amp = 0.03
    t1 = bool(c["o"] % 3 == 0)
    if t1:
        p.generate_displacements(distance=amp, is_plusminus=True)
    else:
        p.generate_displacements(distance=amp, number_of_snapshots="auto" if c["o"] % 4 == 1 else 40,
                                  random_seed=c["o"] % 1000)
        if latp is not None:
            p.generate_fc2_displacements(distance=amp, number_of_snapshots=30, random_seed=3)
    if len(p.supercells_with_displacements) > 600:
        raise Skip("many")
    feed(p, lat, latp)
    compact = bool(c["o"] & 8)
    opts = None
    pairs = []
    if t1:
        d = p.dataset
        pairs = [y for x in d["first_atoms"] for y in x["second_atoms"] if y["number"] == x["number"]]
        for y in pairs:
            y["included"] = False
        p.dataset = d
    from symfc import Symfc

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sf = Symfc(p.supercell, spacegroup_operations=p.symmetry.symmetry_operations, log_level=0)
        try:
            sf.compute_basis_set(max_order=3)
        except Exception:  # nothing to fit
            raise Skip("no basis") from None
    nb = sum(sf.basis_set[k].basis_set.shape[1] for k in (2, 3))
    ns = len(p.supercells_with_displacements)
    if min(sf.basis_set[k].basis_set.shape[1] for k in (2, 3)) < 2:
        raise Skip("no third-order constants")
    if ns * 3 * len(p.supercell) < 1.5 * nb:
        raise Skip("underdetermined")
    p.produce_fc3(fc_calculator="symfc", is_compact_fc=compact, fc_calculator_options=opts)
    m = p.primitive.p2s_map
    s3 = np.abs(lat.fc3).max()
    s2 = np.abs(lat.fc2).max()
    if p.fc3.shape != (lat.fc3[m] if compact else lat.fc3).shape:
        mon.check("fit", False, f"shape {p.fc3.shape}", key="fit:shape")
        return
    mon.close("fit", p.fc3, lat.fc3[m] if compact else lat.fc3, rtol=0, atol=s3 * 2e-6,
              key=f"fit:fc3:{'compact' if compact else 'full'}:{'t1' if t1 else 't2'}")
    if latp is None:
        mon.close("fit", p.fc2, lat.fc2[m] if compact else lat.fc2, rtol=0, atol=s2 * 1e-7,
                  key=f"fit:fc2:{'compact' if compact else 'full'}:{'t1' if t1 else 't2'}")
    else:
        mon.check("phonon-fc2", p.fc2 is None, "fc2 of the fc3 supercell", key="phonon-fc2:not-set")
        if not t1:
            # a fit of order two only of the harmonic model
            latp = M.lattice(c["name"], p.phonon_supercell, anh=0.0)
            p.phonon_forces = np.array([latp.forces(x) for x in p.phonon_dataset["displacements"]])
            if len(p.phonon_dataset["displacements"]) * 3 * len(p.phonon_supercell) > 9 * 27 * len(p.phonon_primitive) ** 2 \
                    or len(p.phonon_supercell) <= 16:
                p.produce_fc2(fc_calculator="symfc", is_compact_fc=compact)
                q = p.phonon_primitive.p2s_map
                # the harmonic model (anh=0) has other second derivatives of bonds only if it says so
                mon.close("phonon-fc2", p.fc2, latp.fc2[q] if compact else latp.fc2, rtol=0,
                          atol=np.abs(latp.fc2).max() * 1e-6, key="phonon-fc2:fit")
    if pairs:
        # the same with the pairs that displace one atom twice
        for y in pairs:
            y.pop("included")
        p.dataset = d
        f = p.fc3.copy()
        p.fc2 = None
        p.produce_fc3(fc_calculator="symfc", is_compact_fc=compact)
        mon.close("fit", p.fc3, f, rtol=0, atol=s3 * 4e-6, key="fit:type1-with-same-atom-pairs")
    mon.sig("fit", c["name"], c["set"], t1, compact)


def scale(c, mon, rng):
    """Plus-only displacements: the error of fc2 is proportional to the amplitude and nothing
    but the odd part of the potential; refusals of incomplete datasets."""
    p = project(dict(c, phdim=None))
    lat = M.lattice(c["name"], p.supercell)
    if len(p.supercell) > 16:
        raise Skip("large")
    err, e3 = [], []
    for a in (0.02, 0.01):
        p.generate_displacements(distance=a, is_plusminus=False, is_diagonal=c["diag"])
        feed(p, lat)
        p.produce_fc2()
        err.append(p.fc2 - lat.fc2)
        b = p.fc2
        p.produce_fc2(is_compact_fc=True)
        mon.close("scaling", p.fc2, b[p.primitive.p2s_map], rtol=1e-10, atol=1e-12, key="scaling:fc2-compact")
        p.fc2 = None
        p.produce_fc3()
        x = p.fc3
        e3.append(x)
        mon.close("scaling", p.fc2, b, rtol=1e-10, atol=1e-12, key="scaling:fc2-of-fc3")
        p.produce_fc3(is_compact_fc=True)
        mon.close("scaling", p.fc3, x[p.primitive.p2s_map], rtol=1e-9, atol=1e-9, key="scaling:fc3-compact")
    s = np.abs(lat.fc2).max()
    mon.close("scaling", err[0], 2 * err[1], rtol=1e-6, atol=s * 1e-10, key="scaling:fc2-linear")
    bound = 0.02 * np.abs(lat.fc3).sum(axis=2).max() * 2 + 1e-9
    mon.check("scaling", np.abs(err[0]).max() <= bound, f"{np.abs(err[0]).max()} > {bound}", key="scaling:bound")
    # purely harmonic forces: no third-order constants and exact second-order ones, whatever the option
    p.generate_displacements(distance=0.02, is_plusminus=False, is_diagonal=c["diag"])
    p.forces = np.array([lat.forces(u, order=2) for u in pair_displacements(p.dataset)[0]])
    p.fc2 = None
    p.produce_fc3()
    mon.close("scaling", p.fc2, lat.fc2, rtol=1e-9, atol=s * 1e-11, key="scaling:harmonic-fc2")
    mon.close("scaling", p.fc3, np.zeros_like(p.fc3), atol=s * 1e-9, key="scaling:harmonic-fc3")
    # refusals
    import copy
    d = copy.deepcopy(p.dataset)

    def refused(f, key):
        try:
            f()
        except Exception:
            mon.check("refusal", True, key=key)
        else:
            mon.check("refusal", False, "accepted", key=key)

    k = rng.integers(len(d["first_atoms"]))
    q = project(dict(c, phdim=None))
    e = copy.deepcopy(d)
    del e["first_atoms"][k]["forces"]
    q.dataset = e
    refused(lambda: q.produce_fc3(), "refusal:no-first-forces")
    e = copy.deepcopy(d)
    s2 = e["first_atoms"][k]["second_atoms"]
    if s2:
        del s2[int(rng.integers(len(s2)))]["forces"]
        q.dataset = e
        refused(lambda: q.produce_fc3(), "refusal:no-pair-forces")
    q.generate_displacements(distance=0.03)
    refused(lambda: q.produce_fc3(), "refusal:no-forces")
    refused(lambda: q.produce_fc2(), "refusal:fc2-no-forces")


def run(c, mon):
    if c["name"] == "tric1":
        pass
    rng = np.random.default_rng(c["o"])
    {"fd": fd, "cut": cut, "fit": fit, "scale": scale}[c["kind"]](c, mon, rng)
