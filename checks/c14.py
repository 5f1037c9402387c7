"""C14: files reproduce the arrays they were written from; names identify the settings."""

import os

import h5py
import numpy as np

from harness import ph
from harness.core import Skip

PROP = "C14"
RULE = (
    "random arrays of random shapes through every write/read pair (force constants, phonons, "
    "interaction strengths with all kinds of zero patterns, linewidths, collision matrices) and "
    "real runs writing conductivity, gamma-detail, strength, collision, self-energy, joint-DOS "
    "and spectral files, whose datasets are compared with the arrays of the object; runs are "
    "restarted from files; random pairs of settings have to give distinct file names; distinct "
    "by (file type, shape class, options)"
)
REQUIRED = {"pp": 20000, "fc": 20000, "phonon": 5000, "gamma": 1000, "collision": 2000,
            "names": 400, "kappa-file": 3000, "detail-file": 1000, "txt": 2000, "restart": 100,
            "pp-file": 500, "refused": 20}
COMP = ["gzip", None, "lzf", 1, 9]


def cases(tier, rng):
    n = 300 if tier == "quick" else 1200
    kinds = ["arrays", "arrays", "names", "rta", "rta", "lbte", "ise", "rse", "jdos", "spectral",
             "restart", "restart"]
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        c = ph.gen(rng, max_mesh=3, max_atoms=4 if i % 5 == 0 and k != "lbte" else 2)
        c["kind"] = k
        s = [None, round(float(rng.uniform(0.1, 0.5)), 3), float(rng.uniform(0.5, 2))]
        c["sigmas"] = [s[:1], s[1:2], s[1:], s, s[::-1]][int(rng.integers(5))]
        c["sc"] = [None, None, 4.0][int(rng.integers(3))]
        c["T"] = [float(x) for x in rng.choice([3, 20, 100, 300.5, 900, 3000],
                                               size=int(rng.integers(1, 4)), replace=False)]
        c["iso"] = bool(rng.integers(2))
        c["mfp"] = [None, 0.1][int(rng.integers(2))]
        c["comp"] = int(rng.integers(len(COMP)))
        c["fn"] = None if rng.integers(2) else "out" + str(int(rng.integers(5)))
        c["opt"] = int(rng.integers(1000))
        out.append(c)
    return out


def h5(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][()] for k in f.keys()}


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    {"arrays": arrays, "names": names, "rta": rta, "lbte": lbte, "ise": ise, "rse": rse,
     "jdos": jdos, "spectral": spectral, "restart": restart}[c["kind"]](c, mon, rng)


# ------------------------------------------------------------------ arrays
def arrays(c, mon, rng):
    from phono3py import file_IO as F

    comp = COMP[c["comp"]]
    mesh = rng.integers(1, 30, size=3)
    gp = int(rng.integers(0, 5000))
    sg = None if rng.integers(2) else float(rng.uniform(0.01, 3))
    sd = None if rng.integers(2) else float(rng.integers(2, 6))
    fn = c["fn"]
    # force constants
    n = int(rng.integers(1, 9))
    p2s = np.arange(0, n, max(1, n // int(rng.integers(1, 3))))
    if rng.integers(2):
        m = len(p2s)
    else:
        m = n
    fc3 = rng.normal(size=(m, n, n, 3, 3, 3))
    fc2 = rng.normal(size=(m, n, 3, 3))
    F.write_fc3_to_hdf5(fc3, filename="a3.hdf5", p2s_map=p2s, compression=comp)
    mon.equal("fc", F.read_fc3_from_hdf5("a3.hdf5", p2s_map=p2s), fc3)
    F.write_fc2_to_hdf5(fc2, filename="a2.hdf5", p2s_map=p2s, physical_unit="eV/angstrom^2",
                        compression=comp)
    mon.equal("fc", F.read_fc2_from_hdf5("a2.hdf5", p2s_map=p2s), fc2)
    if m != n and m > 1:
        for rd in (lambda: F.read_fc3_from_hdf5("a3.hdf5", p2s_map=p2s[::-1].copy()),
                   lambda: F.read_fc2_from_hdf5("a2.hdf5", p2s_map=p2s[::-1].copy())):
            try:
                rd()
                mon.check("refused", False, "force constants of another primitive cell were read",
                          key="refused:fc")
            except Exception:
                mon.check("refused", True)
    # interaction strengths
    for _ in range(4):
        shape = (int(rng.integers(1, 9)), int(rng.integers(1, 7)), 3 * int(rng.integers(1, 3)))
        shape = shape + shape[2:]
        pp = 10 ** rng.uniform(-30, 2, size=shape)
        z = (rng.random(shape) < rng.choice([0, 0.3, 0.97, 1])).astype("byte")
        pp[z == 1] = 0
        chk = bool(rng.integers(2))
        F.write_pp_to_hdf5(mesh, pp=pp, g_zero=z, grid_point=gp, sigma=sg, sigma_cutoff=sd,
                           filename=fn, verbose=False, check_consistency=chk,
                           **({"compression": comp}))
        x, y = F.read_pp_from_hdf5(mesh, grid_point=gp, sigma=sg, sigma_cutoff=sd, filename=fn,
                                   verbose=False, check_consistency=chk)
        mon.equal("pp", x, pp, detail=f"shape {shape}")
        mon.equal("pp", y, z, detail=f"shape {shape}")
        t = rng.integers(0, 99, size=(shape[0], 3))
        F.write_pp_to_hdf5(mesh, pp=pp, grid_point=gp, triplet=t, weight=t[:, 0], triplet_all=t,
                           triplet_map=t[:, 1], sigma=sg, sigma_cutoff=sd, filename=fn,
                           verbose=False, compression=comp)
        x, y = F.read_pp_from_hdf5(mesh, grid_point=gp, sigma=sg, sigma_cutoff=sd, filename=fn,
                                   verbose=False)
        mon.equal("pp", x, pp)
        mon.check("pp", y is None, "g_zero appeared")
        mon.sig("pp", int(np.prod(shape)) % 8, int(z.sum() > 0))
    mon.check("pp", F.read_pp_from_hdf5(mesh + 1, grid_point=gp, filename="zz", verbose=False) is None,
              "missing file")
    # phonons
    nq, nb = int(rng.integers(1, 40)), 3 * int(rng.integers(1, 4))
    fr = rng.normal(size=(nq, nb))
    ev = rng.normal(size=(nq, nb, nb)) + 1j * rng.normal(size=(nq, nb, nb))
    ad = rng.integers(-40, 40, size=(nq, 3))
    F.write_phonon_to_hdf5(fr, ev, ad, mesh, compression=comp, filename=fn)
    x = F.read_phonon_from_hdf5(mesh, filename=fn, verbose=False)
    for a, b in zip(x, (fr, ev, ad)):
        mon.equal("phonon", a, b)
    # linewidths, collisions
    T = np.sort(rng.uniform(0, 1000, size=int(rng.integers(1, 5))))
    g = rng.random(size=(len(T), nq, nb))
    opt = {k: (rng.random(size=g.shape) if rng.integers(2) else None) for k in ("gamma_N", "gamma_U")}
    if opt["gamma_N"] is None or opt["gamma_U"] is None:
        opt = {}
    gi = rng.random(size=g.shape[1:]) if rng.integers(2) else None
    av = rng.random(size=g.shape[1:]) if rng.integers(2) else None
    F.write_kappa_to_hdf5(T, mesh, gamma=g, gamma_isotope=gi, averaged_pp_interaction=av, sigma=sg,
                          sigma_cutoff=sd, compression=comp, filename=fn, verbose=False, **opt)
    d, _ = F.read_gamma_from_hdf5(mesh, sigma=sg, sigma_cutoff=sd, filename=fn)
    mon.equal("gamma", d["gamma"], g)
    for k, v in (("gamma_isotope", gi), ("ave_pp", av), *opt.items()):
        if v is not None:
            mon.equal("gamma", d[k], v, key=f"gamma:{k}")
    b = int(rng.integers(nb))
    F.write_kappa_to_hdf5(T, mesh, gamma=g[:, 0, b], gamma_isotope=None if gi is None else gi[0, b],
                          averaged_pp_interaction=None if av is None else av[0, b], sigma=sg,
                          grid_point=gp, band_index=b, sigma_cutoff=sd, compression=comp,
                          filename=fn, verbose=False)
    d, _ = F.read_gamma_from_hdf5(mesh, sigma=sg, sigma_cutoff=sd, filename=fn, grid_point=gp,
                                  band_index=b)
    mon.equal("gamma", d["gamma"], g[:, 0, b])
    if av is not None:
        mon.equal("gamma", d["ave_pp"], av[0, b])
    cm = rng.normal(size=(len(T), 2, 3, 3, 2, 3, 3))
    gm = rng.random(size=(len(T), 2, 3))
    F.write_collision_to_hdf5(T, mesh, gamma=gm, collision_matrix=cm, sigma=sg, sigma_cutoff=sd,
                              filename=fn)
    x = F.read_collision_from_hdf5(mesh, indices="all", sigma=sg, sigma_cutoff=sd, filename=fn,
                                   verbose=False)
    mon.equal("collision", x[0][0], cm)
    mon.equal("collision", x[1], gm)
    mon.equal("collision", x[2], T)
    i = sorted(int(v) for v in rng.choice(len(T), size=int(rng.integers(1, len(T) + 1)), replace=False))
    x = F.read_collision_from_hdf5(mesh, indices=i, sigma=sg, sigma_cutoff=sd, filename=fn,
                                   verbose=False)
    mon.equal("collision", x[0][0], cm[i])
    mon.equal("collision", x[1], gm[i])
    mon.equal("collision", x[2], T[i])
    x = F.read_collision_from_hdf5(mesh, indices=i, sigma=sg, sigma_cutoff=sd, filename=fn,
                                   only_temperatures=True, verbose=False)
    mon.equal("collision", x[2], T[i], key="collision:temperatures")
    w = F.write_collision_eigenvalues_to_hdf5(T, mesh, rng.normal(size=(len(T), 5)), sigma=sg,
                                              sigma_cutoff=sd, filename=fn, verbose=False)
    del w
    mon.sig("arrays", n, m == n, str(comp), sg is None, sd is None, fn is None, len(T))


# ------------------------------------------------------------------- names
def names(c, mon, rng):
    from phono3py import file_IO as F

    def setting():
        return dict(mesh=tuple(int(x) for x in rng.choice([1, 2, 3, 4, 8, 11, 12, 21, 111], size=3)),
                    grid_point=None if rng.integers(3) == 0 else int(rng.choice([0, 1, 2, 11, 12, 111])),
                    band_indices=None if rng.integers(2) else
                    tuple(int(x) for x in rng.choice(14, size=int(rng.integers(1, 4)), replace=False)),
                    sigma=None if rng.integers(3) == 0 else float(rng.choice([0.1, 0.01, 1, 1.1, 10,
                                                                               100, 0.5, 2])),
                    sigma_cutoff=None if rng.integers(2) else float(rng.choice([3, 4, 5, 10])),
                    temperature=None if rng.integers(2) else float(rng.choice([0, 1, 10, 100, 300,
                                                                               300.5, 1000])),
                    filename=None if rng.integers(2) else str(rng.choice(["a", "b", "run-x", "q_r"])))

    seen = {}
    for _ in range(60):
        base = setting()
        group = [base]
        for _ in range(10):  # neighbours differing in one or two fields
            d = dict(base)
            other = setting()
            for k in rng.choice(list(base), size=int(rng.integers(1, 3)), replace=False):
                d[k] = other[k]
            group.append(d)
        for d in group:
            if d["grid_point"] is None:
                d["band_indices"] = None
            if d["sigma"] is None:
                d["sigma_cutoff"] = None
            t = F.get_filename_suffix(**d)
            seen.setdefault(t, set()).add(tuple(sorted((k, str(v)) for k, v in d.items())))
    for t, s in seen.items():
        mon.events["names"] += 1
        if len(s) > 1:
            fields = set()
            x = [dict(v) for v in s]
            for y in x[1:]:
                fields |= {k for k in y if y[k] != x[0][k]}
            same_digits = fields == {"mesh"}
            mon.violation("name:mesh-digits" if same_digits else f"name:{sorted(fields)}",
                          f"{t} stands for {x[:3]}")
    # text files
    got = {}
    for _ in range(80):
        mesh = tuple(int(x) for x in rng.integers(2, 5, size=3))
        gp = int(rng.integers(0, 20))
        bi = sorted(int(x) for x in rng.choice(13, size=int(rng.integers(1, 4)), replace=False))
        sg = None if rng.integers(2) else float(rng.choice([0.1, 0.2, 1]))
        T = float(rng.choice([0, 10, 100, 300.25]))
        fn = None if rng.integers(2) else "x"
        ev = [None, 1, 2][int(rng.integers(3))]
        f, g = rng.random(5), rng.random(5)
        w = F.write_imag_self_energy_at_grid_point(gp, bi, mesh, f, g, sigma=sg, temperature=T,
                                                   scattering_event_class=ev, filename=fn)
        k = ("gammas", mesh, gp, tuple(bi), sg, T, fn, ev)
        mon.check("names", got.setdefault(w, k) == k, f"{w}: {got[w]} {k}", key="name:gammas")
        mon.close("txt", np.loadtxt(w), np.c_[f, g], atol=1e-7)
        eps = float(rng.choice([0.1, 1e-3, 1e-7, 1e-8]))
        w = F.write_real_self_energy_at_grid_point(gp, bi, f, g, mesh, eps, T, filename=fn)
        k = ("deltas", mesh, gp, tuple(bi), eps, T, fn)
        mon.check("names", got.setdefault(w, k) == k, f"{w}: {got[w]} {k}", key="name:deltas")
        w = F.write_real_self_energy_to_hdf5(gp, bi, [T], g, mesh, eps, filename=fn)
        k = ("deltash5", mesh, gp, eps, fn)
        mon.check("names", got.setdefault(w, k) == k, f"{w}: {got[w]} {k}", key="name:deltas-hdf5")
        w = F.write_spectral_function_at_grid_point(gp, bi, f, g, mesh, T, sigma=sg, filename=fn)
        k = ("spectral", mesh, gp, tuple(bi), sg, T, fn)
        mon.check("names", got.setdefault(w, k) == k, f"{w}: {got[w]} {k}", key="name:spectral")
        mon.close("txt", np.loadtxt(w), np.c_[f, g], atol=1e-7)
        w = F.write_joint_dos(gp, mesh, f, np.array([np.c_[f, g]] * 2), sigma=sg,
                              temperatures=[T, T + 1], filename=fn)
        mon.check("names", len(set(w)) == 2 and all(os.path.exists(x) for x in w), str(w),
                  key="name:jdos")
    mon.sig("names", len(seen))


# -------------------------------------------------------------------- runs
def obj(c, bands=None):
    p = ph.build(c)
    if p is None:
        raise Skip("mesh refused")
    p.sigmas = c["sigmas"]
    p.sigma_cutoff = c["sc"]
    if bands is not None:
        p.band_indices = bands
    p.init_phph_interaction()
    return p


def suffix(p, c, gp=None, sigma=None, fn=None, bands=()):
    m = "".join(str(int(x)) for x in p.mesh_numbers)
    t = f"-m{m}" + ("" if gp is None else f"-g{int(gp)}")
    if len(bands):
        t += "-" + "".join(f"b{b + 1}" for b in bands)
    if sigma is not None:
        t += f"-s{sigma:f}".rstrip("0").rstrip(".")
        if c["sc"] is not None:
            t += f"-sd{c['sc']:g}"
    return t + ("" if fn is None else "." + fn)


MAP = {"frequency": "frequencies", "group_velocity": "group_velocities", "gv_by_gv": "gv_by_gv",
       "heat_capacity": "mode_heat_capacities", "qpoint": "qpoints", "grid_point": "grid_points",
       "weight": "grid_weights", "temperature": "temperatures", "mesh": "mesh_numbers",
       "boundary_mfp": "boundary_mfp", "ave_pp": "averaged_pp_interaction"}
PERSIG = {"kappa": "kappa", "mode_kappa": "mode_kappa", "gamma": "gamma", "kappa_C": "kappa_C",
          "gamma_isotope": "gamma_isotope", "kappa_RTA": "kappa_RTA", "mode_kappa_C": "mode_kappa_C",
          "mode_kappa_RTA": "mode_kappa_RTA", "kappa_TOT_RTA": "kappa_TOT_RTA",
          "kappa_P_RTA": "kappa_P_RTA", "mode_kappa_P_RTA": "mode_kappa_P_RTA",
          "kappa_P_exact": "kappa_P_exact", "mode_kappa_P_exact": "mode_kappa_P_exact"}


def kappa_file(p, c, mon, t, j, sg, red=False):
    fn = "kappa" + suffix(p, c, sigma=sg, fn=c["fn"]) + ".hdf5"
    if not mon.check("kappa-file", os.path.exists(fn), f"{fn} not in {os.listdir('.')}", key="kappa-name"):
        return
    d = h5(fn)
    for k, a in MAP.items():
        v = getattr(t, a, None)
        if k == "frequency" and red:
            v = t.get_frequencies_all()
        if v is None:
            mon.check("kappa-file", k not in d or k in ("gv_by_gv",), f"{k} in file, not in object")
            continue
        if k not in d:
            mon.check("kappa-file", "wigner" in str(type(t)).lower() or "kubo" in str(type(t)).lower(),
                      f"{k} not in {fn}", key=f"missing:{k}")
            continue
        mon.close("kappa-file", d[k], np.array(v), rtol=1e-14, key=f"kappa-file:{k}")
    for k, a in PERSIG.items():
        v = getattr(t, a, None)
        if v is None:
            mon.check("kappa-file", k not in d, f"{k} in file, not in object")
            continue
        if mon.check("kappa-file", k in d, f"{k} not in {fn}", key=f"missing:{k}"):
            x, y = d[k], np.array(v)[j]
            ok = np.isfinite(y)
            mon.close("kappa-file", np.where(ok, x, 0), np.where(ok, y, 0), rtol=1e-14,
                      key=f"kappa-file:{k}", detail=f"sigma {sg} of {c['sigmas']}")
    mon.check("kappa-file", (d.get("sigma") == sg) if sg is not None else "sigma" not in d, "sigma")
    mon.check("kappa-file", (d.get("sigma_cutoff_width") == c["sc"]) if c["sc"] is not None
              else "sigma_cutoff_width" not in d, "sigma cutoff")
    G = p.grid.grid_matrix
    if G is not None:
        mon.equal("kappa-file", d["grid_matrix"], np.array(G))
        mon.equal("kappa-file", d["P_matrix"], np.array(p.grid.P))
        mon.equal("kappa-file", d["Q_matrix"], np.array(p.grid.Q))
    else:
        mon.check("kappa-file", "grid_matrix" not in d, "grid matrix of a regular grid")
    v = 1e24 * 1e-20 / 1e-30 * 1.602176634e-19 / 1e12 / (2 * np.pi) / p.primitive.volume
    mon.close("kappa-file", d["kappa_unit_conversion"], v, rtol=1e-5, key="kappa-file:unit")
    return d


def rta(c, mon, rng):
    p = obj(c)
    o = c["opt"]
    kind = [None, None, "wigner"][o % 3]
    detail = (o // 3) % 2 == 0
    kw = dict(is_N_U=(o // 6) % 2 == 0 and kind is None and not detail, is_full_pp=(o // 12) % 3 == 0)
    p.run_thermal_conductivity(temperatures=c["T"], is_isotope=c["iso"], boundary_mfp=c["mfp"],
                               write_kappa=True, write_gamma=True, write_gamma_detail=detail,
                               write_pp=True, compression=COMP[c["comp"]], output_filename=c["fn"],
                               conductivity_type=kind, **kw)
    t = p.thermal_conductivity
    for j, sg in enumerate(c["sigmas"]):
        d = kappa_file(p, c, mon, t, j, sg)
        if kw["is_N_U"] and d:
            for k, v in zip(("gamma_N", "gamma_U"), t.get_gamma_N_U()):
                mon.close("kappa-file", d[k], np.array(v)[j], rtol=1e-14, key=f"kappa-file:{k}")
    ref = ph.build(c)
    ref.sigmas, ref.sigma_cutoff = c["sigmas"], c["sc"]
    ref.init_phph_interaction()
    for i, gp in enumerate(t.grid_points):
        tri = None
        for j, sg in enumerate(c["sigmas"]):
            g = h5("kappa" + suffix(p, c, gp=gp, sigma=sg, fn=c["fn"]) + ".hdf5")
            mon.close("kappa-file", g["gamma"], np.array(t.gamma)[j, :, i], rtol=1e-14, key="gp-gamma")
            mon.equal("kappa-file", g["grid_point"], gp)
            if c["iso"]:
                mon.close("kappa-file", g["gamma_isotope"], np.array(t.gamma_isotope)[j, i], rtol=1e-14,
                          key="gp-iso")
            mon.close("kappa-file", g["frequency"], np.array(t.frequencies)[i], rtol=1e-14, key="gp-freq")
            if kind is None:
                mon.close("kappa-file", g["gv_by_gv"], np.array(t.gv_by_gv)[i], rtol=1e-14, key="gp-gv")
            mon.close("kappa-file", g["heat_capacity"], np.array(t.mode_heat_capacities)[:, i],
                      rtol=1e-14, key="gp-cv")
            if not detail:
                continue
            h = h5("gamma_detail" + suffix(p, c, gp=gp, sigma=sg, fn=c["fn"]) + ".hdf5")
            x, w = h["gamma_detail"], h["weight"]
            # per-triplet contributions add up to the linewidth of this smearing
            tot = x.sum(axis=(3, 4))  # the factor of the weight is included or not
            nb = x.shape[2]
            f = np.array(t.frequencies)[i]
            g1 = np.einsum("tkb,k->tb", tot, w)
            want = np.array(t.gamma)[j, :, i]
            for b in range(nb):
                deg = np.abs(f - f[b]) < 1e-4
                # chained degeneracy is averaged
                g1[:, b] = g1[:, deg].mean(axis=1) if deg.sum() == 1 else g1[:, b]
            lone = np.array([(np.abs(f - f[b]) < 1e-3).sum() == 1 for b in range(nb)])
            mon.close("detail-file", g1[:, lone], want[:, lone], rtol=1e-8,
                      scale=max(np.abs(want).max(), 1e-30),
                      detail=f"sigma {sg} of {c['sigmas']}", key="detail-sum")
            tri = h["triplet"]
            mon.check("detail-file", tri.shape == (len(w), 3) and w.sum() == ph.ngrid(p)
                      and h["triplet_all"].shape == (ph.ngrid(p), 3), "triplets")
            mon.equal("detail-file", h["temperature"], np.array(c["T"]))
            mon.equal("detail-file", h["mesh"], np.array(p.mesh_numbers))
        # strengths: those of the last smearing
        sg = c["sigmas"][-1]
        h = h5("pp" + suffix(p, c, gp=gp, sigma=sg, fn=c["fn"]) + ".hdf5")
        if len(c["sigmas"]) == 1:
            from phono3py.file_IO import read_pp_from_hdf5

            x, z = read_pp_from_hdf5(np.array(p.mesh_numbers), grid_point=int(gp), sigma=sg,
                                     sigma_cutoff=c["sc"], filename=c["fn"], verbose=False)
            q = ref.phph_interaction
            q.set_grid_point(int(gp))
            q.run()
            y = np.array(q.interaction_strength)
            keep = np.ones(y.shape, bool) if z is None else z == 0
            mon.close("pp-file", x[keep], y[keep], rtol=1e-8, scale=np.abs(y).max())
            mon.check("pp-file", (x[~keep] == 0).all(), "skipped elements")
            if z is None:
                mon.equal("pp-file", h["triplet"], np.array(q.get_triplets_at_q()[0]))
                mon.equal("pp-file", h["weight"], np.array(q.get_triplets_at_q()[1]))
    mon.sig("rta", c["name"], str(c["sigmas"]), kind, detail, str(kw), c["fn"] is None, c["comp"])


def lbte(c, mon, rng):
    p = obj(c)
    nb = 3 * len(p.primitive)
    red = c["opt"] % 2 == 0
    if (ph.ngrid(p) * nb if red else len(ph.ir_gps(p)) * nb * 3) > 300:
        raise Skip("large")
    solver = [0, 3, 4, 5, 7][c["opt"] % 5]
    p.run_thermal_conductivity(is_LBTE=True, temperatures=c["T"], is_isotope=c["iso"],
                               boundary_mfp=c["mfp"], is_reducible_collision_matrix=red,
                               write_kappa=True, write_collision=True, write_LBTE_solution=True,
                               compression=COMP[c["comp"]], output_filename=c["fn"],
                               pinv_solver=solver)
    t = p.thermal_conductivity
    raw = obj(c)
    raw.run_thermal_conductivity(is_LBTE=True, temperatures=c["T"], is_isotope=c["iso"],
                                 grid_points=[int(x) for x in ph.ir_gps(p)][:1],
                                 is_reducible_collision_matrix=red)
    for j, sg in enumerate(c["sigmas"]):
        d = kappa_file(p, c, mon, t, j, sg, red)
        if d and "f_vector" in d:
            mon.close("kappa-file", d["f_vector"], np.array(t.get_f_vectors()), rtol=1e-14, key="f_vector")
        if solver != 7:
            e = h5("coleigs" + suffix(p, c, sigma=sg, fn=c["fn"]) + ".hdf5")
            mon.close("collision", e["collision_eigenvalues"], np.array(t.collision_eigenvalues)[j],
                      rtol=1e-14, key="coleigs")
        full = h5("collision" + suffix(p, c, sigma=sg, fn=c["fn"]) + ".hdf5")
        mon.equal("collision", full["temperature"], np.array(c["T"]))
        for i, gp in enumerate(t.grid_points):
            h = h5("collision" + suffix(p, c, gp=gp, sigma=sg, fn=c["fn"]) + ".hdf5")
            k = int(np.array(p.grid.bzg2grg)[gp]) if red else i
            mon.close("collision", h["collision_matrix"], full["collision_matrix"][:, k], rtol=1e-14,
                      key="collision:gp-full")
            mon.close("collision", h["gamma"], full["gamma"][:, k], rtol=1e-14, key="collision:gamma")
            if i == 0:
                x = np.array(raw.thermal_conductivity.collision_matrix)[j, :, 0]
                mon.close("collision", h["collision_matrix"], x, rtol=1e-9, key="collision:raw")
            if c["iso"]:
                mon.check("collision", h["gamma_isotope"].shape == (nb,), "isotope")
        uf = "unitary" + suffix(p, c, sigma=sg, fn=c["fn"]) + ".hdf5"
        if solver == 3:
            u = h5(uf)["unitary_matrix"]
            n = (ph.ngrid(p) if red else 3 * len(t.grid_points)) * nb
            u = u.reshape(-1, n, n)
            for x in u:
                mon.close("collision", x @ x.T, np.eye(n), atol=1e-6, key="collision:unitary")
    mon.sig("lbte", c["name"], red, solver, str(c["sigmas"]), c["fn"] is None)


def band_sets(nb, rng):
    o = [int(x) for x in rng.permutation(nb)[: int(rng.integers(1, nb + 1))]]
    cut = sorted(set(int(x) for x in rng.integers(1, len(o), size=2))) if len(o) > 1 else []
    return [sorted(int(v) for v in x) for x in np.split(np.array(o), cut)]


def ise(c, mon, rng):
    p0 = obj(c)
    bands = band_sets(3 * len(p0.primitive), rng)
    p = obj(c, bands)
    gps = [int(x) for x in rng.choice(ph.ir_gps(p), size=min(2, len(ph.ir_gps(p))), replace=False)]
    ev = [None, 1, 2][c["opt"] % 3]
    det = (c["opt"] // 3) % 2 == 0
    f, g, *d = p.run_imag_self_energy(gps, c["T"], num_frequency_points=11, write_txt=True,
                                      scattering_event_class=ev, output_filename=c["fn"],
                                      write_gamma_detail=det and ev is None,
                                      keep_gamma_detail=det and ev is None)
    g = np.array(g)
    files = set(os.listdir("."))
    used = set()
    for j, sg in enumerate(c["sigmas"]):
        for k, T in enumerate(c["T"]):
            for i, gp in enumerate(gps):
                pos = 0
                for b in bands:
                    m = "".join(str(int(x)) for x in p.mesh_numbers)
                    n = f"gammas-m{m}-g{gp}-"
                    if sg is not None:
                        n += "s" + f"{sg:f}".rstrip("0").rstrip(".") + "-"
                    n += "t" + f"{T:f}".rstrip("0").rstrip(".") + "-" + "".join(f"b{x + 1}" for x in b)
                    n += "" if ev is None else f"-c{ev}"
                    n += "" if c["fn"] is None else "." + c["fn"]
                    n += ".dat"
                    used.add(n)
                    if mon.check("txt", n in files, f"{n} not in {sorted(files)[:4]}", key="txt-name"):
                        x = np.loadtxt(n)
                        want = g[j, k, i, pos:pos + len(b)].mean(axis=0)
                        mon.close("txt", x[:, 0], f, atol=1e-6)
                        mon.close("txt", x[:, 1], want, rtol=1e-13, key="txt:gamma")
                    pos += len(b)
    rest = {x for x in files - used if x.startswith("gammas")}
    mon.check("txt", not rest, f"unexpected files {rest}", key="txt-extra")
    if det and ev is None:
        for j, sg in enumerate(c["sigmas"]):
            for i, gp in enumerate(gps):
                s = suffix(p, {"sc": None}, gp=gp, sigma=sg, fn=c["fn"])
                h = h5("gamma_detail" + s + ".hdf5")
                mon.close("detail-file", h["gamma_detail"], np.array(d[0][i][j]), rtol=1e-14,
                          key="detail:ise")
                mon.close("detail-file", h["frequency_point"], f, rtol=1e-14)
    mon.sig("ise", c["name"], str(bands), ev, det, str(c["sigmas"]))


def rse(c, mon, rng):
    p0 = obj(c)
    bands = band_sets(3 * len(p0.primitive), rng)
    p = obj(c, bands)
    gps = [int(x) for x in rng.choice(ph.ir_gps(p), size=min(2, len(ph.ir_gps(p))), replace=False)]
    eps = [float(x) for x in rng.choice([0.01, 0.1, 0.5, 1e-6, 1e-7], size=2, replace=False)]
    for fn in {c["fn"], "second"}:
        f, g = p.run_real_self_energy(gps, c["T"], num_frequency_points=11, epsilons=eps,
                                      write_txt=True, write_hdf5=True, output_filename=fn)
        g = np.array(g)
        m = "".join(str(int(x)) for x in p.mesh_numbers)
        for j, e in enumerate(eps):
            es = f"-e{e:f}".rstrip("0").rstrip(".") if e > 1e-5 else f"-e{e:.3e}"
            for i, gp in enumerate(gps):
                n = f"deltas-m{m}-g{gp}{es}" + ("" if fn is None else "." + fn) + ".hdf5"
                if mon.check("txt", os.path.exists(n), f"{n} not in {sorted(os.listdir('.'))[:5]}",
                             key="deltas-name"):
                    h = h5(n)
                    mon.close("txt", h["delta"], g[j, :, i], rtol=1e-14, key="deltas:hdf5")
                    mon.close("txt", h["frequency_points"], f, rtol=1e-14)
                    mon.equal("txt", h["temperature"], np.array(c["T"]))
                    mon.equal("txt", h["epsilon"], e)
                for k, T in enumerate(c["T"]):
                    pos = 0
                    for b in bands:
                        n = (f"deltas-m{m}-g{gp}{es}" + f"-t{T:f}".rstrip("0").rstrip(".") + "-"
                             + "".join(f"b{x + 1}" for x in b) + ("" if fn is None else "." + fn)
                             + ".dat")
                        if mon.check("txt", os.path.exists(n), n, key="deltas-txt-name"):
                            x = np.loadtxt(n)
                            mon.close("txt", x[:, 1], g[j, k, i, pos:pos + len(b)].mean(axis=0),
                                      rtol=1e-13, key="txt:delta")
                        pos += len(b)
    mon.sig("rse", c["name"], str(bands), str(eps))


def jdos(c, mon, rng):
    from phono3py import Phono3pyJointDos

    p = ph.build(c)
    if p is None:
        raise Skip("mesh refused")
    T = [None, c["T"]][c["opt"] % 2]
    j = Phono3pyJointDos(p.phonon_supercell, p.phonon_primitive, p.fc2, mesh=c["mesh"],
                         nac_params=p.nac_params, sigmas=c["sigmas"], num_frequency_points=9,
                         temperatures=T, use_grg=c["grg"],
                         SNF_coordinates=c["snf"] if c["grg"] else "reciprocal",
                         output_filename=c["fn"])
    gps = [int(x) for x in rng.choice(ph.ir_gps(p), size=min(2, len(ph.ir_gps(p))), replace=False)]
    for gp in gps:
        j.run([gp], write_jdos=True)
        x = np.array(j.joint_dos)
        names = set()
        for a, sg in enumerate(c["sigmas"]):
            for b, t in enumerate(T or [None]):
                n = "jdos" + suffix(p, {"sc": None}, gp=gp, sigma=sg, fn=c["fn"])
                if t is not None:
                    n += f"-t{t:f}".rstrip("0").rstrip(".")
                n += ("" if c["fn"] is None else "." + c["fn"]) + ".dat"
                names.add(n)
                if mon.check("txt", os.path.exists(n), f"{n} not in {sorted(os.listdir('.'))}",
                             key="jdos-name"):
                    y = np.loadtxt(n)
                    mon.close("txt", y[:, 1:], x[a, b], rtol=1e-13, key="txt:jdos",
                              detail=f"sigma {sg} T {t}")
        mon.check("txt", len(names) == len(c["sigmas"]) * len(T or [None]), "names")
    mon.sig("jdos", c["name"], str(T), str(c["sigmas"]), c["fn"])


def spectral(c, mon, rng):
    p0 = obj(c)
    bands = band_sets(3 * len(p0.primitive), rng)
    p = obj(c, bands)
    gps = [int(x) for x in rng.choice(ph.ir_gps(p), size=min(2, len(ph.ir_gps(p))), replace=False)]
    p.run_spectral_function(gps, c["T"], num_frequency_points=13, write_txt=True, write_hdf5=True,
                            output_filename=c["fn"])
    s = p.spectral_function if hasattr(p, "spectral_function") else None
    flat = [b for x in bands for b in x]
    whole = len(flat) == 3 * len(p.primitive)
    for j, sg in enumerate(c["sigmas"]):
        for i, gp in enumerate(gps):
            n = "spectral" + suffix(p, {"sc": None}, gp=gp, sigma=sg,
                                    bands=() if whole else flat)
            n += ("" if c["fn"] is None else "." + c["fn"]) + ".hdf5"
            alt = "spectral" + suffix(p, {"sc": None}, gp=gp, sigma=sg, bands=flat) + \
                ("" if c["fn"] is None else "." + c["fn"]) + ".hdf5"
            n = n if os.path.exists(n) else alt
            if not mon.check("txt", os.path.exists(n), f"{n} not in {sorted(os.listdir('.'))[:6]}",
                             key="spectral-name"):
                continue
            h = h5(n)
            mon.check("txt", h["spectral_function"].shape == (len(c["T"]), len(flat), 13),
                      str(h["spectral_function"].shape), key="spectral-shape")
            if s is not None:
                mon.close("txt", h["spectral_function"], np.array(s.spectral_functions)[j, :, i], rtol=1e-14)
                mon.close("txt", h["shift"], np.array(s.shifts)[j, :, i], rtol=1e-14)
                mon.close("txt", h["half_linewidth"], np.array(s.half_linewidths)[j, :, i], rtol=1e-14)
            for k, T in enumerate(c["T"]):
                pos = 0
                for b in bands:
                    n = "spectral" + suffix(p, {"sc": None}, gp=gp, sigma=sg)
                    n += f"-t{T:f}".rstrip("0").rstrip(".") + "-" + "".join(f"b{x + 1}" for x in b)
                    n += ("" if c["fn"] is None else "." + c["fn"]) + ".dat"
                    if mon.check("txt", os.path.exists(n), n, key="spectral-txt-name"):
                        x = np.loadtxt(n)
                        mon.close("txt", x[:, 1], h["spectral_function"][k, pos:pos + len(b)].mean(axis=0),
                                  rtol=1e-13, key="txt:spectral", detail=f"sigma {sg}")
                    pos += len(b)
    mon.sig("spectral", c["name"], str(bands), str(c["sigmas"]))


def restart(c, mon, rng):
    """Phonons and force constants through files give bitwise the same linewidths."""
    from phono3py import file_IO as F

    p = obj(c)
    kw = dict(temperatures=c["T"], is_isotope=c["iso"], boundary_mfp=c["mfp"])
    p.run_phonon_solver()
    fr, ev, ad = (np.array(x) for x in p.get_phonon_data())
    p.run_thermal_conductivity(**kw)
    t = p.thermal_conductivity
    F.write_phonon_to_hdf5(fr, ev, ad, np.array(p.mesh_numbers), bz_grid=p.grid,
                           compression=COMP[c["comp"]], filename=c["fn"])
    F.write_fc3_to_hdf5(p.fc3, p2s_map=p.primitive.p2s_map, compression=COMP[c["comp"]])
    F.write_fc2_to_hdf5(p.fc2, p2s_map=p.phonon_primitive.p2s_map, compression=COMP[c["comp"]])
    x = F.read_phonon_from_hdf5(np.array(p.mesh_numbers), filename=c["fn"], verbose=False)
    for a, b in zip(x, (fr, ev, ad)):
        mon.equal("restart", a, b, key="restart:phonon")
    q = obj(c)
    q.fc3 = F.read_fc3_from_hdf5(p2s_map=q.primitive.p2s_map)
    q.fc2 = F.read_fc2_from_hdf5(p2s_map=q.phonon_primitive.p2s_map)
    mon.equal("restart", q.fc3, p.fc3, key="restart:fc3")
    mon.equal("restart", q.fc2, p.fc2, key="restart:fc2")
    q.init_phph_interaction()
    q.set_phonon_data(*x)
    q.run_thermal_conductivity(**kw)
    u = q.thermal_conductivity
    # NAC: phonons at Gamma are recomputed, all other points are bitwise those of the file
    mon.close("restart", np.array(u.gamma), np.array(t.gamma), rtol=1e-9, key="restart:gamma")
    mon.close("restart", np.array(u.kappa), np.array(t.kappa), rtol=1e-9, key="restart:kappa")
    # phonons of another grid are refused
    bad = np.array(ad)
    bad[int(rng.integers(len(bad))), int(rng.integers(3))] += 1
    for y in (bad, ad[:-1]):
        try:
            r = obj(c)
            r.set_phonon_data(fr[: len(y)], ev[: len(y)], y)
            mon.check("refused", False, "phonons of another grid accepted", key="refused:phonon")
        except RuntimeError:
            mon.check("refused", True)
    with h5py.File([z for z in os.listdir(".") if z.startswith("phonon")][0], "a") as f:
        f["mesh"][...] = np.array(p.mesh_numbers) + [0, 0, 1]
    try:
        F.read_phonon_from_hdf5(np.array(p.mesh_numbers), filename=c["fn"], verbose=False)
        mon.check("refused", False, "phonons of another mesh accepted", key="refused:mesh")
    except AssertionError:
        mon.check("refused", True)
    mon.sig("restart", c["name"], tuple(np.array(p.mesh_numbers).tolist()), c["nac"], c["compact"])
