"""C08: on-the-fly collision rates equal those from stored strengths and weights."""

import numpy as np

from harness import ph
from harness.core import Skip

PROP = "C08"
RULE = (
    "random crystal, mesh, grid points, band subset, temperatures (0 to 3000 K), tetrahedron and "
    "several smearings with and without cutoff width, N/U separation, fc3q symmetrisation, r0 "
    "average, full/compact fc3, frequency cutoff; linewidths of the low-memory route, the "
    "explicit full-pp route and run_imag_self_energy on the bands are compared; distinct by "
    "(crystal, mesh, options)"
)
REQUIRED = {"detail-route": 300, "full-pp": 3000, "NU-sum": 400, "NU-full": 400, "ise": 400, "sym": 500,
            "subset": 200, "sigma": 400, "tetrahedron": 400, "umklapp-share": 100,
            "distribution": 400, "read-pp": 300}


def cases(tier, rng):
    n = 70 if tier == "quick" else 700
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 6, max_atoms=4 if i % 10 else 6)
        c["sym"] = i % 4 == 1
        c["cutf"] = [1e-4, 1e-4, 1.5][int(rng.integers(3))]
        c["sub"] = i % 3 == 2
        c["sc"] = [None, None, 3.0, 5.0][int(rng.integers(4))]
        s = [None, float(rng.uniform(0.05, 0.5)), float(rng.uniform(0.5, 2))]
        k = int(rng.integers(5))
        c["sigmas"] = [s[:1], s[1:2], s, s[1:], s[::-1]][k]
        c["T"] = sorted(float(x) for x in rng.choice([0, 1, 20, 100, 300, 400, 3000],
                                                     size=int(rng.integers(1, 4)), replace=False))
        c["NU"] = bool(rng.random() < 0.6)
        out.append(c)
    return out


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    nb = 3 * len(p3.primitive)
    band = None
    ir = ph.ir_gps(p3)
    gps = sorted(int(x) for x in rng.choice(ir, size=min(2, len(ir)), replace=False))
    if c["sub"]:
        p3.init_phph_interaction()
        p3.run_phonon_solver()
        f = p3.get_phonon_data()[0]
        # any subset: averaging over degenerate bands acts within the subset on both routes
        band = sorted(int(x) for x in rng.choice(nb, size=int(rng.integers(1, nb + 1)),
                                                 replace=False))
        p3.band_indices = [[b] for b in band]
    p3.sigmas = c["sigmas"]
    p3.sigma_cutoff = c["sc"]
    p3.init_phph_interaction(symmetrize_fc3q=c["sym"])
    p3.run_phonon_solver()
    kw = dict(temperatures=c["T"], grid_points=gps)

    def gam(**k):
        p3.run_thermal_conductivity(**kw, **k)
        t = p3.thermal_conductivity
        return np.array(t.gamma), [None if x is None else np.array(x) for x in t.get_gamma_N_U()]

    low, (lN, lU) = gam(is_N_U=c["NU"])
    full, _ = gam(is_full_pp=True)
    scale = max(np.abs(full).max(), 1e-12)
    mon.check("finite", np.isfinite(low).all(), str(low), n=low.size)
    tag = "sym" if c["sym"] else ("subset" if band is not None else "all")
    mon.close("full-pp", low, full, rtol=1e-8, scale=scale, key=f"full-pp:{tag}",
              detail=f"gps {gps} bands {band} sigmas {c['sigmas']}")
    mon.events["sym"] += low.size * c["sym"]
    mon.events["subset"] += low.size * (band is not None)
    for s in c["sigmas"]:
        mon.events["tetrahedron" if s is None else "sigma"] += low[0].size
    if c["NU"]:
        mon.close("NU-sum", lN + lU, low, rtol=1e-10, scale=scale)
        if c["sc"] is None:
            g2, (fN, fU) = gam(is_N_U=True, is_full_pp=True)
            mon.close("NU-sum", fN + fU, g2, rtol=1e-10, scale=scale)
            mon.close("NU-full", fN, lN, rtol=1e-8, scale=scale, key=f"NU-full:{tag}")
            mon.close("NU-full", fU, lU, rtol=1e-8, scale=scale, key=f"NU-full:{tag}")
            mon.close("full-pp", g2, full, rtol=1e-8, scale=scale)
        mon.events["umklapp-share"] += int((lU > 1e-3 * scale).sum())
    # through files of interaction strengths
    if not c["sym"] and len(c["sigmas"]) == 1:
        full_store = bool(rng.integers(2))
        g3, _ = gam(write_pp=True, is_full_pp=full_store)
        mon.close("read-pp", g3, full, rtol=1e-8, scale=scale)
        g4, _ = gam(read_pp=True, is_full_pp=full_store)
        mon.close("read-pp", g4, full, rtol=1e-8, scale=scale, key="read-pp")
    # details and collision matrices go through stored strengths as well
    if c["seed"] % 2 == 0:
        g6, _ = gam(write_gamma_detail=True)
        mon.close("detail-route", g6, full, rtol=1e-8, scale=scale, detail=str(c["sigmas"]))
        if band is None and not c["sym"]:
            p3.run_thermal_conductivity(is_LBTE=True, temperatures=c["T"], grid_points=gps[:1])
            g7 = np.array(p3.thermal_conductivity.gamma)[:, :, :1]
            mon.close("lbte-route", g7, full[:, :, :1], rtol=1e-8, scale=scale, detail=str(c["sigmas"]))
    # imaginary self energy at the bands
    if c["sc"] is None:
        r = p3.run_imag_self_energy(gps, c["T"], frequency_points_at_bands=True)[1]
        mon.close("ise", r, np.array(full), rtol=1e-8, scale=scale, detail=str(c["sigmas"]))
    # the work distribution
    for flag in (True, False):
        p3.init_phph_interaction(symmetrize_fc3q=c["sym"], openmp_per_triplets=flag)
        p3.run_phonon_solver()
        g5, _ = gam()
        mon.close("distribution", g5, low, rtol=1e-8, scale=scale)
    mon.sig(c["name"], c["set"], tuple(np.array(p3.mesh_numbers).tolist()), c["sym"], c["r0"],
            c["compact"], str(c["sigmas"]), c["sc"], str(c["T"]), str(band), c["NU"])
