"""C07: subsets of bands, grid points, temperatures, smearings, frequency points only slice."""

import numpy as np

from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C07"
RULE = (
    "random crystal, mesh and options; every quantity computed once for the complete set and "
    "again for random subsets/reorderings (bands: unions of degenerate groups in random order "
    "and grouping; grid points, temperatures, smearings, frequency points: random subsets in "
    "random order) with fresh objects; distinct by (crystal, mesh, subset shapes)"
)
REQUIRED = {"strength-bands": 3000, "ise-bands": 300, "ise-lists": 300, "ise-fpoints": 1000,
            "rse-bands": 300, "rse-lists": 300, "spf-lists": 500, "jdos-lists": 300,
            "iso-bands": 200, "iso-lists": 200, "tc-gp": 500, "tc-lists": 500, "tc-bands": 50}


def cases(tier, rng):
    n = 80 if tier == "quick" else 1200
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 5, max_atoms=3 if i % 8 else 4,
                   min_mesh=2)
        c["cutf"] = [1e-4, 1e-4, 1.0][int(rng.integers(3))]
        c["sigmas"] = [[None, 0.3, 0.1], [0.4, None], [0.2, 1.1, 0.5], [0.15, 0.6]][
            int(rng.integers(4))]
        c["scut"] = [None, None, 3.0][int(rng.integers(3))]
        c["T"] = [float(x) for x in rng.choice([0, 1, 20, 100, 300, 1000, 3000], size=4,
                                               replace=False)]
        c["ms"] = bool(rng.integers(5))
        c["sym"] = bool(rng.integers(4) == 0)
        if M.NATOM[c["name"]] > 3 and tier == "quick":  # six and several times as much work
            c["sym"], c["ms"] = False, True
        out.append(c)
    return out


def subset(rng, n, lo=1):
    k = int(rng.integers(lo, n + 1))
    return rng.permutation(n)[:k]


def groups(f):
    sets = [[0]]
    for i in range(1, len(f)):
        if f[i] - f[sets[-1][-1]] < 1e-4:
            sets[-1].append(i)
        else:
            sets.append([i])
    return sets


def run(c, mon):
    from phono3py import Phono3pyIsotope, Phono3pyJointDos
    from phono3py.phonon3.spectral_function import run_spectral_function

    rng = np.random.default_rng(c["seed"])

    def fresh(sigmas=None, bands=None):
        p = ph.build(c)
        if p is None:
            raise Skip("mesh refused")
        p.sigmas = c["sigmas"] if sigmas is None else sigmas
        p.sigma_cutoff = c["scut"]
        if bands is not None:
            p.band_indices = bands
        p.init_phph_interaction(symmetrize_fc3q=c["sym"])
        return p

    p = fresh()
    p.run_phonon_solver()
    nb = 3 * len(p.primitive)
    f, e, _ = (np.array(x) for x in p.phph_interaction.get_phonons())
    ir = ph.ir_gps(p)
    gps = [int(x) for x in rng.permutation(ir)[:3]]
    S, Ts = c["sigmas"], c["T"]
    fmax = max(1.0, float(f.max()))
    fpts = np.sort(rng.uniform(0, 1.8 * fmax, size=7))
    # --- band sets that are unions of complete degenerate groups at all chosen points
    ok = set(range(nb))
    chunks = []
    lo = 0
    for b in range(1, nb + 1):
        if b == nb or all(f[g, b] - f[g, b - 1] > 2e-4 for g in gps):
            chunks.append(list(range(lo, b)))
            lo = b
    pick = [chunks[i] for i in subset(rng, len(chunks))]
    split = [pick] if rng.integers(2) else [[x for y in pick for x in y]]
    bands = split[0] if isinstance(split[0][0], list) else [split[0]]
    bands = [list(x) for x in bands]
    flat = [b for x in bands for b in x]
    del ok

    # --- interaction strength (any subset of bands)
    it = p.phph_interaction
    anyb = [int(x) for x in subset(rng, nb)]
    cut = sorted(set(rng.integers(0, len(anyb) + 1, size=2).tolist()) | {0, len(anyb)})
    anyg = [anyb[a:b] for a, b in zip(cut[:-1], cut[1:])]
    q = fresh(bands=anyg)
    q.run_phonon_solver()
    # same eigenvectors: the sign/mixing freedom must not matter for the comparison
    i2 = q.phph_interaction
    mon.equal("band_indices", i2.band_indices, anyb)
    for gp in gps:
        it.set_grid_point(gp)
        it.run()
        full = np.array(it.interaction_strength)
        i2.set_grid_point(gp)
        i2.run()
        mon.close("strength-bands", i2.interaction_strength, full[:, anyb], rtol=1e-9,
                  scale=max(np.abs(full).max(), 1e-30), detail=f"bands {anyg} gp {gp}")
        av = np.array(it.averaged_interaction)
        mon.close("average-bands", i2.averaged_interaction, av[anyb], rtol=1e-9,
                  scale=max(np.abs(av).max(), 1e-30), detail=f"bands {anyg} gp {gp}")
    # --- imaginary self energy
    def fix(x):
        return np.array(x)

    full_b = fix(p.run_imag_self_energy(gps, Ts, frequency_points_at_bands=True)[1])
    full_f = fix(p.run_imag_self_energy(gps, Ts, frequency_points=fpts)[1])
    scb = max(np.abs(full_b).max(), 1e-13)
    scf = max(np.abs(full_f).max(), 1e-13)
    q = fresh(bands=bands)
    q.run_phonon_solver()

    def mean(x):
        return np.stack([x[:, :, :, g].mean(axis=3) for g in bands], axis=3)

    got = q.run_imag_self_energy(gps, Ts, frequency_points_at_bands=True)[1]
    if got.shape[3] == len(flat):
        mon.close("ise-bands", got, full_b[:, :, :, flat], rtol=1e-9, scale=scb,
                  detail=f"bands {bands}")
    else:
        mon.close("ise-bands", got, mean(full_b), rtol=1e-9, scale=scb, detail=f"bands {bands}")
    got = q.run_imag_self_energy(gps, Ts, frequency_points=fpts)[1]
    mon.close("ise-bands", got, full_f[:, :, :, flat] if got.shape[3] == len(flat)
              else mean(full_f), rtol=1e-9, scale=scf, detail=f"bands {bands} f")
    js, jt, jg = (subset(rng, len(x)) for x in (S, Ts, gps))
    jf = np.sort(subset(rng, len(fpts)))
    ix = np.ix_(js, jt, jg)
    q = fresh(sigmas=[S[i] for i in js])
    gs = [gps[i] for i in jg]
    ts = [Ts[i] for i in jt]
    got = q.run_imag_self_energy(gs, ts, frequency_points_at_bands=True)[1]
    mon.close("ise-lists", got, full_b[ix], rtol=1e-9, scale=scb, detail=f"{ts} {gs} {js}")
    got = q.run_imag_self_energy(gs, ts, frequency_points=fpts[jf])[1]
    mon.close("ise-fpoints", got, full_f[ix][..., jf], rtol=1e-9, scale=scf,
              detail=f"{ts} {gs} {js} {jf}")
    # --- real self energy
    eps = [0.1, 0.35, 0.6]
    je = subset(rng, 3)
    fb = fix(p.run_real_self_energy(gps, Ts, frequency_points_at_bands=True, epsilons=eps)[1])
    ff = fix(p.run_real_self_energy(gps, Ts, frequency_points=fpts[:3], epsilons=eps)[1])
    sb, sf = max(np.abs(fb).max(), 1e-13), max(np.abs(ff).max(), 1e-13)
    ixe = np.ix_(je, jt, jg)
    el = [eps[i] for i in je]
    got = q.run_real_self_energy(gs, ts, frequency_points_at_bands=True, epsilons=el)[1]
    mon.close("rse-lists", got, fb[ixe], rtol=1e-9, scale=sb, detail=f"{ts} {gs} {el}")
    got = q.run_real_self_energy(gs, ts, frequency_points=fpts[1:3], epsilons=el)[1]
    mon.close("rse-lists", got, ff[ixe][..., 1:], rtol=1e-9, scale=sf, detail=f"{ts} {gs} {el}")
    q = fresh(bands=bands)
    got = q.run_real_self_energy(gps, Ts, frequency_points_at_bands=True, epsilons=eps)[1]
    mon.close("rse-bands", got, fb[:, :, :, flat], rtol=1e-9, scale=sb, detail=f"bands {bands}")
    got = q.run_real_self_energy(gps, Ts, frequency_points=fpts[:3], epsilons=eps)[1]
    mon.close("rse-bands", got, ff[:, :, :, flat], rtol=1e-9, scale=sf, detail=f"bands {bands}")
    # --- spectral function
    fu = np.linspace(0, 2 * fmax, 9)
    sp = run_spectral_function(p.phph_interaction, gps, temperatures=Ts[:2], sigmas=S,
                               frequency_points=fu)
    A, G, D = (np.array(x) for x in (sp.spectral_functions, sp.half_linewidths, sp.shifts))
    t2 = jt[jt < 2]
    if len(t2) == 0:
        t2 = np.array([1])
    ix2 = np.ix_(js, t2, jg)
    q = fresh(sigmas=[S[i] for i in js])
    s2 = run_spectral_function(q.phph_interaction, gs, temperatures=[Ts[i] for i in t2],
                               sigmas=[S[i] for i in js], frequency_points=fu)
    for nm, a, b in (("A", s2.spectral_functions, A), ("G", s2.half_linewidths, G),
                     ("D", s2.shifts, D)):
        mon.close("spf-lists", a, b[ix2], rtol=1e-7 if nm == "A" else 1e-9,
                  scale=max(np.abs(b).max(), 1e-13), detail=nm)
    # --- joint dos
    if p.nac_params is None:
        kw = dict(mesh=c["mesh"], use_grg=c["grg"], SNF_coordinates=c["snf"],
                  is_mesh_symmetry=c["ms"], cutoff_frequency=c["cutf"])
        tj = Ts[:2] if c["seed"] % 2 else None
        fp = 11

        def jd(sig, tt, gg):
            j = Phono3pyJointDos(p.phonon_supercell, p.phonon_primitive, p.fc2, sigmas=sig,
                                 temperatures=tt, num_frequency_points=fp, **kw)
            j.run(gg)
            return np.array(j.joint_dos), np.array(j.frequency_points)

        gl = gps[int(rng.integers(len(gps)))]
        full, x = jd(S, tj, gps + [gl])
        sig = [S[i] for i in js]
        got, y = jd(sig, tj, [gl])
        if x.shape == y.shape and np.allclose(x, y, atol=1e-12):
            mon.close("jdos-lists", got, full[js], rtol=1e-9, scale=max(np.abs(full).max(), 1e-12))
        if tj is not None:
            got, y = jd(S, tj[::-1], [gl])
            mon.close("jdos-lists", got, full[:, ::-1], rtol=1e-9,
                      scale=max(np.abs(full).max(), 1e-12))
    # --- isotope
    def iso(sig, b, gg, lang="C"):
        o = Phono3pyIsotope(c["mesh"], p.phonon_primitive, mass_variances=mv, band_indices=b,
                            sigmas=sig, use_grg=c["grg"], cutoff_frequency=c["cutf"])
        o.init_dynamical_matrix(p.fc2, p.phonon_supercell, p.phonon_primitive,
                                nac_params=p.nac_params)
        o.run(gg, lang=lang)
        return np.array(o.gamma)

    mv = [1e-3 * (1 + i) for i in range(len(p.primitive))]
    if c["snf"] == "reciprocal":
        full = iso(S, None, gps)
        sc = max(np.abs(full).max(), 1e-14)
        mon.close("iso-bands", iso(S, anyb, gps), full[:, :, anyb], rtol=1e-8, scale=sc,
                  detail=f"bands {anyb}")
        mon.close("iso-lists", iso([S[i] for i in js], None, gs), full[np.ix_(js, jg)],
                  rtol=1e-9, scale=sc)
        if c["seed"] % 4 == 0 and p.nac_params is None and not c["grg"] and ph.ngrid(p) < 30:
            pf = iso(S, None, gps[:1], lang="Py")
            pb = iso(S, anyb, gps[:1], lang="Py")
            mon.close("iso-bands", pb, pf[:, :, anyb], rtol=1e-8, scale=sc, detail="Python route")
    # --- conductivity
    opt = dict(is_isotope=bool(rng.integers(2)), boundary_mfp=[None, 1.0][int(rng.integers(2))],
               is_full_pp=bool(rng.integers(2)), is_N_U=bool(rng.integers(2)))
    if opt["is_isotope"]:
        opt["mass_variances"] = mv
    p.run_thermal_conductivity(temperatures=Ts, **opt)
    tc = p.thermal_conductivity
    allg = np.array(tc.grid_points)
    where = {int(g): i for i, g in enumerate(allg)}
    if all(g in where for g in gps):
        jj = [where[g] for g in gs]
        q = fresh(sigmas=[S[i] for i in js])
        q.run_thermal_conductivity(temperatures=ts, grid_points=gs, **opt)
        t2 = q.thermal_conductivity
        cmp_tc(mon, "tc-gp", t2, tc, js, jt, jj, opt, kappa=False)
        # band subset at grid points
        q = fresh(bands=bands)
        q.run_thermal_conductivity(temperatures=Ts, grid_points=gs, **opt)
        g2 = np.array(q.thermal_conductivity.gamma)
        g1 = np.array(tc.gamma)
        mon.close("tc-bands", g2, g1[:, :, jj][..., flat], rtol=1e-9,
                  scale=max(np.abs(g1).max(), 1e-14), detail=f"bands {bands}")
        if opt["is_N_U"]:
            for a, b in zip(q.thermal_conductivity.get_gamma_N_U(), tc.get_gamma_N_U()):
                mon.close("tc-bands", a, np.array(b)[:, :, jj][..., flat], rtol=1e-9,
                          scale=max(np.abs(g1).max(), 1e-14), detail=f"N/U bands {bands}")
    q = fresh(sigmas=[S[i] for i in js])
    q.run_thermal_conductivity(temperatures=ts, **opt)
    cmp_tc(mon, "tc-lists", q.thermal_conductivity, tc, js, jt, range(len(allg)), opt)
    mon.sig(c["name"], c["set"], tuple(np.array(p.mesh_numbers).tolist()), len(flat), len(js),
            len(jt), len(jg), str(opt))


def cmp_tc(mon, clause, a, b, js, jt, jg, opt, kappa=True):
    jg = list(jg)

    def cl(name, x, y, rtol=1e-9):
        y = np.array(y)
        sc = max(np.abs(y).max(), 1e-14) if y.size else 1
        mon.close(clause, x, y, rtol=rtol, scale=sc, detail=name, key=f"{clause}:{name}")

    cl("gamma", a.gamma, np.array(b.gamma)[np.ix_(js, jt, jg)])
    cl("group_velocities", a.group_velocities, np.array(b.group_velocities)[jg])
    cl("gv_by_gv", a.gv_by_gv, np.array(b.gv_by_gv)[jg])
    cl("heat", a.mode_heat_capacities, np.array(b.mode_heat_capacities)[np.ix_(jt, jg)])
    cl("frequencies", a.frequencies, np.array(b.frequencies)[jg])
    if opt["is_isotope"]:
        cl("gamma_iso", a.gamma_isotope, np.array(b.gamma_isotope)[np.ix_(js, jg)])
    if opt["is_full_pp"]:
        cl("ave_pp", a.averaged_pp_interaction, np.array(b.averaged_pp_interaction)[jg])
    if opt["is_N_U"]:
        for x, y in zip(a.get_gamma_N_U(), b.get_gamma_N_U()):
            cl("gamma_NU", x, np.array(y)[np.ix_(js, jt, jg)])
    if kappa:
        cl("kappa", a.kappa, np.array(b.kappa)[np.ix_(js, jt)], rtol=1e-7)
        cl("mode_kappa", a.mode_kappa, np.array(b.mode_kappa)[np.ix_(js, jt, jg)], rtol=1e-7)
