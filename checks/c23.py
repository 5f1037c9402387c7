"""C23: phonon-isotope rates follow the mass-variance formula."""

import contextlib
import io

import numpy as np

from harness import models as M
from harness import ph, refs
from harness import gridgen as G
from harness.core import Skip

PROP = "C23"
RULE = (
    "random crystal, mesh or generalized grid, NAC with and without direction at Gamma, mass "
    "variances (natural, given, zero, single site), band selection, cutoff frequency, smearing and "
    "tetrahedron, native and Python routes, three entry points (isotope class, isotope API, "
    "conductivity with isotope); distinct by (crystal, grid, NAC, entry, method, bands)"
)
REQUIRED = {"rate-sigma": 1500, "rate-tetra": 1000, "nonneg": 2000, "linear": 300, "zero": 100,
            "natural": 50, "python": 100, "subset": 20, "conductivity": 20, "gamma-nac": 5,
            "below-cutoff": 10, "equivalent": 20}


def cases(tier, rng):
    n = 200 if tier == "quick" else 2000
    out = []
    for i in range(n):
        names = list(M.POLAR) if rng.random() < 0.4 else None
        c = ph.gen(rng, max_mesh=4, max_atoms=6, nac=0.8 if names else 0.0, names=names,
                   min_mesh=1 + (i % 4 > 0))
        c["entry"] = ["class", "api", "cond"][i % 3]
        c["wang"] = bool(rng.random() < 0.4)
        c["var"] = ["natural", "given", "given", "one", "zero"][int(rng.integers(5))]
        c["sigmas"] = [[0.3], [None], [None, 0.2, 1.0], [0.05, None]][int(rng.integers(4))]
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 0.8]))
        c["bands"] = bool(rng.random() < 0.4)
        c["dir"] = bool(rng.random() < 0.4)
        c["py"] = bool(rng.random() < 0.3)
        out.append(c)
    return out


def expected(f, e, gp, bi, mv, sigma, cut, gr2bz, N, tet, addr, mon, noise):
    """(lo, hi) of the rates of the selected bands; None entries cannot be decided."""
    nb = f.shape[1]
    lo, hi = np.zeros(len(bi)), np.zeros(len(bi))
    F = f[gr2bz]
    for n, b in enumerate(bi):
        f0 = f[gp, b]
        if f0 < cut:
            mon.events["below-cutoff"] += 1
            continue
        v0 = e[gp][:, b].reshape(-1, 3)
        for q in gr2bz:
            v1 = e[q].reshape(-1, 3, nb)
            ov = np.abs(np.einsum("ax,axk->ak", v0.conj(), v1)) ** 2
            w = (mv[:, None] * ov).sum(axis=0)
            w = np.where(f[q] < cut, 0, w)
            if sigma is not None:
                g = refs.gauss(f0 - f[q], sigma)
                lo[n] += w @ g
                hi[n] += w @ g
            else:
                _, a, c = tet.weights(addr[q], F, f0, noise=noise, eps=min(noise, 1e-6))
                lo[n] += w @ a
                hi[n] += w @ c
        k = np.pi / 4 * f0 ** 2 / N
        lo[n] *= k
        hi[n] *= k
    return lo, hi


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def run(c, mon):
    from phono3py import Phono3pyIsotope
    from phono3py.other.isotope import Isotope, get_mass_variances
    from phonopy.structure.atoms import isotope_data

    rng = np.random.default_rng(c["seed"])
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    na, nb = len(prim), 3 * len(prim)
    if len(p3.grid.addresses) > (260 if na < 4 else 130):
        raise Skip("large")
    nacp = p3.nac_params
    if nacp is not None:
        nacp = dict(nacp, method="wang" if c["wang"] else "gonze")
        p3.nac_params = nacp
    # ---------------------------------------------------------------- variances
    nat = []
    for s in prim.symbols:
        m = np.array([x[1] for x in isotope_data[s]])
        x = np.array([x[2] for x in isotope_data[s]])
        av = (m * x).sum()
        nat.append((x * ((m - av) / av) ** 2).sum())
    nat = np.array(nat)
    mon.close("natural", get_mass_variances(primitive=prim), nat, rtol=1e-12, key="natural")
    mon.close("natural", get_mass_variances(symbols=list(prim.symbols)), nat, rtol=1e-12, key="natural")
    s0 = prim.symbols[0]
    own = {s0: ((1, 10.0, 0.25), (2, 14.0, 0.75))}
    alt = np.where(np.array(prim.symbols) == s0, 0.25 * (3 / 13) ** 2 + 0.75 * (1 / 13) ** 2, nat)
    mon.close("natural", get_mass_variances(primitive=prim, isotope_data=own), alt, rtol=1e-12,
              key="natural:data")
    if c["var"] == "natural":
        mv, given = nat, None
    elif c["var"] == "zero":
        mv = np.zeros(na)
        given = mv.tolist()
    else:
        mv = rng.uniform(1e-5, 1e-2, size=na)
        if c["var"] == "one":
            mv[:] = 0
            mv[int(rng.integers(na))] = 3e-3
        if c["entry"] == "cond":
            # rates are symmetric only for equal variances of equivalent atoms
            by = {s: mv[k] for k, s in enumerate(prim.symbols)}
            mv = np.array([by[s] for s in prim.symbols])
        given = mv.tolist() if rng.integers(2) else np.array(mv)
    bi = np.arange(nb)
    if c["bands"]:
        bi = np.sort(rng.choice(nb, size=int(rng.integers(1, nb + 1)), replace=False))
        mon.events["subset"] += 1
    sigmas = c["sigmas"]
    addr = np.array(p3.grid.addresses)
    nbz = len(addr)
    gps = np.unique(rng.choice(nbz, size=min(5, nbz)))
    if rng.random() < 0.3:
        gps = np.unique(np.r_[gps, 0])
    cut = c["cutf"]
    entry = c["entry"]
    lang = "Py" if c["py"] and entry != "cond" and nbz < 100 and na <= 2 else "C"
    mesh = c["mesh"]
    if c["grg"]:
        mesh = np.array(p3.grid.grid_matrix)
        if entry == "api":
            entry = "class"
    det = f"{c['name']} {entry} {c['mesh']} var={c['var']} lang={lang} cut={cut} nac={nacp is not None}"
    results = []  # sigma, gp, rates, (f, e, grid)
    nacdir = None
    if entry == "class":
        iso = Isotope(mesh, prim, mass_variances=given, band_indices=bi if c["bands"] else None,
                      bz_grid=p3.grid if c["grg"] or rng.integers(2) else None,
                      cutoff_frequency=cut, lapack_zheev_uplo="UL"[int(rng.integers(2))])
        iso.init_dynamical_matrix(p3.fc2, sc, prim, nac_params=nacp)
        if nacp is not None and c["dir"] and lang == "C":
            nacdir = [[1.0, 0, 0], [0.3, -0.2, 1.0]][int(rng.integers(2))]
            iso.set_nac_q_direction(nacdir)
            gps = np.unique(np.r_[0, gps])
        for sg in sigmas:
            iso.sigma = sg
            for g in gps:
                iso.set_grid_point(int(g))
                iso.run(lang=lang)
                results.append((sg, g, np.array(iso.gamma), iso))
        grid = iso.bz_grid
        mon.close("variances", iso.mass_variances, mv, rtol=1e-12, key="variances")

        def again(k):
            iso2 = Isotope(mesh, prim, mass_variances=mv * k, bz_grid=grid, cutoff_frequency=cut,
                           sigma=sigmas[0], band_indices=bi)
            iso2.set_phonons(*iso.get_phonons(), dm=iso.dynamical_matrix)
            iso2.set_grid_point(int(gps[-1]))
            iso2.run()
            return iso2.gamma
        f, e, done = (np.array(x) for x in iso.get_phonons())
    elif entry == "api":
        iso = Phono3pyIsotope(mesh, prim, mass_variances=given, band_indices=bi if c["bands"] else None,
                              sigmas=sigmas, cutoff_frequency=cut)
        iso.init_dynamical_matrix(p3.fc2, sc, prim, nac_params=nacp)
        quiet(iso.run, [int(g) for g in gps], lang=lang)
        grid = iso.grid
        gam = np.array(iso.gamma)
        mon.check("shape", gam.shape == (len(sigmas), len(gps), len(bi)), f"{det} {gam.shape}")
        for i, sg in enumerate(sigmas):
            for j, g in enumerate(gps):
                results.append((sg, g, gam[i, j], None))
        f, e, done = (np.array(x) for x in next(
            v for v in vars(iso).values() if hasattr(v, "get_phonons")).get_phonons())
        mon.close("frequencies", iso.frequencies, f[gps], rtol=1e-12, key="frequencies")
        again = None
    else:
        if c["bands"]:
            k = int(rng.integers(1, len(bi) + 1))
            p3.band_indices = [x.tolist() for x in (bi[:k], bi[k:]) if len(x)]
        p3.sigmas = sigmas
        if cut != 1e-4:
            p3.cutoff_frequency = cut
        p3.init_phph_interaction(constant_averaged_interaction=1e-12)
        opt = {"grid_points": gps} if c["bands"] or rng.integers(2) else {}
        quiet(p3.run_thermal_conductivity, temperatures=[300], is_isotope=True,
              mass_variances=given, **opt)
        tc = p3.thermal_conductivity
        gam = np.array(tc.gamma_isotope)
        gps = np.array(tc.grid_points)
        mon.events["conductivity"] += 1
        for i, sg in enumerate(sigmas):
            for j, g in enumerate(gps):
                if j < 6 or rng.random() < 0.2:
                    results.append((sg, g, gam[i, j], None))
        grid = p3.grid
        f, e, _ = (np.array(x) for x in p3.get_phonon_data())
        again = None
    addr = np.array(grid.addresses)
    gr2bz = np.array(grid.grg2bzg)
    N = int(np.prod(np.array(grid.D_diag)))
    tet = ph.Tetra(grid)
    if nacdir is not None and (addr == 0).all(axis=1).any():
        mon.events["gamma-nac"] += 1
        from checks.c21 import Own

        gG = int(np.where((addr == 0).all(axis=1))[0][0])
        # Gamma carries the macroscopic field in the given direction
        if nacp["method"] == "wang":
            D = Own(prim, sc, np.array(p3.fc2), nacp, True)(np.zeros(3), nacdir, True)
            w = np.linalg.eigvalsh(D)
            from phonopy.physical_units import get_physical_units

            fr = np.sign(w) * np.sqrt(abs(w)) * get_physical_units().DefaultToTHz
            mon.close("gamma-nac", np.sort(f[gG]), fr, rtol=0, atol=2e-3, key="gamma-nac", detail=det)
    seen = {}
    for sg, g, r, _ in results:
        key = "rate-sigma" if sg is not None else "rate-tetra"
        mon.check("nonneg", (r >= -1e-12).all() and np.isfinite(r).all(), f"{det} {r}", n=r.size)
        if c["var"] == "zero":
            mon.check("zero", not r.any(), f"{det} zero variance gives {r}", n=r.size)
        lo, hi = expected(f, e, g, bi, mv, sg, cut, gr2bz, N, tet, addr, mon,
                          1e-8 if nacp is None else 3e-6)
        t = 1e-6 * max(hi.max(), 1e-9) + 1e-12
        if sg is None:
            # nearly flat bands: the density has unresolved peaks
            ok = hi < 1e3 * max(mv.max(), 1e-9) * 100
            if c["wang"] and nacp is not None:
                # Wang's phonons differ between equivalent points of the zone boundary
                ok[:] = False
        else:
            ok = np.ones(len(bi), bool)
        bad = ok & ((r < lo - t) | (r > hi + t))
        mon.check(key, not bad.any(), lambda: f"{det} sigma {sg} gp {g} {addr[g]}: {r[bad]} not in "
                  f"[{lo[bad]}, {hi[bad]}] modes {bi[bad]} f {f[g][bi][bad]}", n=int(ok.sum()),
                  key=f"{key}:{entry}:{lang}")
        if lang == "Py":
            mon.events["python"] += r.size
        # the same q-point on the zone boundary
        a = int(G.gr_index(addr[g][None], np.array(grid.D_diag))[0])
        if len(bi) == nb and sg is not None and (nacp is None or not c["wang"]):
            if (sg, a) in seen:
                mon.close("equivalent", r.sum(), seen[sg, a], rtol=1e-5, atol=1e-12, key="equivalent",
                          detail=f"{det} gp {g}")
            seen[sg, a] = r.sum()
    if len(bi) == nb and entry != "cond":
        for g in gps[:3]:
            eq = np.where((((addr - addr[g]) % np.array(grid.D_diag)) == 0).all(axis=1))[0]
            if len(eq) < 2 or sigmas[0] is None or not isinstance(results[0][3], Isotope):
                continue
            vals = []
            for x in eq:
                iso.sigma = 0.3
                iso.set_grid_point(int(x))
                iso.run()
                vals.append(np.array(iso.gamma).sum())
            if not c["wang"] or nacp is None:
                mon.close("equivalent", np.array(vals), np.full(len(eq), vals[0]), rtol=1e-4, atol=1e-9,
                          key="equivalent", detail=f"{det} {addr[eq].tolist()}")
    if again is not None and lang == "C":
        a1, a2 = np.array(again(1.0)), np.array(again(2.5))
        mon.close("linear", a2, 2.5 * a1, rtol=1e-9, atol=1e-15, key="linear", detail=det)
    if tet.ok:
        mon.events["division"] += 1
    mon.sig(c["name"], np.array(grid.D_diag).tolist(), entry, str(sigmas), lang, c["var"],
            len(bi) == nb, nacp is None, nacdir is None, c["set"])
