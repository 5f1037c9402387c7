"""C29: SSCHA matrices and ensemble force constants follow their definitions."""

import numpy as np
from phonopy.physical_units import get_physical_units

from harness import models as M
from harness import ph, refs
from harness.core import Skip

PROP = "C29"
RULE = (
    "random crystal and supercell, stable or with imaginary modes, masses, temperatures from 0 K, "
    "cutoff frequencies, frequency units; displacement correlation matrices against the matrix "
    "function of the dynamical matrix, on the commensurate points against the supercell, normalised "
    "probability density, ensemble second- and third-order force constants from random snapshots "
    "(complete and incomplete, symmetric and not) against direct averages and against known force "
    "constants; distinct by (crystal, supercell, temperature, ensemble)"
)
REQUIRED = {"modes": 500, "psi": 500, "upsilon": 500, "inverse": 50, "mesh": 500, "density": 30, "fc2": 500,
            "fc2-known": 300, "fc3": 1000, "fc3-known": 300, "cold": 10, "imaginary": 5, "translation": 50,
            "linear": 300, "errstate": 50, "moments": 1}


def cases(tier, rng):
    n = 200 if tier == "quick" else 1300
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=2, max_atoms=6, grg=0, nac=0)
        c["compact"] = False
        c["mesh"] = [1, 1, 1]
        c["T"] = [float(x) for x in rng.choice([0, 0.5, 3, 40, 300, 1500], size=2, replace=False)]
        c["unit"] = bool(rng.random() < 0.3)
        c["cut"] = [None, 1e-3, 0.5][int(rng.integers(3))]
        c["massmul"] = float(rng.choice([1, 1, 0.2, 3]))
        out.append(c)
    return out


def coth_cov(D, T, fac, cut):
    """<x x> in mass-weighted coordinates of D (AMU Angstrom^2) and its inverse on the kept modes."""
    u = get_physical_units()
    w, e = np.linalg.eigh(D)
    f = np.sign(w) * np.sqrt(np.abs(w)) * fac
    keep = f > cut
    ff = np.where(keep, f, 1)
    if T > 0:
        with np.errstate(over="ignore"):
            n = 1 / np.expm1(ff * refs.THzToEv / (refs.KB * T))
    else:
        n = np.zeros_like(ff)
    hbar = u.Hbar * u.EV  # J s
    a = (0.5 + n) * hbar / (2 * np.pi * ff * 1e12) / u.AMU / 1e-20
    P = e[:, keep]
    return (P * a[keep]) @ P.T, (P / a[keep]) @ P.T, a[keep], f, keep


def flat(x):
    n = len(x)
    return x.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n)


def run(c, mon):
    from phonopy.phonon.qpoints import QpointsPhonon

    from phono3py.phonon.func import bose_einstein, gaussian, sigma_squared
    from phono3py.sscha.sscha import (
        DispCorrMatrix,
        DispCorrMatrixMesh,
        SecondOrderFC,
        SupercellPhonon,
        ThirdOrderFC,
        get_sscha_matrices,
    )

    rng = np.random.default_rng(c["seed"])
    fac = get_physical_units().DefaultToTHz
    kw = {}
    if c["unit"]:
        fac *= 1.3
        kw["frequency_factor_to_THz"] = fac
    p = ph.build(c, **kw)
    if p is None:
        raise Skip("mesh refused")
    sc = p.supercell
    n = len(sc)
    if n > 70:
        raise Skip("large")
    if c["massmul"] != 1:
        p.masses = np.array(p.primitive.masses) * c["massmul"]
        sc = p.supercell
    fc2 = np.array(p.fc2)
    m = np.sqrt(np.repeat(sc.masses, 3))
    det = f"{c['name']} {n} atoms T={c['T']} cut={c['cut']}"
    err = np.geterr()
    sp = SupercellPhonon(sc, fc2, frequency_factor_to_THz=fac)
    Phi = flat(fc2)
    D = Phi / np.outer(m, m)
    w, e = np.linalg.eigh(D)
    f = np.sign(w) * np.sqrt(np.abs(w)) * fac
    big = np.abs(w).max()
    mon.close("modes", sp.eigenvalues, w, rtol=1e-9, scale=big, key="modes:eigenvalues", detail=det)
    hi = np.abs(f) > 0.05
    mon.close("modes", sp.frequencies[hi], f[hi], rtol=1e-6, key="modes:frequencies", detail=det)
    mon.equal("modes", sp.force_constants, Phi, key="modes:fc")
    ev = np.array(sp.eigenvectors)
    mon.close("modes", (ev * np.array(sp.eigenvalues)) @ ev.T, D, rtol=1e-9, scale=big, key="modes:eigenvectors")
    mon.check("modes", sp.supercell is sc, det)
    if f[0] < -0.1:
        mon.events["imaginary"] += 1
    cut = 1e-5 if c["cut"] is None else c["cut"]
    # modes close to the cutoff are decided by rounding
    fuzzy = (np.abs(np.abs(f) - cut) < 2e-2 * (cut > 1e-2) + 2e-6).any() or ((f > cut / 100) & (f < 3e-3)).any() \
        or cut < 1e-2 and ((np.abs(f) < 0.02) & (np.arange(len(f)) >= 0)).sum() > 0 and (f[np.abs(f) < 0.02] > cut / 50).any()
    for T in c["T"]:
        if T < 10:
            mon.events["cold"] += 1
        uu = get_sscha_matrices(sc, fc2, cutoff_frequency=c["cut"]) if not c["unit"] else DispCorrMatrix(
            sp, cutoff_frequency=c["cut"])
        uu.run(T)
        psi, ups = np.array(uu.psi_matrix), np.array(uu.upsilon_matrix)
        own = np.array(uu.supercell_phonon.frequencies)
        kept = own > cut
        # the class decides on its own rounding of the acoustic modes
        a, b, a2, ff, keep = coth_cov(D, T, fac, cut)
        if kept.sum() != keep.sum() or (fuzzy and not (np.abs(own[kept]).min() > 0.02)):
            mon.events["fuzzy"] += 1
            continue
        mon.close("psi", psi, a / np.outer(m, m), rtol=2e-6, scale=np.abs(a / np.outer(m, m)).max(), key="psi",
                  detail=f"{det} T {T}")
        mon.close("upsilon", ups, b * np.outer(m, m), rtol=2e-6, scale=np.abs(b * np.outer(m, m)).max(),
                  key="upsilon", detail=f"{det} T {T}")
        pr = (psi * np.outer(m, m)) @ (ups / np.outer(m, m))
        mon.close("inverse", pr, pr.T, rtol=0, atol=1e-7, key="inverse:projector")
        mon.check("inverse", abs(np.trace(pr) - keep.sum()) < 1e-6, f"{det} rank {np.trace(pr)} {keep.sum()}")
        if abs(f[:3]).max() < 0.02 and (f[3:] > 0.05).all():
            t = psi.reshape(n, 3, n, 3)
            x = np.einsum("iajb,i->jab", t, sc.masses)
            mon.close("translation", x, 0 * x, rtol=0, atol=1e-6 * np.abs(t).max() * np.max(sc.masses) * n,
                      key="translation", detail=f"{det} centre of mass moves")
        # density: product of normalised normal distributions of the modes
        lp = -0.5 * np.log(2 * np.pi * a2).sum()
        if abs(lp) < 600 and uu.prefactor > 0:
            mon.check("density", abs(np.log(uu.prefactor) - lp) < 1e-4 + 1e-6 * len(a2), f"{det} T {T} {uu.prefactor} {lp}",
                      key="density:prefactor")
            u = rng.normal(size=3 * n) * 0.05
            q = (e[:, keep].T @ (m * u))
            mon.close("density", u @ ups @ u / 2, (q**2 / a2).sum() / 2, rtol=2e-6, key="density:exponent",
                      detail=f"{det}")
        # mesh of commensurate points
        uc = len(p.phonon_primitive) if hasattr(p, "phonon_primitive") else len(p.primitive)
        if n % uc == 0 and c["massmul"] == 1:
            p.init_phph_interaction()
            dm = p.dynamical_matrix
            k = dict(cutoff_frequency=c["cut"]) if c["cut"] else {}
            mm = DispCorrMatrixMesh(dm.primitive, dm.supercell, **k)
            qp = QpointsPhonon(mm.commensurate_points, dm, with_eigenvectors=True, factor=fac)
            if (np.sort(qp.frequencies.ravel()) > cut).sum() == keep.sum() and dm.supercell is not None and \
                    len(dm.supercell) == n:
                mm.run(qp.frequencies, qp.eigenvectors, T)
                s = np.abs(psi).max()
                mon.close("mesh", mm.psi_matrix, psi, rtol=2e-5, scale=s, key="mesh:psi", detail=f"{det} T {T}")
                mon.close("mesh", mm.upsilon_matrix, ups, rtol=2e-5, scale=np.abs(ups).max(), key="mesh:upsilon",
                          detail=f"{det} T {T}")
    # ----- functions
    x = rng.uniform(0.05, 30, size=20)
    for T in c["T"]:
        with np.errstate(over="ignore"):
            nn = 1 / np.expm1(x * refs.THzToEv / (refs.KB * T)) if T > 0 else 0 * x
        s = sigma_squared(x, T)
        u = get_physical_units()
        mon.close("psi", s, (0.5 + nn) * u.Hbar * u.EV / (2 * np.pi * x * 1e12) / u.AMU / 1e-20, rtol=1e-6,
                  key="psi:length")
        if T > 5:
            mon.close("psi", bose_einstein(x, T), nn, rtol=1e-6, key="psi:bose")
    mon.check("errstate", np.geterr() == err, f"{det} floating-point error handling changed {np.geterr()}")
    np.seterr(**err)
    sg = float(rng.uniform(0.1, 2))
    y = rng.normal(size=7)
    mon.close("density", gaussian(y, sg), refs.gauss(y, sg), rtol=1e-12, key="density:gaussian")
    # ----- ensembles
    if n > 24:
        if rng.random() < 0.7:
            mon.sig(c["name"], n, str(c["T"]), "matrices")
            return
        keep3 = False
    else:
        keep3 = True
    d = 3 * n
    ns = int(d * rng.choice([0.4, 1.3, 2.0])) + 2
    U = rng.normal(size=(ns, n, 3)) * rng.uniform(0.01, 0.1)
    if rng.random() < 0.4:
        U -= U.mean(axis=1)[:, None]  # no drift
    sym = bool(rng.integers(2))
    if sym:
        U = np.concatenate([U, -U])
        ns *= 2
    u = U.reshape(ns, d)
    cov = u.T @ u / ns
    full = np.linalg.eigvalsh(cov)[0] > 1e-7 * np.abs(cov).max()
    F = rng.normal(size=U.shape)
    fl = F.reshape(ns, d)
    so = SecondOrderFC(U, F, sp)
    so.run()
    cw, cv = np.linalg.eigh(cov)
    keep = cw > 1e-9 * cw[-1]
    Y = (cv[:, keep] / cw[keep]) @ cv[:, keep].T
    want = -Y @ (u.T @ fl) / ns
    mon.close("fc2", flat(np.array(so.fc2)), want, rtol=1e-7, scale=np.abs(want).max(), key="fc2", detail=det)
    Fh = -(u @ Phi).reshape(U.shape)
    so = SecondOrderFC(U, Fh, sp)
    so.run(T=float(c["T"][0]))
    P = Y @ cov  # projector on the sampled displacements
    mon.close("fc2-known", flat(np.array(so.fc2)), P @ Phi, rtol=1e-6, scale=np.abs(Phi).max(), key="fc2-known",
              detail=f"{det} complete {full}")
    if full:
        mon.close("fc2-known", so.fc2, fc2, rtol=1e-6, scale=np.abs(Phi).max(), key="fc2-known:complete")
    if not keep3:
        mon.sig(c["name"], n, str(c["T"]), "fc2", sym, full)
        return
    to = ThirdOrderFC(U, F, sp)
    to.run(T=300.0)
    res = fl - fl.mean(axis=0) + u @ Phi
    mon.close("fc3", np.array(to.ff), res, rtol=1e-9, scale=np.abs(res).max(), key="fc3:residual", detail=det)
    g = u @ Y
    want = np.zeros((d, d, d))
    for k in range(ns):
        want -= np.multiply.outer(np.outer(g[k], g[k]), res[k])
    want /= ns
    got = np.array(to.fc3).transpose(0, 3, 1, 4, 2, 5).reshape(d, d, d)
    mon.close("fc3", got, want, rtol=1e-7, scale=np.abs(want).max(), key="fc3", detail=det)
    # a constant force does not matter, forces enter linearly
    shift = rng.normal(size=(n, 3))
    t2 = ThirdOrderFC(U, F + shift, sp)
    t2.run()
    mon.close("linear", t2.fc3, to.fc3, rtol=1e-7, scale=np.abs(want).max(), key="linear:shift", detail=det)
    if sym:
        # harmonic forces cancel in symmetric ensembles
        t2 = ThirdOrderFC(U, 2 * F + Fh, sp)
        t2.run()
        mon.close("linear", t2.fc3, 2 * np.array(to.fc3), rtol=1e-6, scale=np.abs(want).max(), key="linear:harmonic",
                  detail=det)
    # known cubic forces: average over the ensemble's own fourth moments
    dd = min(d, 9)
    A = np.zeros((d, d, d))
    A[:dd, :dd] = rng.normal(size=(dd, dd, d))
    A = A + A.transpose(1, 0, 2)
    Fc = -0.5 * np.einsum("la,lb,abk->lk", u, u, A, optimize=True)
    t3 = ThirdOrderFC(U, (Fc + Fh.reshape(ns, d)).reshape(U.shape), sp)
    t3.run()
    M4 = np.einsum("li,lj,la,lb->ijab", g, g, u[:, :dd], u[:, :dd], optimize=True) / ns
    M2 = np.einsum("li,lj->ij", g, g) / ns
    c2 = cov[:dd, :dd]
    want = 0.5 * np.einsum("ijab,abk->ijk", M4 - M2[:, :, None, None] * c2, A[:dd, :dd], optimize=True)
    # the mean force of displacements that do not average to zero is removed with the harmonic part
    want -= np.multiply.outer(M2, u.mean(axis=0) @ Phi)
    got = np.array(t3.fc3).transpose(0, 3, 1, 4, 2, 5).reshape(d, d, d)
    s = np.abs(want).max()
    mon.close("fc3-known", got, want, rtol=1e-6, scale=s, key="fc3-known", detail=det)
    # one thermal ensemble of normal deviates approaches the cubic force constants
    if d <= 12:
        r2 = np.random.default_rng(5)
        L = np.linalg.cholesky(np.eye(d) * 0.01)
        z = r2.normal(size=(30000, d)) @ L.T
        z = np.concatenate([z, -z])
        A = r2.normal(size=(d, d, d))
        A = A + A.transpose(1, 0, 2) + A.transpose(0, 2, 1) + A.transpose(2, 1, 0) + A.transpose(1, 2, 0) + \
            A.transpose(2, 0, 1)
        Fz = -0.5 * np.einsum("la,lb,abk->lk", z, z, A, optimize=True) - z @ Phi
        t4 = ThirdOrderFC(z.reshape(-1, n, 3), Fz.reshape(-1, n, 3), sp)
        t4.run()
        got = np.array(t4.fc3).transpose(0, 3, 1, 4, 2, 5).reshape(d, d, d)
        off = ~np.eye(d, dtype=bool)
        mon.check("moments", np.corrcoef(got.ravel(), A.ravel())[0, 1] > 0.9 and
                  abs((got * A).sum() / (A * A).sum() - 1) < 0.15, f"{det} {(got * A).sum() / (A * A).sum()}")
        del off
    mon.sig(c["name"], n, str(c["T"]), "fc3", sym, full)
