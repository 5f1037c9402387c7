"""C28: Wigner and Green-Kubo conductivities from velocities, linewidths and heat capacities."""

import glob

import numpy as np
from phonopy.physical_units import get_physical_units

from harness import gridgen as G
from harness import models as M
from harness import ph, refs
from harness.core import Skip

PROP = "C28"
RULE = (
    "random crystal, mesh or generalized grid, smearing or tetrahedron linewidths of real, averaged "
    "or constant interactions, isotope and boundary scattering, temperatures from 0 K, all or "
    "irreducible grid points; Wigner relaxation-time, Wigner direct solution and Green-Kubo; mode "
    "contributions are recomputed and the population part is compared with the ordinary "
    "relaxation-time run; distinct by (crystal, grid, kind, options)"
)
REQUIRED = {"population": 2000, "coherence": 2000, "sum": 50, "symmetric": 200, "psd": 200, "rta": 200,
            "star": 5, "file": 20, "lbte": 5, "kubo": 500, "cvm": 500, "cold": 20, "no-linewidth": 3,
            "invariant": 100, "readgamma": 3, "degenerate": 50, "velocity": 2000}
KB, H = refs.KB, refs.THzToEv
EV = get_physical_units().EV
HBAR = get_physical_units().Hbar  # eV s


def cases(tier, rng):
    n = 150 if tier == "quick" else 1500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4, max_atoms=4, nac=0.4)
        c["kind"] = ["wigner", "kubo", "wigner", "kubo", "wlbte", "wigner"][i % 6]
        if c["kind"] == "wlbte":
            c["soft"] = 0.0
            if M.NATOM[c["name"]] > 2:
                c["name"], c["set"], c["nac"] = "zincblende", 0, bool(rng.integers(2))
                c["mesh"], c["grg"] = [2 + int(rng.integers(2))] * 3, False
        c["gam"] = ["full", "ave", "const", "full"][int(rng.integers(4))]
        c["kstar"] = bool(rng.random() < 0.7)
        c["iso"] = bool(rng.random() < 0.4)
        c["bmfp"] = [None, None, 0.3, 5.0][int(rng.integers(4))]
        c["T"] = [[300.0], [0.0, 5.0, 50.0, 700.0], [2.0, 20.0, 1500.0]][int(rng.integers(3))]
        c["sig"] = [[None], [0.3], [None, 0.6]][int(rng.integers(3))]
        if i % 15 in (1, 3, 8) and c["kind"] != "wlbte":
            c.update(nac=False, bmfp=None, kstar=True, grg=False, sig=[0.3])
        out.append(c)
    return out


def capacity(f, T):
    """Mode heat capacity (eV/K)."""
    f = np.asarray(f, dtype=float)
    if T <= 0:
        return np.zeros_like(f)
    x = np.where(f > 0, f, 1) * H / (KB * T)
    with np.errstate(over="ignore"):
        c = KB * (x / 2 / np.sinh(np.minimum(x, 300) / 2)) ** 2
    return np.where((x < 100) & (f > 0), c, 0)


def run(c, mon):
    import h5py

    rng = np.random.default_rng(c["seed"])
    p = ph.build(c)
    if p is None:
        raise Skip("mesh refused")
    nb = 3 * len(p.primitive)
    N = ph.ngrid(p)
    kind = c["kind"]
    lbte = kind == "wlbte"
    if lbte and (len(ph.ir_gps(p)) > 25 or N > 100):
        raise Skip("large for LBTE")
    if N * nb**3 > (60000 if c["gam"] == "const" or c["kstar"] else 15000):
        raise Skip("large")
    T = c["T"]
    p.sigmas = c["sig"]
    if c["gam"] == "const" and not lbte:
        p.init_phph_interaction(constant_averaged_interaction=1e-10)
    else:
        p.init_phph_interaction()
    kw = dict(temperatures=T, is_isotope=c["iso"], boundary_mfp=c["bmfp"])
    if c["iso"]:
        kw["mass_variances"] = [1e-3] * len(p.primitive)
    if lbte:
        kw["is_LBTE"] = True
    else:
        kw["is_kappa_star"] = c["kstar"]
        if c["gam"] == "ave":
            kw["use_ave_pp"] = True
        else:
            kw["is_full_pp"] = c["gam"] == "full"
    det = f"{c['name']} {c['mesh']} {kind} {c['gam']} kstar={c['kstar']} iso={c['iso']} mfp={c['bmfp']} sig={c['sig']}"
    ctype = "kubo" if kind == "kubo" else "wigner"
    try:
        p.run_thermal_conductivity(conductivity_type=ctype, write_kappa=kind != "kubo",
                                   write_gamma=not lbte, **kw)
    except RuntimeError as e:
        if "symmetry" in str(e):
            raise Skip(str(e)[:50])
        raise
    t = p.thermal_conductivity
    gps = np.array(t.grid_points)
    f = np.array(t.frequencies)
    gam = np.array(t.gamma)  # sigma, T, gp, band
    tot = gam + (np.array(t.gamma_isotope)[:, None] if c["iso"] else 0)
    # boundary scattering uses the velocities the object carries
    gv = np.array(t._gv)
    if c["bmfp"] is not None:
        tot = tot + np.linalg.norm(gv, axis=2) * 1e-10 * 1e6 / (4 * np.pi * c["bmfp"])
    cut = p.phph_interaction.cutoff_frequency
    mon.check("total", int(t.number_of_sampling_grid_points if hasattr(t, "number_of_sampling_grid_points")
                           else N) == N, f"{det} {N}")
    cv = np.array([capacity(f, x) for x in T])
    ok = f > cut
    pair = ok[:, :, None] & ok[:, None, :]
    d = np.abs(f[:, :, None] - f[:, None, :])
    edge = np.abs(d - 1e-4) < 1e-7
    A3 = p.primitive.volume
    pgr = G.point_group(G.dataset(p.primitive), tr=True)
    A = np.array(p.primitive.cell)
    cart = [np.linalg.inv(A) @ np.array(r) @ A for r in pgr]

    def mat(k):
        return np.array([[k[..., 0], k[..., 5], k[..., 4]], [k[..., 5], k[..., 1], k[..., 3]],
                         [k[..., 4], k[..., 3], k[..., 2]]]).transpose(*range(2, k.ndim + 1), 0, 1)

    def invariant(k, what):
        if not sane:
            return
        k = np.array(k).real[:, sane]
        m = mat(k)
        s = max(np.abs(m).max(), 1e-10)
        for r in cart:
            mon.close("invariant", r @ m @ r.T, m, rtol=1e-6, scale=s, key=f"invariant:{what}", detail=det)
        mon.check("psd", (np.linalg.eigvalsh(m) > -1e-8 * s).all(), f"{det} {what} {k}", key=f"psd:{what}")

    def finite(x, what):
        return mon.check("finite", np.isfinite(x).all(),
                         lambda: f"{det} {what} at {np.argwhere(~np.isfinite(x))[:3].tolist()}", key=f"finite:{what}")

    for i, x in enumerate(T):
        if x < 30:
            mon.events["cold"] += 1
    if (d[pair] < 1e-4).sum() > pair.diagonal(axis1=1, axis2=2).sum():
        mon.events["degenerate"] += int((d[pair] < 1e-4).sum() - pair.diagonal(axis1=1, axis2=2).sum())
    gpair = tot[..., :, None] + tot[..., None, :]
    if (gpair.diagonal(axis1=-2, axis2=-1)[:, :, ok] == 0).any():
        mon.events["no-linewidth"] += 1
    # vanishing linewidths turn rounding of vanishing velocities into anything
    sane = [k for k in range(len(T)) if ok.any() and tot[:, k][:, ok].min() > 1e-9]
    tiny = (gpair < 1e-12) & (gpair != 0)
    if kind == "kubo":
        mk = np.array(t.mode_kappa_mat)
        finite(mk, "kubo")
        kap = np.array(t.kappa)
        mon.close("sum", kap, mk.sum(axis=(2, 3, 4)).real / N, rtol=1e-10, scale=max(np.abs(kap).max(), 1e-12),
                  key="sum:kubo", detail=det)
        # heat capacity matrix
        n = np.zeros((len(T),) + f.shape)
        for i, x in enumerate(T):
            if x > 0:
                with np.errstate(over="ignore", divide="ignore"):
                    n[i] = 1 / np.expm1(f * H / (KB * x))
        want = np.zeros((len(T),) + d.shape)
        for i, x in enumerate(T):
            if x <= 0:
                continue
            y = f * H / (KB * x)
            with np.errstate(divide="ignore", invalid="ignore"):
                off = KB * (n[i][:, None, :] - n[i][:, :, None]) / (y[:, :, None] - y[:, None, :]) * (
                    (y[:, :, None] + y[:, None, :]) / 2) ** 2
            want[i] = np.where(d < cut, cv[i][:, :, None], off)
        cvm = getattr(t, "_cv_mat", None)
        g2 = getattr(t, "_gv_mat_sum2", None)
        if cvm is not None and g2 is not None:
            near = np.abs(d - cut) < 1e-8
            sel = pair & ~near
            for i, x in enumerate(T):
                tol = 1e-5 if x < 1 else 1e-6
                mon.close("cvm", np.array(cvm)[i][sel], want[i][sel], rtol=1e-5, scale=KB * 1e-3 * tol, atol=1e-6 * KB
                          if x < 30 else 1e-8 * KB, key="cvm", detail=f"{det} T {x}")
            conv = t.get_conversion_factor() if hasattr(t, "get_conversion_factor") else None
            base = unit_to_WmK(A3)
            with np.errstate(all="ignore"):
                L = gpair / (d**2 + gpair**2)
            L = np.where(np.isfinite(L), L, 0)
            w = want[None, ..., None] * np.array(g2)[None, None] * L[..., None] * base
            w = np.where(pair[None, None, ..., None], w, 0)
            bad = ~(np.broadcast_to(~near, gpair.shape)) | tiny
            w = np.where(bad[..., None], mk, w)
            s = max(np.abs(w).max(), 1e-12)
            neg = (gpair < 0)[..., None]
            mon.close("kubo", np.where(neg, 0, mk), np.where(neg, 0, w), rtol=2e-5, scale=s, atol=1e-9 * s,
                      key="kubo", detail=det)
        P = mk
    else:
        g2 = np.array(t.gv_by_gv_operator)
        vop = np.array(t.velocity_operator)  # gp, band, band, 3
        vs = max(np.abs(vop).max(), 1e-6)
        # velocities are the eigenvalues of the operator within each set of degenerate modes
        for i in range(len(gps)):
            dd = np.diff(f[i])
            if ((dd > 0.9e-4) & (dd < 1.1e-4)).any():
                continue
            lo = 0
            for hi in list(np.where(dd > 1e-4)[0] + 1) + [nb]:
                for x in range(3):
                    blk = vop[i, lo:hi, lo:hi, x]
                    mon.close("velocity", gv[i, lo:hi, x],
                              np.linalg.eigvalsh((blk + blk.conj().T) / 2), rtol=1e-4, scale=vs,
                              key="velocity:degenerate" if hi - lo > 1 else "velocity:single", detail=det)
                lo = hi
        mon.close("velocity", vop, np.swapaxes(vop, 1, 2).conj(), rtol=1e-4, scale=vs, key="velocity:hermitian",
                  detail=det)
        # products summed over the star
        order = np.array(t.grid_weights) if t.grid_weights is not None else np.ones(len(gps))
        if not (c["kstar"] or lbte):
            order, ops = np.ones(len(gps)), [np.eye(3)]
        else:
            ops = cart
        mon.check("velocity", order.sum() == N, f"{det} {order.sum()} {N}", key="velocity:order")
        want = np.zeros(g2.shape, dtype=complex)
        for r in ops:
            x = vop @ np.array(r).T
            for m, (u, v) in enumerate(([0, 0], [1, 1], [2, 2], [1, 2], [0, 2], [0, 1])):
                want[..., m] += x[..., u] * x[..., v].conj()
        want *= (order / len(ops))[:, None, None, None]
        mon.close("velocity", g2, want, rtol=1e-6, scale=max(np.abs(want).max(), 1e-12), key="velocity:products",
                  detail=det)
        fs = f[:, :, None] + f[:, None, :]
        fsafe = np.where(f > cut, f, 1)
        conv = (1e12 * 1e-10) ** 2 * EV * HBAR / (A3 * 1e-30)
        wP = np.zeros(gam.shape + (6,))
        wC = np.zeros(gam.shape + (nb, 6))
        for j in range(len(c["sig"])):
            for k in range(len(T)):
                gg = gpair[j, k] * H  # half of the sum of full widths
                with np.errstate(all="ignore"):
                    L = np.where((d * H) ** 2 + gg**2 > 0, gg / ((d * H) ** 2 + gg**2), 0)
                r = cv[k] / fsafe
                w = (g2.real * (0.25 * fs * (r[:, :, None] + r[:, None, :]) * L * conv)[..., None])
                w = np.where((pair & (gg > 0))[..., None], w, 0)
                deg = (d < 1e-4)[..., None]
                x = np.where(deg, w, 0)
                wP[j, k] = (x.sum(axis=1) + x.sum(axis=2)) / 2
                wC[j, k] = np.where(deg, 0, w)
        mP, mC = np.array(t.mode_kappa_P_RTA), np.array(t.mode_kappa_C)
        finite(mP, "P")
        finite(mC, "C")
        good = ~(edge & pair).any(axis=(1, 2))
        # rounding of frequencies of degenerate modes decides between linewidths that are even smaller
        off = pair & (d < 1e-4) & ~np.eye(nb, dtype=bool)
        good &= ~((gpair < 1e-8).any(axis=(0, 1)) & off).any(axis=(1, 2)) & ~(tiny.any(axis=(0, 1)) & pair).any(
            axis=(1, 2))
        tt = [k for k, x in enumerate(T) if x > 0 or not lbte]
        if (gpair[:, tt][:, :, pair] >= 0).all():
            sc = max(np.abs(wC[:, tt]).max(), 1e-12)
            mon.close("coherence", mC[:, tt][:, :, good].real, wC[:, tt][:, :, good], rtol=1e-5, scale=sc,
                      key="coherence", detail=det)
            sc = max(np.abs(wP[:, tt]).max(), 1e-12)
            if not lbte:
                mon.close("population", mP[:, :, good], wP[:, :, good], rtol=1e-5, scale=sc, key="population",
                          detail=det)
            mon.check("psd", (mC[..., :3].real >= -1e-9 * max(np.abs(mC).max(), 1e-12)).all(), det, n=mC.size // 2,
                      key="psd:mode")
        mon.close("symmetric", mC.real, np.swapaxes(mC, 3, 4).real, rtol=1e-9, scale=max(np.abs(mC).max(), 1e-12),
                  key="symmetric", detail=det, )
        C, PR = np.array(t.kappa_C), np.array(t.kappa_P_RTA)
        mon.close("sum", C, mC.sum(axis=(2, 3, 4)).real / N, rtol=1e-10, scale=max(np.abs(C).max(), 1e-12), key="sum:C",
                  detail=det)
        mon.close("sum", PR, mP.sum(axis=(2, 3)) / N, rtol=1e-10, scale=max(np.abs(PR).max(), 1e-12), key="sum:P",
                  detail=det)
        mon.close("sum", np.array(t.kappa_TOT_RTA), C + PR, rtol=1e-12, scale=max(np.abs(PR).max(), 1e-12),
                  key="sum:total", detail=det)
        if lbte:
            PE = np.array(t.kappa_P_exact)
            mon.close("sum", np.array(t.kappa_TOT_exact), C + PE, rtol=1e-12, scale=max(np.abs(PE).max(), 1e-12),
                      key="sum:exact", detail=det)
            mon.close("sum", PE, np.array(t.mode_kappa_P_exact).sum(axis=(2, 3)) / N, rtol=1e-9,
                      scale=max(np.abs(PE).max(), 1e-12), key="sum:mode-exact", detail=det)
        if c["ms"] if "ms" in c else True:
            if c["kstar"] or lbte:
                invariant(C, "C")
                if not lbte:
                    invariant(PR, "P")
        P = mP
    # ----- files
    if kind != "kubo":
        for j, s in enumerate(c["sig"]):
            fn = [x for x in glob.glob("kappa-m*.hdf5") if ("-s" in x) == (s is not None)
                  and "-g" not in x]
            if len(fn) != 1:
                if c["grg"] or len(fn) == 0:
                    fn = [x for x in fn if "-g" not in x]
                mon.check("file", len(fn) == 1, f"{det} {glob.glob('*.hdf5')}", key="file:exists")
            with h5py.File(fn[0]) as h:
                pairs = [("kappa_TOT_RTA", t.kappa_TOT_RTA), ("kappa_P_RTA", t.kappa_P_RTA), ("kappa_C", t.kappa_C),
                         ("mode_kappa_P_RTA", t.mode_kappa_P_RTA), ("mode_kappa_C", t.mode_kappa_C)]
                if lbte:
                    pairs += [("kappa_TOT_exact", t.kappa_TOT_exact), ("kappa_P_exact", t.kappa_P_exact),
                              ("mode_kappa_P_exact", t.mode_kappa_P_exact)]
                for name, v in pairs:
                    if mon.check("file", name in h, f"{det} {name} missing in {fn[0]}", key=f"file:{name}"):
                        mon.equal("file", h[name][()], np.array(v)[j], key=f"file:{name}", detail=det)
                mon.equal("file", h["temperature"][()], np.array(T), key="file:T")
    # ----- ordinary run with the same options
    p.run_thermal_conductivity(**kw)
    o = p.thermal_conductivity
    ofr = np.array(o.frequencies)
    mon.close("same", ofr, f, rtol=0, atol=1e-9, key="same:frequency")
    og = np.array(o.gamma)
    mon.close("same", og, gam, rtol=1e-8, scale=max(np.abs(gam).max(), 1e-12), key="same:gamma", detail=det)
    if lbte:
        mon.events["lbte"] += 1
        pe = np.array(o.kappa)
        ex = np.array(t.kappa_P_exact)
        # velocity operators come from finite differences, directions of degenerate modes differ
        single = single_modes(f, cut, gps, p)
        if single and sane:
            ex, pe = ex[:, sane], pe[:, sane]
            s = max(np.abs(pe).max(), 1e-9)
            mon.close("lbte", ex, pe, rtol=5e-3, scale=s, key="lbte", detail=det)
            mon.close("lbte", np.array(t.kappa_P_RTA)[:, sane], np.array(o.kappa_RTA)[:, sane], rtol=5e-3,
                      scale=max(np.abs(np.array(o.kappa_RTA)[:, sane]).max(), 1e-9), key="lbte:RTA", detail=det)
    else:
        mo = np.array(o.mode_kappa)  # sigma, T, gp, band, 6
        Q = np.array(p.grid.addresses)[gps].any(axis=1)
        sep = np.array([single_at(x) for x in f]) & Q
        if c["nac"]:
            q = np.array(p.grid.addresses)[gps] @ np.array(p.grid.QDinv).T
            sep &= np.abs(q).max(axis=1) < 0.5 - 1e-6
        if sep.any() and (f[sep] > -1).all():
            ogv = np.array(o.group_velocities)
            vs = max(np.abs(ogv).max(), 1e-6)
            ref = np.array(o.gv_by_gv)[sep]
            have = P[:, :, sep] if kind != "kubo" else np.einsum("...iik->...ik", P[:, :, sep]).real
            want = mo[:, :, sep]
            # absolute accuracy of finite-difference velocities
            use = (ref.max(axis=-1) > 1e-3 * vs**2) & (f[sep] > 0.1) & (tot[:, :, sep] > 1e-9)
            # linewidths of imaginary or low modes may differ where the boundary enters
            x, y = have[use], want[use]
            if len(x):
                s = np.abs(y).max(axis=-1)[:, None] + 1e-200
                mon.close("rta", x / s, y / s, rtol=2e-3, scale=1, key=f"rta:{kind}", detail=det)
    # ----- all grid points give the same sums
    # boundary scattering of degenerate modes depends on their Cartesian velocities
    if not lbte and c["bmfp"] is None and c["kstar"] and not c["nac"] and not c["grg"] and N * nb**3 < 15000 and \
            rng.random() < 0.6 and c["sig"] != [None] and None not in c["sig"]:
        kw2 = dict(kw, is_kappa_star=False)
        p.run_thermal_conductivity(conductivity_type=ctype, **kw2)
        u = p.thermal_conductivity
        names = ["kappa"] if kind == "kubo" else ["kappa_P_RTA", "kappa_C"]
        for nme in names:
            a, b = np.array(getattr(t, nme))[:, sane], np.array(getattr(u, nme))[:, sane]
            if not sane:
                continue
            mon.close("star", b, a, rtol=5e-3, scale=max(np.abs(a).max(axis=-1).max(), 1e-9), key=f"star:{nme}",
                      detail=det)
    # ----- restart from linewidths
    if not lbte and not c["iso"] and rng.random() < 0.5 and kind != "kubo":
        p.run_thermal_conductivity(conductivity_type=ctype, read_gamma=True,
                                   **{k: v for k, v in kw.items() if k in ("temperatures", "boundary_mfp",
                                                                          "is_kappa_star")})
        u = p.thermal_conductivity
        for nme in ("kappa_P_RTA", "kappa_C", "kappa_TOT_RTA"):
            a, b = np.array(getattr(t, nme)), np.array(getattr(u, nme))
            mon.close("readgamma", b, a, rtol=1e-9, scale=max(np.abs(a).max(), 1e-12), key="readgamma", detail=det)
    mon.sig(c["name"], str(c["mesh"]), kind, c["gam"], c["kstar"], c["iso"], str(c["bmfp"]), str(c["sig"]), str(T))


def single_at(f, tol=2e-2):
    return bool((np.diff(f) > tol).all())


def single_modes(f, cut, gps, p):
    a = np.array(p.grid.addresses)[gps].any(axis=1)
    return all(single_at(x) for x in f[a])


def unit_to_WmK(volume):
    """cv v v tau / V with tau = 1 / (4 pi gamma), in W/m-K for eV/K, THz Angstrom, THz, Angstrom^3."""
    return EV * (1e12 * 1e-10) ** 2 / (volume * 1e-30) / 1e12 / (2 * np.pi)
