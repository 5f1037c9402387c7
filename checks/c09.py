"""C09: imaginary self energy against an independent golden-rule sum."""

import contextlib
import io

import numpy as np

from harness import ph, refs
from harness.core import Skip

PROP = "C09"
RULE = (
    "random crystal, mesh, grid point, temperatures 0-3000 K, tetrahedron and smearings, band "
    "positions and arbitrary frequency points incl. negative and far out, batches, scattering "
    "classes, per-triplet details; Gamma recomputed from strengths, occupations and delta "
    "functions (own Gaussian; weights of C05 for tetrahedra); distinct by (crystal, mesh, "
    "options)"
)
REQUIRED = {"bands-sigma": 800, "bands-tetra": 400, "fpoints-sigma": 4000, "fpoints-tetra": 4000,
            "nonneg": 2000, "detail-sum": 2000, "class-sum": 1000, "class": 2000, "zero-K": 300, "NU": 200, "python": 500,
            "batch": 1000, "detail-api": 2000, "degenerate-average": 300}


def cases(tier, rng):
    n = 260 if tier == "quick" else 2500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 6, max_atoms=3 if i % 10 else 5)
        c["cutf"] = [1e-4, 1e-4, 1.5][int(rng.integers(3))]
        c["sigmas"] = [[None], [0.1], [None, 0.3], [0.7, None], [0.2, 1.1]][int(rng.integers(5))]
        if i % 3 == 0:
            c["sigmas"] = [None] + [float(rng.uniform(0.05, 1))] * (i % 2)
        c["T"] = [float(x) for x in rng.choice([0, 1, 20, 100, 300, 1000, 3000],
                                               size=int(rng.integers(1, 4)), replace=False)]
        c["ms"] = bool(rng.integers(4))
        out.append(c)
    return out


def occ(f, T, cut):
    with np.errstate(all="ignore"):
        n = 1 / np.expm1(refs.THzToEv * f / (refs.KB * T)) if T > 0 else np.zeros_like(f)
    return np.where(f > cut, n, 0.0), f > cut


UNIT = None


def unit():
    # 18 pi / hbar^2 / (2 pi THz)^2 * eV^2 : eV^2 / THz -> THz (with 2 pi THz units)
    hbar = 6.582119569e-16
    return 18 * np.pi / hbar**2 / (2 * np.pi * 1e12) ** 2


def golden(v, w, t, f, T, cut, g1, g23):
    """Sum over triplets; g arrays broadcast to v's shape; returns (total, detail)."""
    n1, ok1 = occ(f[t[:, 1]], T, cut)
    n2, ok2 = occ(f[t[:, 2]], T, cut)
    ok = (ok1[:, :, None] & ok2[:, None, :])[:, None]
    a = (n1[:, :, None] + n2[:, None, :] + 1)[:, None]
    b = (n1[:, :, None] - n2[:, None, :])[:, None]
    d = v * (a * g1 + b * g23) * ok * unit()
    return np.einsum("t,tijk->i", w, d), d


def average(x, bands, f0, axis):
    """Average over degenerate bands within the selected ones."""
    out = np.array(x)
    sets, cur = [], [0]
    for i in range(1, len(f0)):
        if f0[i] - f0[cur[-1]] < 1e-4:
            cur.append(i)
        else:
            sets.append(cur)
            cur = [i]
    sets.append(cur)
    for s in sets:
        idx = [k for k, b in enumerate(bands) if b in s]
        if idx:
            m = np.take(out, idx, axis).mean(axis=axis, keepdims=True)
            sl = [slice(None)] * out.ndim
            sl[axis] = idx
            out[tuple(sl)] = np.repeat(m, len(idx), axis)
    return out, any(len(s) > 1 for s in sets)


def run(c, mon):
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    rng = np.random.default_rng(c["seed"])
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    p3.sigmas = c["sigmas"]
    p3.init_phph_interaction()
    itr = p3.phph_interaction
    p3.run_phonon_solver()
    nb = 3 * len(p3.primitive)
    bands = list(range(nb))
    ir = ph.ir_gps(p3)
    gps = sorted(int(x) for x in rng.choice(ir, size=min(2, len(ir)), replace=False))
    fmax = max(1.0, float(itr.get_phonons()[0].max()))
    fpts = np.r_[0.0, 3 * fmax, rng.uniform(0, 0.1),
                 rng.uniform(0, 1.8 * fmax, size=int(rng.integers(5, 14)))]
    if rng.random() < 0.3:
        fpts = np.sort(fpts)
    nf = len(fpts)
    nbatch = int(rng.choice([1, 2, 3, nf - 1, nf - 1, (nf - 1) // 2, (nf - 1) // 3, nf, nf + 3]))
    Ts = c["T"]
    cut = c["cutf"]
    r_b = p3.run_imag_self_energy(gps, Ts, frequency_points_at_bands=True)[1]
    fp, r_f = p3.run_imag_self_energy(gps, Ts, frequency_points=fpts, num_points_in_batch=nbatch)
    mon.equal("fpoints-returned", fp, fpts)
    _, r_f2 = p3.run_imag_self_energy(gps, Ts, frequency_points=fpts[::-1])
    sc = np.abs(r_f).max() or 1.0
    mon.close("batch", r_f2[..., ::-1], r_f, rtol=1e-12, scale=sc)
    cl = [p3.run_imag_self_energy(gps, Ts, frequency_points=fpts, scattering_event_class=k)[1]
          for k in (1, 2)]
    mon.close("class-sum", cl[0] + cl[1], r_f, rtol=1e-10, scale=sc)
    fd, r_fd, det = p3.run_imag_self_energy(gps, Ts, frequency_points=fpts[:4],
                                            keep_gamma_detail=True)
    _, r_bd, detb = p3.run_imag_self_energy(gps, Ts, frequency_points_at_bands=True,
                                            keep_gamma_detail=True)
    mon.close("detail-api", r_fd, r_f[..., :4], rtol=1e-10, scale=sc)
    scb = max(np.abs(r_b).max(), 1e-14)
    mon.close("detail-api", r_bd, r_b, rtol=1e-10, scale=scb)
    mon.check("detail-api", len(det) == len(gps) and len(detb) == len(gps),
              f"{len(det)} {len(detb)} arrays of details for {len(gps)} grid points")
    for ig, gp in enumerate(gps):
        itr.set_grid_point(gp)
        itr.run()
        v = np.array(itr.interaction_strength)
        f = np.array(itr.get_phonons()[0])
        t, w = itr.get_triplets_at_q()[:2]
        f1, f2 = f[t[:, 1]][:, None, :, None], f[t[:, 2]][:, None, None, :]
        # keep away from delta functions of a tetrahedron evaluated at a vertex frequency
        for js, s in enumerate(c["sigmas"]):
            for mode, x in (("bands", f[gp]), ("fpoints", fpts)):
                if s is None:
                    g = get_triplets_integration_weights(itr, np.array(x, dtype="double"), None)[0]
                    g1, g23 = g[0], g[1]
                else:
                    xx = np.asarray(x)[None, :, None, None]
                    g1 = refs.gauss(f1 + f2 - xx, s)
                    g23 = refs.gauss(xx + f1 - f2, s) - refs.gauss(xx - f1 + f2, s)
                for jt, T in enumerate(Ts):
                    kind = f"{mode}-{'tetra' if s is None else 'sigma'}"
                    if T == 0:
                        g23_ = np.zeros_like(g23)
                        mon.events["zero-K"] += 1 if mode == "bands" else len(x)
                    else:
                        g23_ = g23
                    if mode == "bands":
                        want, d = golden(v, w, t, f, T, cut, g1, g23_)
                        want, deg = average(want, bands, f[gp], 0)
                        got = r_b[js, jt, ig]
                        mon.events["degenerate-average"] += int(deg) * nb
                        mon.close("detail-sum", detb[ig][js, jt], d, rtol=3e-6,
                                  scale=max(np.abs(d).max(), 1e-14), key="detail-bands")
                    else:
                        want = np.array([golden(v, w, t, f, T, cut, g1[:, k:k + 1],
                                                g23_[:, k:k + 1])[0] for k in range(len(x))])
                        want, deg = average(want.T, bands, f[gp], 0)
                        got = r_f[js, jt, ig]
                        # class 1: differences, class 2: sums of the occupations
                        zero = np.zeros_like(g1)
                        for k, (a, b) in enumerate(((zero, g23_), (g1, zero))):
                            part = [golden(v, w, t, f, T, cut, a[:, i:i + 1], b[:, i:i + 1])[0]
                                    for i in range(len(x))]
                            part, _ = average(np.array(part).T, bands, f[gp], 0)
                            mon.close("class", cl[k][js, jt, ig], part, rtol=3e-6,
                                      scale=max(np.abs(part).max(), np.abs(got).max(),
                                                1e-14 if T < 100 else 1e-13), key=f"class-{k + 1}")
                        dd = det[ig][js, jt]
                        tot = np.einsum("t,ftijk->if", w, dd)
                        tot, _ = average(tot, bands, f[gp], 0)
                        mon.close("detail-sum", tot, r_f[js, jt, ig, :, :4], rtol=1e-9,
                                  scale=max(np.abs(r_f).max(), 1e-14), key="detail-fpoints")
                    mon.close(kind, got, want, rtol=3e-6,
                              scale=max(np.abs(got).max(), 1e-14 if T < 100 else 1e-13),
                              detail=f"gp {gp} sigma {s} T {T}")
                    if s is not None:
                        mon.check("nonneg", (got >= -1e-12 * max(got.max(), 1e-30)).all(),
                                  f"{got.min()} of {got.max()}", n=got.size)
                    mon.check("finite", np.isfinite(got).all(), "not finite", n=got.size)
        # N and U through the class
        ise = ImagSelfEnergy(itr, with_detail=True)
        ise.set_grid_point(gp)
        s = c["sigmas"][-1]
        ise.set_sigma(s)
        ise.run_integration_weights()
        ise.temperature = Ts[-1]
        ise.run_interaction()
        ise.run()
        N, U = ise.get_imag_self_energy_N_and_U()
        adr = np.array(p3.grid.addresses)
        isN = ~adr[t].sum(axis=1).any(axis=1)
        d = np.array(ise.detailed_imag_self_energy)
        wN, _ = average(np.einsum("t,tijk->i", w * isN, d), bands, f[gp], 0)
        wU, _ = average(np.einsum("t,tijk->i", w * ~isN, d), bands, f[gp], 0)
        mon.close("NU", N, wN, rtol=1e-9, scale=scb)
        mon.close("NU", U, wU, rtol=1e-9, scale=scb)
        mon.close("NU", N + U, r_b[-1, -1, ig], rtol=1e-9, scale=scb)
        if gp == gps[-1]:
            ph.older_names(mon, ise)
        # the Python reference route of the same class
        if len(t) * nb**2 < 3000:
            py = ImagSelfEnergy(itr, lang="Python")
            py.set_grid_point(gp)
            py.set_sigma(s)
            py.temperature = Ts[-1]
            for x, ref in ((None, r_b[-1, -1, ig]), (fpts[:3], r_f[-1, -1, ig][:, :3])):
                py.frequency_points = x
                py.run_integration_weights()
                py.set_interaction_strength(v)
                with contextlib.redirect_stdout(io.StringIO()):
                    py.run()
                got = np.array(py.imag_self_energy)
                mon.close("python", got.T if x is not None else got, ref, rtol=1e-7,
                          scale=max(np.abs(ref).max(), 1e-13), key=f"python-{x is None}")
    mon.sig(c["name"], c["set"], tuple(np.array(p3.mesh_numbers).tolist()), str(c["sigmas"]),
            str(Ts), c["cutf"], c["r0"], c["compact"])
