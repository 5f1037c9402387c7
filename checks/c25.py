"""C25: real part of the self energy and spectral functions."""

import glob
import re

import h5py
import numpy as np

from harness import ph, refs
from harness.core import Skip

PROP = "C25"
RULE = (
    "random crystal (soft modes, NAC with a direction at Gamma, compact fc3), mesh or generalized "
    "grid, symmetry on/off, grid points, temperatures, epsilons, bands, smearings/tetrahedron; "
    "shifts against the sum over all pairs of modes of the full grid, spectral functions against "
    "their definition from imaginary parts of a separate call and a quadrature of the "
    "Kramers-Kronig relation, with sum rules; distinct by (crystal, grid, options)"
)
REQUIRED = {"shift-bands": 400, "shift-freq": 800, "python": 30, "degenerate": 100, "hdf5": 20,
            "text": 10, "spf-gamma": 1000, "spf-delta": 1000, "spf-definition": 1000,
            "spf-positive": 500, "sum-rule": 1, "i2r": 30, "points": 20, "imaginary": 3,
            "gamma-nac": 2}

THZ = 2 * np.pi * 1e12
UNIT = 18 / (6.582119569e-16 * THZ) ** 2  # eV^2 / THz -> THz


def cases(tier, rng):
    n = 220 if tier == "quick" else 1500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4, max_atoms=4 if i % 3 == 0 else 2, nac=0.6, min_mesh=1 + (i % 4 > 0))
        c["ms"] = bool(rng.random() < 0.75)
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 1e-2, 1.0]))
        c["sigmas"] = [[None], [None, 0.3], [0.2, 0.5], [0.4]][int(rng.integers(4))]
        c["T"] = [float(x) for x in rng.choice([0, 5, 100, 300, 1500], size=2, replace=False)]
        c["eps"] = [None, [0.05], [0.3, 0.02], [1.0]][int(rng.integers(4))]
        c["dir"] = bool(rng.random() < 0.6)
        c["gamma"] = bool(rng.random() < 0.4)
        c["sym"] = bool(rng.integers(4) == 0)
        out.append(c)
    return out


def degenerate(f, tol=1e-4):
    sets = [[0]]
    for i in range(1, len(f)):
        if f[i] - f[sets[-1][-1]] < tol:
            sets[-1].append(i)
        else:
            sets.append([i])
    return sets


def shift(x, V, f1, f2, T, eps, cut):
    """Sum over pairs; V [triplet, band0, b1, b2] including weights; x scalar or per band0."""
    ok = (f1 > cut)[:, :, None] & (f2 > cut)[:, None, :]
    a = f1[:, :, None]
    b = f2[:, None, :]
    if T > 0:
        n1 = refs.bose(np.where(a > cut, a, 1.0), T)
        n2 = refs.bose(np.where(b > cut, b, 1.0), T)
    else:
        n1 = n2 = 0.0

    def pv(y):
        return y / (y * y + eps * eps)

    def one(x):
        k = (n1 + n2 + 1) * (pv(x - a - b) - pv(x + a + b)) + (n1 - n2) * (pv(x + a - b) - pv(x - a + b))
        return np.where(ok, k, 0)

    if np.ndim(x) == 0:
        return np.einsum("tbij,tij->b", V, one(x)) * UNIT
    return np.array([np.einsum("tij,tij->", V[:, i], one(y)) for i, y in enumerate(x)]) * UNIT


def hilbert(g, w, half=False):
    """Kramers-Kronig sum of an odd function sampled on w = 0, h, 2h, ...  -> real part at w.

    Principal value: the sample at the pole is left out.
    """
    h = w[1] - w[0]
    ww = np.r_[-w[:0:-1], w]
    gg = np.r_[-g[:0:-1], 0.0, g[1:]]  # an odd function is zero at 0
    out = []
    for k, x in enumerate(w):
        d = ww - x
        keep = np.arange(len(ww)) != len(w) - 1 + k
        out.append((gg[keep] / d[keep]).sum() * h / np.pi)
    return np.array(out)


def run(c, mon):
    from phono3py.phonon3.real_self_energy import ImagToReal, RealSelfEnergy

    rng = np.random.default_rng(c["seed"])
    p = ph.build(c)
    full = ph.build({**c, "ms": False})
    if p is None or full is None:
        raise Skip("mesh refused")
    nb = 3 * len(p.phonon_primitive)
    N = ph.ngrid(p)
    if N * nb**3 > 15000:
        raise Skip("large")
    T, S, eps, cut = c["T"], c["sigmas"], c["eps"], c["cutf"]
    nac_dir = [0.3, 0.1, 1.0] if c["nac"] and c["dir"] else None
    addr = np.array(p.grid.addresses)
    gps = [int(rng.integers(len(addr)))]
    if c["gamma"]:
        gps = [int(np.where((addr == 0).all(axis=1))[0][0])]
    else:
        if not addr[gps[0]].any():
            gps = [int(np.where((addr == 0).all(axis=1))[0][0])]
        elif rng.integers(2):
            g = int(rng.integers(len(addr)))
            if addr[g].any():
                gps.append(g)
    atgamma = not addr[gps[0]].any()
    if not atgamma:
        nac_dir = None
    det = f"{c['name']} {c['mesh']} ms={c['ms']} gps {gps} dir {nac_dir} cut {cut}"
    for o in (p, full):
        o.sigmas = S
    # bands: unions of complete degenerate groups or anything
    band = None
    if rng.random() < 0.4:
        b = [int(x) for x in rng.permutation(nb)[: int(rng.integers(1, nb + 1))]]
        k = int(rng.integers(0, len(b)))
        band = [b] if k == 0 else [b[:k], b[k:]]
        p.band_indices = band
    flat = list(range(nb)) if band is None else [x for y in band for x in y]
    for o in (p, full):
        o.init_phph_interaction(nac_q_direction=nac_dir, symmetrize_fc3q=c["sym"])
        o.run_phonon_solver()
    it, fi = p.phph_interaction, full.phph_interaction
    E = eps
    if eps is None:
        E = [0.05] if S == [None] else [s for s in S if s is not None]
    # ----- the code under test
    kw = {}
    mode = ["bands", "freq", "nfp", "step"][int(rng.integers(4))]
    if mode == "freq":
        kw["frequency_points"] = np.sort(rng.uniform(-1, 25, size=6))
    elif mode == "nfp":
        kw["num_frequency_points"] = 9
    elif mode == "step":
        kw["frequency_step"] = 4.0
    wt, wh = bool(rng.integers(2)) and mode != "bands", bool(rng.integers(2))
    pts, d0 = p.run_real_self_energy(gps, T, frequency_points_at_bands=True, epsilons=eps,
                                     write_hdf5=wh and mode == "bands")
    if mode != "bands":
        pts, d1 = p.run_real_self_energy(gps, T, epsilons=eps, write_txt=wt, write_hdf5=wh, **kw)
        d1 = np.array(d1)
        mon.check("points", len(pts) == d1.shape[-1])
        f = np.array(full.phph_interaction.get_phonons()[0])
        if nac_dir is not None:
            fi.run_phonon_solver_at_gamma()
            f = np.array(fi.get_phonons()[0])
            fi.run_phonon_solver_at_gamma(is_nac=True)
        top = 2 * f.max() + 4 * max([0] + [e for e in (eps or (E if S != [None] else [])) if e])
        if mode == "nfp":
            mon.check("points", len(pts) == 9 and pts[0] == 0 and abs(pts[-1] - top * 1.005) < 1e-6 * max(1, top),
                      f"{det} {pts[0]}..{pts[-1]} top {top}")
        elif mode == "step":
            mon.check("points", np.allclose(np.diff(pts), 4.0) and pts[0] == 0 and
                      top - 4 <= pts[-1] <= top * 1.005 + 4, f"{det} {pts} top {top}")
        else:
            mon.equal("points", np.array(pts), kw["frequency_points"])
    d0 = np.array(d0)
    mon.check("shape", d0.shape == (len(E), len(T), len(gps), len(flat)), f"{det} {d0.shape}")
    if nac_dir is not None:
        mon.events["gamma-nac"] += 1
    keep = {}
    for k, gp in enumerate(gps):
        fi.set_grid_point(gp)
        fi.run()
        tr, w = fi.get_triplets_at_q()[:2]
        f = np.array(fi.get_phonons()[0])
        if (f < -0.1).any():
            mon.events["imaginary"] += 1
        V = np.array(fi.interaction_strength) * np.array(w)[:, None, None, None]
        f1, f2 = f[tr[:, 1]], f[tr[:, 2]]
        keep[gp] = f[gp]
        sets = degenerate(f[gp])
        risky = (np.abs(np.diff(f[gp]) - 1e-4) < 2e-5).any()  # group not decidable
        if risky:
            continue

        def average(x, own):
            """Average over the selected members of each degenerate group (last axis: bands)."""
            y = np.array(x)[..., own]
            z = y.copy()
            for s in sets:
                m = [i for i, b in enumerate(own) if b in s]
                if len(m) > 1:
                    z[..., m] = y[..., m].mean(axis=-1)[..., None]
                    if len(m) == len(s):
                        mon.events["degenerate"] += 1
            return z

        partial = any(0 < sum(b in s for b in flat) < len(s) for s in sets)
        for ie, e in enumerate(E):
            for t, tt in enumerate(T):
                raw = shift(f[gp], V, f1, f2, tt, e, cut)
                raw[f[gp] < cut] = 0
                if not partial:  # a part of a degenerate group depends on the eigenvectors
                    want = average(raw, flat)
                    sc = max(np.abs(raw).max(), 1e-9)
                    near = (np.abs(f[gp] - cut) < 1e-6).any()
                    if not near:
                        mon.close("shift-bands", d0[ie, t, k], want, rtol=2e-5, scale=sc, key="shift-bands",
                                  detail=f"{det} gp {gp} eps {e} T {tt} bands {band}")
                    if mode != "bands":
                        r = np.array([shift(float(x), V, f1, f2, tt, e, cut) if x >= cut else
                                      np.zeros(nb) for x in pts])
                        want = average(r, flat).T
                        sc = max(np.abs(r).max(), 1e-9)
                        mon.close("shift-freq", d1[ie, t, k], want, rtol=2e-5, scale=sc, key="shift-freq",
                                  detail=f"{det} gp {gp} eps {e} T {tt} {mode} bands {band}")
    # Python route
    if N * nb**2 < 900 and rng.random() < 0.5:
        r = RealSelfEnergy(it, grid_point=gps[0], temperature=T[0], epsilon=E[0])
        r.run_interaction()
        q = RealSelfEnergy(it, grid_point=gps[0], temperature=T[0], epsilon=E[0], lang="Py")
        q._pp_strength = None
        q.run_interaction = r.run_interaction
        for o in (q,):
            o._pp_strength = r._pp_strength
            o._frequencies, o._triplets_at_q = r._frequencies, r._triplets_at_q
            o._weights_at_q, o._band_indices = r._weights_at_q, r._band_indices
        for x in (None, np.array([0.0, 2.0, 7.3])):
            r.frequency_points = q.frequency_points = x
            r.run()
            q.run()
            a, b = np.array(r.real_self_energy), np.array(q.real_self_energy)
            mon.close("python", b, a, rtol=1e-8, scale=max(np.abs(a).max(), 1e-9), detail=det, key="python")
    # files
    if wh:
        dd, want = (d0, None) if mode == "bands" else (d1, pts)
        names = glob.glob("deltas-*.hdf5")
        mon.check("hdf5", len(names) == len(gps if gps[0] != gps[-1] else gps[:1]) * len(set(E)),
                  f"{det} {names} eps {E}")
        for n in names:
            with h5py.File(n) as h:
                i = [k for k, e in enumerate(E) if abs(e - h["epsilon"][()]) < 1e-12]
                g = [k for k, x in enumerate(gps) if x == h["grid_point"][()]]
                mon.check("hdf5", bool(i) and bool(g), f"{det} {n}")
                if not (i and g):
                    continue
                mon.equal("hdf5", h["delta"][()], dd[i[-1], :, g[-1]], detail=f"{det} {n}")
                mon.equal("hdf5", h["temperature"][()], T)
                mon.equal("hdf5", h["band_index"][()], flat)
                mon.close("hdf5", h["frequency"][()], keep[gps[g[-1]]], rtol=1e-6, scale=1.0, key="hdf5:frequency")
                if want is not None:
                    mon.equal("hdf5", h["frequency_points"][()], want)
                mon.check("hdf5", f"-e{E[i[-1]]:g}" in n and f"-g{gps[g[-1]]}" in n, n)
    if wt:
        groups = [[int(x) for x in b] for b in p.band_indices]
        texts(mon, "deltas", gps, E, T, groups, pts,
              lambda i, t, g, b: d1[i, t, g, [flat.index(x) for x in b]].mean(axis=0), "-e", det)
    # ----- spectral function
    if (rng.random() < 0.75) and N * nb**3 < 8000:
        spectral(c, p, mon, rng, gps, S, T, flat, band, det)
    # ----- Hilbert transform of a known pair
    if rng.random() < 0.4:
        w0, g0 = float(rng.uniform(3, 8)), float(rng.uniform(0.5, 1.0))
        w = np.linspace(0, 400, 8001)

        def im(x):
            return 1 / ((x - w0) ** 2 + g0**2) - 1 / ((x + w0) ** 2 + g0**2)

        def re(x):
            # (1/pi) P int im(y) / (y - x) dy
            return -((x - w0) / ((x - w0) ** 2 + g0**2) - (x + w0) / ((x + w0) ** 2 + g0**2)) / g0

        o = ImagToReal(im(w), w)
        sel = w < 20
        for m in ("half_shift", "pick_one"):
            keepn = 0
            o.run(method=m)
            x, y = np.array(o.frequency_points), np.array(o.re_part)
            s = (x < 20) & (np.arange(len(x)) % 40 == int(rng.integers(40)))
            want = re(x[s])
            tol = 1e-3 if m == "half_shift" else 0.05 / np.pi * 1.5 / g0**3
            mon.close("i2r", y[s], want, rtol=0, atol=tol + 1e-3, key=f"i2r:{m}", detail=f"{w0} {g0} {m}")
        del sel, keepn
    mon.sig(c["name"], str(c["mesh"]), c["ms"], mode, str(S), str(T), len(flat), nac_dir is None, c["set"])


def texts(mon, stem, gps, sig, T, groups, pts, value, mark, det):
    names = glob.glob(stem + "-*.dat")
    n = len(set(gps)) * len(sig) * len(T) * len(groups)
    mon.check("text", len(names) == n, f"{det} {len(names)} files instead of {n}: {names[:6]}")
    for g, gp in enumerate(gps):
        for i, e in enumerate(sig):
            for t, tt in enumerate(T):
                for b in groups:
                    s = "" if e is None else f"{mark}{e:g}"
                    bb = "".join(f"b{x + 1}" for x in b)
                    pat = re.compile(rf"{stem}-m\w+-g{gp}{s}-t{tt:g}-{bb}(\.nosym)?\.dat")
                    f = [x for x in names if pat.fullmatch(x)]
                    mon.check("text", len(f) == 1, f"{det} {pat.pattern} in {names[:8]}")
                    if len(f) == 1 and gps.index(gp) == g:
                        d = np.loadtxt(f[0])
                        mon.close("text", d[:, 0], pts, rtol=0, atol=6e-8, key=f"text:{stem}:points")
                        v = value(i, t, g, b)
                        mon.close("text", d[:, 1], v, rtol=1e-12, scale=max(np.abs(v).max(), 1e-200),
                                  key=f"text:{stem}", detail=f"{det} {f[0]}")


def spectral(c, p, mon, rng, gps, S, T, flat, band, det):
    from phono3py.phonon3.spectral_function import SpectralFunction

    wt, wh = bool(rng.random() < 0.3), bool(rng.random() < 0.5)
    fmax = float(np.array(p.phph_interaction.get_phonons()[0]).max())
    if fmax < 1:
        return
    # strong coupling makes all parts of the formula visible
    f3 = np.array(p.fc3)
    r = p.run_imag_self_energy([gps[0]], [max(T)], frequency_points=np.linspace(0.3, 2 * fmax, 12))[1]
    gm = np.array(r).max()
    scale = 1.0
    strong = gm > 1e-9 and rng.random() < 0.8
    if strong:
        scale = float(np.sqrt(rng.uniform(0.03, 0.1) * fmax / gm))
        p.fc3 = f3 * scale
        nac_dir = p.phph_interaction.nac_q_direction
        p.init_phph_interaction(nac_q_direction=nac_dir, symmetrize_fc3q=c["sym"])
        p.run_phonon_solver()
    kw = {}
    k = int(rng.integers(3))
    if k == 0:
        kw["num_frequency_points"] = int(rng.integers(20, 60))
    elif k == 1:
        kw["frequency_step"] = float(rng.uniform(0.4, 1.0))
    else:
        kw["frequency_points"] = np.linspace(0, 2.5 * fmax, int(rng.integers(15, 50)))
    p.run_spectral_function(gps, T, num_points_in_batch=[None, 4][int(rng.integers(2))],
                            write_txt=wt, write_hdf5=wh, **kw)
    spf = [v for v in vars(p).values() if isinstance(v, SpectralFunction)][0]
    w = np.array(spf.frequency_points)
    A, Gm, Dl = (np.array(x) for x in (spf.spectral_functions, spf.half_linewidths, spf.shifts))
    mon.check("shape", A.shape == Gm.shape == Dl.shape == (len(S), len(T), len(gps), len(flat), len(w)),
              f"{det} {A.shape}")
    # imaginary parts by the other call, freshly initialised
    ref = np.array(p.run_imag_self_energy(gps, T, frequency_points=w)[1])
    if band is not None:
        # that call averages over the groups of bands
        ref2 = Gm.copy()
        if ref.shape == Gm.shape:
            ref2 = ref
        else:
            pos = 0
            for i, b in enumerate(band):
                m = Gm[:, :, :, pos:pos + len(b)].mean(axis=3)
                sc = max(np.abs(ref).max(), 1e-12)
                mon.close("spf-gamma", m, ref[:, :, :, i], rtol=1e-8, scale=sc, key="spf-gamma", detail=det)
                pos += len(b)
        if ref.shape == Gm.shape:
            mon.close("spf-gamma", Gm, ref2, rtol=1e-8, scale=max(np.abs(ref).max(), 1e-12), key="spf-gamma",
                      detail=det)
    else:
        mon.close("spf-gamma", Gm, ref, rtol=1e-8, scale=max(np.abs(ref).max(), 1e-12), key="spf-gamma",
                  detail=det)
    F = np.array(p.phph_interaction.get_phonons()[0])
    for idx in np.ndindex(A.shape[:4]):
        s, t, g, b = idx
        f = F[gps[g], flat[b]]
        y, d, a = Gm[idx], Dl[idx], A[idx]
        # shift = - Kramers-Kronig of the imaginary part; the sample at zero belongs to an even part
        want = -hilbert(y, w)
        tol = 1e-9 * max(np.abs(y).max() * 3, 1e-12)
        h = w[1] - w[0]
        slack = np.abs(y[0]) * h / np.pi / np.maximum(w, h) * 1.0001
        bad = np.abs(d - want) > tol + slack
        mon.check("spf-delta", not bad.any(), lambda: f"{det} {idx} {d[bad][:3]} want {want[bad][:3]}",
                  n=len(w), key="spf-delta")
        num = 4 * f * f * y / np.pi
        den = (w * w - f * f - 2 * f * d) ** 2 + (2 * f * y) ** 2
        wanta = np.where(den > 0, num / np.where(den > 0, den, 1), 0)
        mon.close("spf-definition", a, wanta, rtol=1e-7, scale=max(np.abs(wanta).max(), 1e-12),
                  key="spf-definition", detail=f"{det} {idx}")
        mon.check("spf-positive", ((a >= 0) | (y < 0)).all(), f"{det} {idx} {a.min()}", n=len(w),
                  key="spf-positive")
    if wh:
        n = glob.glob("spectral-*.hdf5")
        mon.check("hdf5", len(n) == len(set(gps)) * len(S), f"{det} {n}")
        for x in n:
            with h5py.File(x) as h:
                g = [k for k, q in enumerate(gps) if q == h["grid_point"][()]][-1]
                s = [k for k, q in enumerate(S) if (f"-s{q:g}." in x if q is not None else "-s" not in x)]
                mon.check("hdf5", len(s) == 1, f"{x} {S}")
                for key, v in (("spectral_function", A), ("shift", Dl), ("half_linewidth", Gm)):
                    mon.equal("hdf5", h[key][()], v[s[0], :, g], detail=f"{det} {x} {key}")
                mon.equal("hdf5", h["frequency_point"][()], w)
                mon.equal("hdf5", h["temperature"][()], T)
    if wt:
        groups = [[int(x) for x in b] for b in p.band_indices]
        texts(mon, "spectral", gps, S, T, groups, w,
              lambda i, t, g, b: A[i, t, g, [flat.index(x) for x in b]].mean(axis=0), "-s", det)
    # f-sum rule of a well resolved function
    if strong and any(s is not None and s >= 0.3 for s in S) and len(flat) == A.shape[3]:
        i = [k for k, s in enumerate(S) if s is not None and s >= 0.3][0]
        p.sigmas = [S[i]]
        top = 2 * fmax + 6 * S[i]
        x = np.linspace(0, top, int(top / 0.04))
        p.run_spectral_function([gps[0]], [max(T)], frequency_points=x, num_points_in_batch=50)
        o = [v for v in vars(p).values() if isinstance(v, SpectralFunction)][0]
        for b in range(len(flat)):
            f = F[gps[0], flat[b]]
            y, d = np.array(o.half_linewidths)[0, 0, 0, b], np.array(o.shifts)[0, 0, 0, b]
            a = np.array(o.spectral_functions)[0, 0, 0, b]
            # poles away from the axis only when stable, and the peak must be resolved
            if f < 0.5 or f * f + 2 * f * d[0] < 0.3 * f * f or y[0] > 2e-3 * y.max():
                continue
            q = x * x - f * f - 2 * f * d
            cross = np.where(np.sign(q[1:]) != np.sign(q[:-1]))[0]
            if len(cross) == 0 or any(y[k] < 0.1 or y[k + 1] < 0.1 for k in cross):
                continue
            tot = (x * a).sum() * (x[1] - x[0])
            mon.check("sum-rule", abs(tot / f - 1) < 0.03, f"{det} band {flat[b]} f {f} first moment {tot}",
                      key="sum-rule")
