"""C24: joint densities of states count momentum-conserving pairs of modes."""

import glob
import re

import numpy as np

from harness import gridgen as G
from harness import ph, refs
from harness.core import Skip

PROP = "C24"
RULE = (
    "random crystal, mesh or generalized grid, with/without mesh symmetry, NAC with a direction at "
    "Gamma, grid points anywhere in the zone, frequency points, smearings (with cutoff) and "
    "tetrahedron, temperatures none/0/finite, batches; the class and the API with its files are "
    "compared with sums over all pairs of modes of the full grid; distinct by (crystal, grid, "
    "method, temperature, symmetry, entry)"
)
REQUIRED = {"sum-sigma": 500, "diff-sigma": 500, "sum-tetra": 500, "diff-tetra": 500, "thermal": 500,
            "integral": 2, "file": 15, "batch": 5, "gamma-nac": 3, "points": 15, "python": 5,
            "imaginary": 2}


def cases(tier, rng):
    n = 200 if tier == "quick" else 2000
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4, max_atoms=4, nac=0.7, min_mesh=1 + (i % 4 > 0))
        c["entry"] = ["class", "class", "api"][i % 3]
        c["ms"] = bool(rng.random() < 0.75)
        c["sigma"] = [None, None, 0.1, 0.5][int(rng.integers(4))]
        c["cutsd"] = None if rng.random() < 0.6 else float(rng.uniform(1.5, 4))
        c["T"] = [None, None, 0.0, 300.0, 1200.0][int(rng.integers(5))]
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 0.8]))
        c["dir"] = bool(rng.random() < 0.6)
        c["gamma"] = bool(rng.random() < 0.35)
        out.append(c)
    return out


def expected(F, addr, g, D, grid, xs, sigma, cutsd, T, cut, tet, trip=None):
    """(lo, hi) [x, (difference, sum)] from all pairs.

    trip: representatives and their weights, only where the method itself is not invariant under
    the little group (weighted tetrahedra).
    """
    N = len(F)
    gra = G.all_gr_addresses(D)
    one = np.ones(N)
    if trip is not None:
        gra = addr[trip[0][:, 1]]
        one = np.array(trip[1], dtype=float)
    i1 = G.gr_index(gra, D)
    i2 = G.gr_index(-addr[g] - gra, D)
    nb = F.shape[1]
    lo, hi = np.zeros((len(xs), 2)), np.zeros((len(xs), 2))
    if sigma is None:
        r = tet.rel
        v1 = np.maximum(F[G.gr_index(gra[:, None, None] + r, D)], 0)  # N, 24, 4, nb
        v2 = np.maximum(F[G.gr_index((-addr[g] - gra)[:, None, None] - r, D)], 0)
    for a in range(nb):
        for b in range(nb):
            f1, f2 = F[i1, a], F[i2, b]
            ws = wd = one
            if T is not None:
                ok = (f1 > cut) & (f2 > cut)
                n1 = np.where(ok, refs.bose(np.where(ok, f1, 1.0), T), 0)
                n2 = np.where(ok, refs.bose(np.where(ok, f2, 1.0), T), 0)
                ws = one * np.where(ok, n1 + n2 + 1, 0)
                wd = one * np.where(ok, n1 - n2, 0)
            for k, x in enumerate(xs):
                if sigma is not None:
                    ys = (x - f1 - f2, x + f1 - f2, x - f1 + f2)
                    g = [refs.gauss(y, sigma) for y in ys]
                    coef = (ws, wd, wd if T is None else -wd)
                    full = [u * v for u, v in zip(coef, g)]
                    if cutsd is None:
                        keep = may = [np.ones(len(f1), bool)] * 3
                    else:
                        # a pair is left out when all of its three terms are beyond the cut;
                        # otherwise terms beyond the cut may be kept or not
                        keep = [np.abs(y) < cutsd * sigma * (1 - 1e-5) for y in ys]
                        near = np.min(np.abs(ys), axis=0) <= cutsd * sigma * (1 + 1e-5)
                        may = [near] * 3
                    low = [np.where(k_, v, np.where(m_, np.minimum(v, 0), 0))
                           for k_, m_, v in zip(keep, may, full)]
                    hig = [np.where(k_, v, np.where(m_, np.maximum(v, 0), 0))
                           for k_, m_, v in zip(keep, may, full)]
                    sl, sh = low[0].sum(), hig[0].sum()
                    dl, dh = low[1].sum() + low[2].sum(), hig[1].sum() + hig[2].sum()
                else:
                    tot = []
                    for y in (v1[..., a] + v2[..., b], -v1[..., a] + v2[..., b],
                              v1[..., a] - v2[..., b]):
                        tot.append(refs.tetra_weight(x, y, "I", 1e-7))
                    sl, sh = (ws * tot[0][1]).sum(), (ws * tot[0][2]).sum()
                    if T is None:
                        dl = (wd * (tot[1][1] + tot[2][1])).sum()
                        dh = (wd * (tot[1][2] + tot[2][2])).sum()
                    else:
                        # weights of the first kind minus those of the second
                        q = np.array([wd * (tot[1][i] - tot[2][j]) for i in (1, 2) for j in (1, 2)])
                        dl, dh = q.min(axis=0).sum(), q.max(axis=0).sum()
                lo[k] += [dl, sl]
                hi[k] += [dh, sh]
    return lo / N, hi / N


def run(c, mon):
    from phono3py import Phono3pyJointDos
    from phono3py.phonon3.joint_dos import JointDos
    from phono3py.phonon3.triplets import get_triplets_at_q

    rng = np.random.default_rng(c["seed"])
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    nb = 3 * len(prim)
    grid = p3.grid
    N = int(np.prod(np.array(grid.D_diag)))
    if N * nb * nb > 3500 * (1 if c["sigma"] is not None else 0.6):
        raise Skip("large")
    nacp = p3.nac_params
    if nacp is not None:
        nacp = dict(nacp, method="gonze")
    direction = [0.4, 0.1, 1.0] if nacp is not None and c["dir"] else None
    cut, sigma, T, cutsd = c["cutf"], c["sigma"], c["T"], c["cutsd"]
    entry = c["entry"]
    addr = np.array(grid.addresses)
    gps = [int(x) for x in rng.integers(len(addr), size=2)]
    if c["gamma"]:
        gps[int(rng.integers(2))] = int(np.where((addr == 0).all(axis=1))[0][0])
    det = f"{c['name']} {entry} {c['mesh']} ms={c['ms']} sigma={sigma}/{cutsd} T={T} cut={cut}"
    out = []
    if entry == "class":
        j = JointDos(prim, sc, grid, p3.fc2, nac_params=nacp, nac_q_direction=None, sigma=sigma,
                     sigma_cutoff=cutsd, cutoff_frequency=cut, is_mesh_symmetry=c["ms"],
                     lapack_zheev_uplo="UL"[int(rng.integers(2))])
        j.temperature = T
        j.run_phonon_solver()
        f0 = np.array(j.get_phonons()[0])
        for g in gps:
            j.nac_q_direction = direction if not addr[g].any() else None
            j.set_grid_point(g)
            top = max(2 * f0.max(), 1.0)
            xs = np.r_[rng.uniform(0, top * 1.05, size=4), rng.uniform(0.01, 0.3 * top, size=3)]
            j.frequency_points = xs
            j.run()
            out.append((g, xs, np.array(j.joint_dos), np.array(j.get_phonons()[0])))
            if T is not None and rng.random() < 0.5:
                j.run_jdos(lang="Py")
                a = out[-1][2]
                mon.close("python", j.joint_dos, a, rtol=1e-9, scale=max(1e-9, np.abs(a).max()),
                          key="python", detail=det)
            if not addr[g].any() and direction is not None:
                mon.events["gamma-nac"] += 1
        ph.older_names(mon, j)
        cutsd_ = cutsd
    else:
        cutsd_ = None
        mesh = c["mesh"]
        kw = {}
        if c["grg"]:
            kw = {"use_grg": True, "SNF_coordinates": c["snf"]}
        nfp = [31, 12, None][int(rng.integers(3))]
        step = None
        if nfp is None:
            step = float(rng.uniform(0.3, 1.5))
        temps = None if T is None else [T] if rng.integers(2) else [T, 77.0]
        sig = [sigma] if rng.integers(2) else [sigma, 0.4]
        a = Phono3pyJointDos(sc, prim, p3.fc2, mesh=mesh, nac_params=nacp, nac_q_direction=direction,
                             sigmas=sig, cutoff_frequency=cut, frequency_step=step,
                             num_frequency_points=nfp, temperatures=temps,
                             is_mesh_symmetry=c["ms"], log_level=0, **kw,
                             num_points_in_batch=[None, 3, 7][int(rng.integers(3))])
        grid = a.grid
        addr2 = np.array(grid.addresses)
        mon.equal("grid", addr2, addr, detail=det)
        a.run(gps, write_jdos=True)
        fp = np.array(a.frequency_points)
        jd = next((v for v in vars(a).values() if isinstance(v, JointDos)))
        F = np.array(jd.get_phonons()[0])
        if direction is not None:
            # without the field at Gamma
            j = JointDos(prim, sc, grid, p3.fc2, nac_params=nacp, cutoff_frequency=cut)
            j.run_phonon_solver()
            F = np.array(j.get_phonons()[0])
        fmax = 2 * F.max() + 4 * max([0] + [s for s in sig if s is not None])
        mon.check("points", fp[0] == 0 and (np.diff(fp) > 0).all() and abs(fp[-1] - fmax * 1.005) <
                  1e-4 * fmax + (step or 0) + 1e-9, f"{det} frequency points {fp[0]} {fp[-1]} {fmax}")
        if step is not None:
            mon.close("points", np.diff(fp), np.full(len(fp) - 1, step), rtol=1e-8, key="points:step")
        elif nfp:
            mon.check("points", len(fp) == nfp, f"{det} {len(fp)}")
        files = sorted(glob.glob("jdos*.dat"))
        want = len({tuple([g]) for g in gps}) * len(sig if sig[0] != sig[-1] else sig[:1]) * (
            1 if temps is None else len(temps))
        mon.check("file", len(files) == want, f"{det} files {files} instead of {want}")
        for g in set(gps):
            for s in dict.fromkeys(sig):
                for t in temps or [None]:
                    # a Gamma file after another point is the state of that run
                    pat = re.compile(rf".*-g{g}" + (f"-s{s:g}" if s is not None else "")
                                     + (f"-t{t:g}" if t is not None else "") + r"(\.nosym)?\.dat")
                    name = [x for x in files if pat.fullmatch(x)]
                    mon.check("file", len(name) == 1, f"{det} file of gp {g} sigma {s} T {t}: {name} in {files}")
                    if len(name) != 1:
                        continue
                    d = np.loadtxt(name[0])
                    mon.close("file", d[:, 0], fp, rtol=0, atol=1e-7, key="file:points", detail=det)
                    pick = np.unique(np.r_[rng.integers(1, len(fp), size=5), len(fp) - 1])
                    Fg = F
                    if nacp is not None and direction is not None:
                        if not addr[g].any():
                            j = JointDos(prim, sc, grid, p3.fc2, nac_params=nacp,
                                         nac_q_direction=direction, cutoff_frequency=cut)
                            mon.events["gamma-nac"] += 1
                        else:
                            j = JointDos(prim, sc, grid, p3.fc2, nac_params=nacp, cutoff_frequency=cut)
                        j.run_phonon_solver()
                        Fg = np.array(j.get_phonons()[0])
                    out.append((g, fp[pick], d[pick, 1:], Fg, s, t))
                    if t is None and s is not None and s >= 0.3 and len(fp) > 25 and fp[1] < s:
                        # number of pairs
                        y = d[:, 2]
                        dx = np.diff(fp)
                        n = (0.5 * (y[1:] + y[:-1]) * dx).sum()
                        pos = F[np.array(grid.grg2bzg)]
                        if pos.min() > 2 * s / 2:
                            mon.close("integral", n, nb * nb, rtol=0.03, key="integral", detail=det)
        mon.events["batch"] += 1
    D = np.array(grid.D_diag)
    gr2bz = np.array(grid.grg2bzg)
    tet = ph.Tetra(grid)
    for o in out:
        g, xs, got, Fz = o[:4]
        s, t = (o[4], o[5]) if len(o) > 4 else (sigma, T)
        F = Fz[gr2bz]
        if (F < -0.1).any():
            mon.events["imaginary"] += 1
        trip = None
        if s is None and c["ms"]:
            trip = get_triplets_at_q(g, grid)[:2]
            mon.check("weights", trip[1].sum() == len(F), f"{det} {trip[1].sum()}")
        lo, hi = expected(F, addr, g, D, grid, xs, s, cutsd_, t, cut, tet, trip)
        kind = "sigma" if s is not None else "tetra"
        for k, nm in ((0, "diff"), (1, "sum")):
            sc_ = max(np.abs(hi).max(), np.abs(lo).max(), 1e-6)
            tol = 1e-6 * sc_ + (2e-5 * sc_ if nacp is not None else 0)
            ok = np.abs(hi[:, k]) < 1e4
            bad = ok & ((got[:, k] < lo[:, k] - tol) | (got[:, k] > hi[:, k] + tol))
            mon.check(f"{nm}-{kind}", not bad.any(), lambda: f"{det} gp {g} {addr[g]} T {t} sigma {s}: at "
                      f"{xs[bad]} got {got[bad, k]} want {lo[bad, k]}..{hi[bad, k]}", n=len(xs),
                      key=f"{nm}-{kind}:{entry}")
            if t is not None:
                mon.events["thermal"] += len(xs)
        if entry == "class" and s is not None and s >= 0.3 and t is None and cutsd_ is None:
            # all pairs lie on the frequency axis
            j.sigma = s
            xx = np.linspace(F.min() * 2 - 6 * s, F.max() * 2 + 6 * s, 400)
            j.frequency_points = xx
            j.run()
            y = np.array(j.joint_dos)[:, 1]
            mon.close("integral", y.sum() * (xx[1] - xx[0]), nb * nb, rtol=1e-3, key="integral", detail=det)
    mon.sig(c["name"], D.tolist(), entry, str(sigma), str(T), c["ms"], nacp is None, cutsd is None, c["set"])
