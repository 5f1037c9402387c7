"""C12: direct solution of the linearized phonon Boltzmann equation."""

import contextlib
import io

import numpy as np

from harness import gridgen as G
from harness import ph, refs
from harness.core import Skip

PROP = "C12"
RULE = (
    "random crystal, small mesh, smearings/tetrahedron, temperatures, isotope, boundary "
    "scattering, frequency cutoff, ir / reducible form, star sum on/off, solvers and "
    "pseudo-inverse settings; the full collision matrix is rebuilt point by point from the "
    "triplets without symmetry, reported pieces compared with it, and the conductivity is "
    "obtained again by an independent eigen-decomposition of the full matrix; distinct by "
    "(crystal, mesh, options)"
)
REQUIRED = {"colmat": 20000, "symmetric": 20, "gamma": 1000, "kappa": 100, "kappa-RTA": 30, "kappa-diag": 12,
            "solver": 60, "eigenvalues": 1000, "collective": 10, "expand": 20,
            "cutoff-used": 3, "lapacke": 8, "python": 1000, "vectors": 2000, "negative": 1000}
KB = refs.KB
H = refs.THzToEv
U = 1e24 * 1e-20 / 1e-30 * 1.602176634e-19 / 1e12 / (2 * np.pi)


def unit():
    hbar = 6.582119569e-16
    return 18 * np.pi / hbar**2 / (2 * np.pi * 1e12) ** 2


def cases(tier, rng):
    n = 160 if tier == "quick" else 700
    out = []
    low = ["tric", "tric1", "p1", "mono", "orthoP", "chiralcubic", "bct", "orthoC"]
    for i in range(n):
        kw = {"names": low} if i % 3 == 0 else {}
        c = ph.gen(rng, max_mesh=3, max_atoms=2 if i % 4 else 4, min_mesh=1 + (i % 5 > 0),
                   grg=0.2, **kw)
        c["r0"] = bool(rng.random() < 0.8)
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 1e-2, 1.5, 4.0]))
        c["red"] = bool(rng.random() < 0.4)
        c["kstar"] = bool(rng.random() < 0.8)
        c["ms"] = bool(rng.random() < 0.85)
        s = [None, float(rng.uniform(0.1, 0.5)), float(rng.uniform(0.5, 2))]
        c["sigmas"] = [s[:1], s[1:2], s[1:], s[2:], s[::-1]][int(rng.integers(5))]
        if None in c["sigmas"]:
            # exact ties f(q) = f(q) + f(Gamma) are vertices of tetrahedra, where the weight is
            # not a function of the input up to rounding
            c["pin"], c["soft"] = 1.37, 0.0
            # tetrahedra follow one of the main diagonals: only inversion keeps them
            c["nac"] = False
            c["ms"] = c["name"] in ("tric", "tric1", "p1") and bool(rng.integers(2))
        c["sc"] = [None, None, 4.0][int(rng.integers(3))]
        c["T"] = [float(x) for x in rng.choice([0, 20, 100, 300, 900, 3000],
                                               size=int(rng.integers(1, 3)), replace=False)]
        c["iso"] = bool(rng.integers(2))
        c["mfp"] = [None, None, 0.01, 5.0][int(rng.integers(4))]
        c["method"] = int(rng.integers(2))
        c["full"] = bool(rng.random() < 0.3)
        c["max"] = 430 if tier == "quick" else 900
        c["big"] = bool(rng.random() < 0.3)
        if i % 6 == 5:  # solvers of the build with LAPACKE
            c["variant"] = "lapacke"
        out.append(c)
    return out


def degs(f):
    out, cur = [], [0]
    for i in range(1, len(f)):
        if f[i] - f[cur[-1]] < 1e-4:
            cur.append(i)
        else:
            out.append(cur)
            cur = [i]
    return out + [cur]


def avg(x, f, axis):
    x = np.moveaxis(np.array(x), axis, 0)
    for d in degs(f):
        x[d] = x[d].mean(axis=0)
    return np.moveaxis(x, 0, axis)


def rows(c, gps, f_ref):
    """Rows of the full collision matrix from triplets without symmetry: [s, T, gp, j, q1, j1]."""
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    p = ph.build(dict(c, ms=False))
    p.sigmas = c["sigmas"]
    p.init_phph_interaction()
    p.run_phonon_solver()
    pp = p.phph_interaction
    grid = p.grid
    N, nb = ph.ngrid(p), 3 * len(p.primitive)
    f = np.array(pp.get_phonons()[0])
    assert np.allclose(f, f_ref, atol=1e-7 + 1e-2 * (f_ref < 0.01)), "phonons differ"
    b2g = np.array(grid.bzg2grg)
    cut = c["cutf"]
    out = np.zeros((len(c["sigmas"]), len(c["T"]), len(gps), nb, N, nb))
    for ig, gp in enumerate(gps):
        pp.set_grid_point(int(gp))
        pp.run()
        v = np.array(pp.interaction_strength)
        t, w = pp.get_triplets_at_q()[:2]
        t = np.array(t)
        assert len(t) == N and (np.array(w) == 1).all()
        q1 = b2g[t[:, 1]]
        f2 = f[t[:, 2]]
        for j, s in enumerate(c["sigmas"]):
            g = get_triplets_integration_weights(pp, np.array(f[gp], dtype="double"), s, c["sc"],
                                                 is_collision_matrix=True)[0][2]
            for k, T in enumerate(c["T"]):
                if T == 0:
                    continue
                with np.errstate(all="ignore"):
                    x = f2 * H / (2 * KB * T)
                    inv = np.where(f2 > cut, 1 / np.sinh(np.clip(x, 1e-9, 600)), 0)
                r = np.einsum("tijk,tk->tij", v * g, inv) * unit()
                out[j, k, ig][:, q1] = r.transpose(1, 0, 2)
    return out


def run(c, mon):
    from phono3py.conductivity.direct_solution import ConductivityLBTE

    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    N, nb = ph.ngrid(p3), 3 * len(p3.primitive)
    if N * nb > 330:
        raise Skip("large")
    n = len(ph.ir_gps(p3)) if c["kstar"] else N
    if (not c["red"] and n * nb * 3 > c["max"]) or n * N * nb**3 > 700 * c["max"]:
        raise Skip("large")
    p3.sigmas = c["sigmas"]
    p3.sigma_cutoff = c["sc"]
    p3.init_phph_interaction()
    p3.run_phonon_solver()
    T = np.array(c["T"])
    prim = p3.primitive
    grid = p3.grid
    g2b, b2g = np.array(grid.grg2bzg), np.array(grid.bzg2grg)
    fbz = np.array(p3.get_phonon_data()[0])
    f = fbz[g2b]
    kw = dict(temperatures=c["T"], sigmas=c["sigmas"], sigma_cutoff=c["sc"],
              is_isotope=c["iso"], boundary_mfp=c["mfp"], is_kappa_star=c["kstar"],
              is_full_pp=c["full"], pinv_method=c["method"])

    def lbte(red=c["red"], **k):
        o = ConductivityLBTE(p3.phph_interaction, is_reducible_collision_matrix=red,
                             **dict(kw, **k))
        for _ in o:
            pass
        return o

    o = lbte()
    if not c["seed"] % 3:
        ph.older_names(mon, lbte())
    raw = np.array(o.collision_matrix)
    gps = np.array(o.grid_points)
    red = c["red"]
    R = rows(c, gps, fbz)
    nS, nT = len(c["sigmas"]), len(T)
    f0 = fbz[gps]
    # --- pieces at the sampled points, averaged over degenerate modes
    W = G.point_group(G.dataset(prim)) if c["kstar"] else [np.eye(3, dtype=int)]
    rec = np.linalg.inv(prim.cell)
    cart = [rec @ w @ np.linalg.inv(rec) for w in W]
    qf = np.array(grid.addresses)[g2b] @ np.array(grid.QDinv).T

    def find(x):
        d = qf - x
        d -= np.rint(d)
        i = np.abs(d).max(1).argmin()
        assert np.abs(d[i]).max() < 1e-5
        return i

    image = np.array([[find(w @ qf[b2g[g]]) for g in gps] for w in W])  # [R, i] -> GR index
    want = np.array(R)
    for i in range(len(gps)):
        want[:, :, i] = avg(want[:, :, i], f0[i], 2)
    for q in range(N):
        want[:, :, :, :, q] = avg(want[:, :, :, :, q], f[q], 4)
    if red:
        got = np.array(raw[:, :, b2g[gps]])
        other = np.delete(raw, b2g[gps], axis=2)
        mon.check("colmat", not other.any(), "rows of points not sampled", key="colmat-stray")
        for i in range(len(gps)):
            got[:, :, i] = avg(got[:, :, i], f0[i], 2)
        for q in range(N):
            got[:, :, :, :, q] = avg(got[:, :, :, :, q], f[q], 4)
        mon.close("colmat", got, want, rtol=1e-5, scale=max(np.abs(want).max(), 1e-8),
                  key="colmat:red")
    else:
        ir = np.zeros_like(raw)
        for w, cr in enumerate(cart):
            # [s,T,i,j,i',j'] at rotated columns
            col = want[:, :, :, :, image[w]]
            ir += np.einsum("stijkl,ab->stijaklb", col, cr)
        got = np.array(raw)
        for i in range(len(gps)):
            got[:, :, i] = avg(got[:, :, i], f0[i], 2)
            got[:, :, :, :, :, i] = avg(got[:, :, :, :, :, i], f0[i], 5)
        mon.close("colmat", got, ir, rtol=1e-5, scale=max(np.abs(ir).max(), 1e-8),
                  key="colmat:ir")
    # --- the Python reference route of one grid point
    if c["seed"] % 3 == 0 and (T > 0).any():
        from phono3py.phonon3.collision_matrix import CollisionMatrix

        itr = p3.phph_interaction
        i = int(c["seed"] // 3 % len(gps))
        j = int(np.argmax(T > 0))
        sg = c["sigmas"][-1]
        res = []
        for lang in ("C", "Python"):
            a = (dict(is_reducible_collision_matrix=True) if red else
                 dict(rotations_cartesian=np.array(cart, dtype="double", order="C"),
                      num_ir_grid_points=len(gps), rot_grid_points=g2b[image.T]))
            cm = CollisionMatrix(itr, lang=lang, **a)
            cm.set_grid_point(int(gps[i]))
            if not len(res):
                itr.run()
                v = np.array(itr.interaction_strength)
            cm.set_sigma(sg, sigma_cutoff=c["sc"])
            cm.temperature = float(T[j])
            cm.run_integration_weights()
            cm.set_interaction_strength(v)
            with contextlib.redirect_stdout(io.StringIO()):
                cm.run()
            res.append((np.array(cm.get_collision_matrix()), np.array(cm.imag_self_energy)))
        for x, y, what in zip(*res, ("matrix", "gamma")):
            mon.close("python", x, y, rtol=1e-8, scale=max(np.abs(x).max(), 1e-8),
                      key=f"python:{what}:{'red' if red else 'ir'}")
    # --- full matrix by rotating the rows of the sampled points
    full = np.zeros((nS, nT, N, nb, N, nb))
    cnt = np.zeros(N)
    perm = np.array([[find(w @ x) for x in qf] for w in W])
    gi = np.array(o.gamma)
    giso = np.array(o.gamma_isotope) if c["iso"] else None
    gv = np.array(o.group_velocities)
    if red:
        gi, gv = gi[:, :, b2g[gps]], gv[b2g[gps]]
        giso = None if giso is None else giso[:, b2g[gps]]
    mon.check("finite", np.isfinite(gi).all() and np.isfinite(raw).all(), "values", n=raw.size)
    diag = np.zeros((nS, nT, N, nb))
    vel = np.zeros((N, nb, 3))
    tot = gi.copy()
    if giso is not None:
        tot += giso[:, None]
    if c["mfp"] is not None:
        tot += np.linalg.norm(gv, axis=2) * 1e-10 / (4 * np.pi * c["mfp"] * 1e-6)
    for w in range(len(W)):
        for i in range(len(gps)):
            r = image[w, i]
            cnt[r] += 1
            full[:, :, r][:, :, :, perm[w]] += want[:, :, i]
            diag[:, :, r] += tot[:, :, i]
            vel[r] += gv[i] @ cart[w].T
    mon.check("expand", (cnt > 0).all(), "points without a representative")
    full /= cnt[:, None, None, None]
    diag /= cnt[:, None]
    vel /= cnt[:, None, None]
    # symmetric for smearing
    for j, s in enumerate(c["sigmas"]):
        if s is not None and c["r0"]:
            m = full[j].reshape(nT, N * nb, N * nb)
            sc = max(np.abs(m).max(), 1e-12)
            mon.close("symmetric", m.transpose(0, 2, 1), m, rtol=2e-5, scale=sc)
    # --- linewidths and the relaxation-time solution
    if c["seed"] % 2 == 0:
        from phono3py.conductivity.rta import ConductivityRTA

        rk = {k: v for k, v in kw.items() if k != "pinv_method"}
        rta = ConductivityRTA(p3.phph_interaction, **rk)
        for _ in rta:
            pass
        rta.set_kappa_at_sigmas()
        mon.close("gamma", gi, np.array(rta.gamma), rtol=1e-8,
                  scale=max(np.abs(gi).max(), 1e-12))
    else:
        rta = None
    # --- eigen-solution of the full matrix
    size = N * nb
    sol = {}
    live = f > c["cutf"]
    gamma_pt = (qf - np.rint(qf) == 0).all(1)
    for j in range(nS):
        for k in range(nT):
            if T[k] == 0:
                continue
            m = full[j, k].reshape(size, size).copy()
            m[np.arange(size), np.arange(size)] += diag[j, k].ravel()
            # averaging over degenerate modes acts on the diagonal part as well
            m = m.reshape(N, nb, N, nb)
            for q in range(N):
                m[q] = avg(m[q], f[q], 0)
            for q in range(N):
                m[:, :, q] = avg(m[:, :, q], f[q], 2)
            m = m.reshape(size, size)
            m = (m + m.T) / 2
            e, u = np.linalg.eigh(m)
            x = f * H / (2 * KB * T[k])
            with np.errstate(all="ignore"):
                b = np.where(live, f * H / (4 * KB * T[k] ** 2) / np.sinh(np.clip(x, 1e-9, 600)), 0)
            X = (vel * b[:, :, None])
            Xr = X.copy()
            Xr[gamma_pt, :3] = 0
            sol[j, k] = (e, u, X.reshape(size, 3), Xr.reshape(size, 3), m)

    def kappa(j, k, thr, method, size=False):
        e, u, X, Xr, _ = sol[j, k]
        a = np.abs(e) if method == 0 else e
        inv = np.where(a > thr, 1 / np.where(e == 0, 1, e), 0)
        if size:  # without cancellation of both signs
            inv = np.abs(inv)
        y = u @ (inv[:, None] * (u.T @ X))
        K = Xr.T @ y
        K = sum(r @ K @ r.T for r in cart) / len(cart)
        K = (K + K.T) * KB * T[k] ** 2 * U / prim.volume / N
        return np.array([K[0, 0], K[1, 1], K[2, 2], K[1, 2], K[0, 2], K[0, 1]])

    last = (nS - 1, max((k for k in range(nT) if T[k] > 0), default=-1))

    def vectors(mon, o, j, k, v, thr, cond):
        """Solution of the last temperature of the last sigma and mean free paths of all."""
        e, u, X = v[:3]
        a = np.abs(e) if c["method"] == 0 else e
        y = (u @ (np.where(a > thr, 1 / np.where(e == 0, 1, e), 0)[:, None] * (u.T @ X))).reshape(N, nb, 3) / 2
        rows = np.arange(N) if red else b2g[gps]
        y = y[rows]
        sy = np.abs(y).max()
        tol = 1e-8 * cond + 1e-5
        if (j, k) == last:
            mon.close("vectors", np.array(o.get_f_vectors()), y, rtol=tol, scale=sy,
                      key=f"vectors:f:{'red' if red else 'ir'}")
        cv = np.array(o.mode_heat_capacities)[k]
        ok = cv > 1.01e-10
        want = np.where(ok[:, :, None], 2 * T[k] * np.sqrt(KB / np.where(ok, cv, 1))[:, :, None] * y / (2 * np.pi), 0)
        got = -np.array(o.get_mean_free_path())[j, k]
        border = np.abs(cv / 1e-10 - 1) < 0.01
        d = np.where(border[:, :, None], 0, got - want)
        # the error of the solution is amplified by the division
        lim = 2 * T[k] * np.sqrt(KB / np.where(ok, cv, 1))[:, :, None] / (2 * np.pi) * sy * tol
        mon.check("vectors", (np.abs(d) <= lim).all(), f"{np.abs(d / lim).max()}", n=d.size,
                  key=f"vectors:mfp:{'red' if red else 'ir'}")

    small = {k for k, v in sol.items() if np.abs(v[0]).max() < 1e-12}
    for k in small:
        del sol[k]
    ndeg = max(len(d) for x in f for d in degs(x)) == 1
    # thresholds in a gap of the spectrum
    e0 = np.sort(np.abs(np.concatenate([v[0] for v in sol.values()]))) if sol else np.array([1.0])
    thr = 1e-8
    if c["big"] and sol:
        x = e0[e0 > 1e-6 * e0.max()]
        r = x[1:] / x[:-1]
        lo = len(x) // 4
        if len(x) > 8:
            i = lo + int(np.argmax(r[lo:-2])) if len(r) > lo + 3 else 0
            if r[i] > 1.05:
                thr = float(np.sqrt(x[i] * x[i + 1]))
                mon.events["cutoff-used"] += 1
    out = {}
    solvers = [0, 3, 4, 5]
    if c.get("variant") == "lapacke":
        import phono3py._phono3py as phono3c

        assert phono3c.include_lapacke()
        solvers = [1, 2, 6, 1, 2, 6, 0]
        mon.events["lapacke"] += 1
    for solver in (solvers[c["seed"] % len(solvers)],
                   7 if thr == 1e-8 and c["method"] == 0 else 5):
        o = lbte(pinv_cutoff=thr, pinv_solver=solver)
        o.set_kappa_at_sigmas()
        out[solver] = o
    o = list(out.values())[0]
    K, KR = np.array(o.kappa), np.array(o.kappa_RTA)
    mon.check("finite", np.isfinite(K).all(), str(K), key="finite-k")
    if (np.where(f0 > c["cutf"], gi, 1) > 1e-8)[:, [t > 0 for t in T]].all():
        mon.check("finite", np.isfinite(KR).all(), str(KR), key="finite-kRTA")
    mk = np.array(o.mode_kappa)
    mon.close("mode-sum", mk.sum(axis=(2, 3)) / N, K, rtol=1e-9, scale=np.abs(K).max() + 1e-12)
    for (j, k), v in sol.items():
        gap_ok = not ((e0 > thr / 1.02) & (e0 < thr * 1.02)).any() and not (
            (e0 > 1e-13) & (e0 < 1e-7)).any() if thr == 1e-8 else True
        w = np.sort(np.array(o.collision_eigenvalues)[j, k])
        sc = np.abs(v[0]).max() or 1.0
        # tetrahedra break the point group: rows are not invariant under the little group
        if c["sigmas"][j] is None and len(cart) > 2:
            continue
        if red and ndeg:
            mon.close("eigenvalues", w, np.sort(v[0]), rtol=1e-6, scale=sc)
        elif not red:
            # spectrum of the symmetry sector is part of the full one
            d = np.abs(w[:, None] - np.r_[v[0], 0.0][None]).min(1)
            mon.check("eigenvalues", (d < 2e-6 * sc).all(), f"max {d.max()} of {sc}", n=d.size)
        if not gap_ok:
            continue
        want = kappa(j, k, thr, c["method"])
        s = np.abs(want).max()
        # conditioning: small eigenvalues amplify rounding
        kept = np.abs(v[0])[np.abs(v[0]) > thr]
        cond = sc / kept.min() if kept.size else 1
        if cond > 1e5 or s < 1e-12:
            continue
        if not (red and not ndeg):
            vectors(mon, o, j, k, v, thr, cond)
        if red and not ndeg:
            pass  # columns are averaged at the sampled points only
        else:
            mon.close("kappa", K[j, k], want, rtol=1e-8 * cond + 1e-5, scale=s,
                      key=f"kappa:{'red' if red else 'ir'}",
                      detail=f"cutoff {thr} method {c['method']} cond {cond:.1e}")
        for sv, o2 in out.items():
            if sv == 7 and np.abs(w).min() < 1e-9 * sc:
                continue  # no cutoff in this solver
            mon.close("solver", np.array(o2.kappa)[j, k], K[j, k], rtol=1e-9 * cond + 1e-8, scale=s,
                      detail=f"solver {sv}", key=f"solver:{sv}")
        x = K[j, k]
        t3 = np.array([[x[0], x[5], x[4]], [x[5], x[1], x[3]], [x[4], x[3], x[2]]])
        if c["kstar"]:
            for r in cart:
                mon.close("invariant", r @ t3 @ r.T, t3, rtol=1e-7, scale=np.abs(t3).max(), n=1)
    # --- relaxation time values
    for (j, k), v in sol.items():
        if not red or not ndeg or (c["sigmas"][j] is None and len(cart) > 2):
            continue
        g = np.diagonal(v[4])
        if not (g[live.ravel()] > 1e-8).all():
            continue
        y = np.where(live.ravel()[:, None], v[2] / np.where(g == 0, 1, g)[:, None], 0)
        kr = v[3].T @ y
        kr = sum(r @ kr @ r.T for r in cart) / len(cart)
        kr = (kr + kr.T) * KB * T[k] ** 2 * U / prim.volume / N
        mon.close("kappa-diag", KR[j, k],
                  [kr[0, 0], kr[1, 1], kr[2, 2], kr[1, 2], kr[0, 2], kr[0, 1]], rtol=1e-5,
                  scale=max(np.abs(kr).max(), 1e-12))
    gs = np.where(f0 > c["cutf"], tot, 1)
    if rta is not None and not red and (gs > 1e-12).all():
        a = np.array(rta.kappa)
        for k in range(nT):
            if T[k] > 0:
                x = f * H / (KB * T[k])
                if (np.abs(x - 100) < 5).any() or gamma_pt.sum() != 1:
                    continue
                acoustic = f[gamma_pt][0, :3]
                if (acoustic > c["cutf"]).any():
                    continue  # the direct solution always leaves these out
                mon.close("kappa-RTA", KR[:, k], a[:, k], rtol=2e-6, scale=np.abs(a[:, k]).max() + 1e-12,
                          key=f"kappa-RTA:{'red' if red else 'ir'}")
    # --- eigenvalues of both signs
    if sol and c["seed"] % 3 == 1 and thr == 1e-8 and not (red and not ndeg):
        o6 = lbte(pinv_solver=[0, 3, 4, 5, 6][c["seed"] % 5] if c.get("variant") == "lapacke" else [0, 3, 4, 5][c["seed"] % 4],
                  solve_collective_phonon=False)
        g6 = np.array(o6.gamma)
        sh = np.zeros((nS, nT))
        for (j, k), v in sol.items():
            e = v[0]
            pos = e[e > 1e-6 * np.abs(e).max()]
            sh[j, k] = pos[len(pos) // 3] * 0.7 + pos[len(pos) // 3 + 1] * 0.3 if len(pos) > 4 else 0
        at = b2g[gps] if red else np.arange(len(gps))
        g6[:, :, at] -= sh[:, :, None, None]
        o6.gamma = g6
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            o6.set_kappa_at_sigmas()
        K6 = np.array(o6.kappa)
        for (j, k), v in list(sol.items()):
            if c["sigmas"][j] is None and len(cart) > 2 or not sh[j, k]:
                continue
            one = np.eye(size).reshape(N, nb, N, nb)  # averaged over degenerate modes too
            for q in range(N):
                one[q] = avg(one[q], f[q], 0)
            for q in range(N):
                one[:, :, q] = avg(one[:, :, q], f[q], 2)
            sol[j, k] = tuple(np.linalg.eigh(v[4] - sh[j, k] * one.reshape(size, size))) + v[2:]
            e = np.abs(sol[j, k][0])
            cond = e.max() / e[e > 1e-8].min()
            if cond < 1e5 and not ((e > 1e-13) & (e < 1e-7)).any():
                want = kappa(j, k, 1e-8, c["method"])
                mon.close("negative", K6[j, k], want, rtol=1e-7 * cond + 1e-5,
                          scale=np.abs(kappa(j, k, 1e-8, c["method"], True)).max() + 1e-9,
                          key=f"negative:{'red' if red else 'ir'}:{c['method']}", n=100)
            sol[j, k] = v
    # --- the other form
    if ndeg and sol and c["kstar"] and thr == 1e-8 and N * nb < 200:
        o3 = lbte(red=not red)
        o3.set_kappa_at_sigmas()
        for (j, k), v in sol.items():
            if c["sigmas"][j] is None and len(cart) > 2:
                continue
            kept = np.abs(v[0])[np.abs(v[0]) > thr]
            cond = np.abs(v[0]).max() / kept.min() if kept.size else 1
            if cond < 1e5 and not ((e0 > 1e-13) & (e0 < 1e-7)).any():
                mon.close("ir-vs-reducible", np.array(o3.kappa)[j, k], K[j, k],
                          rtol=1e-8 * cond + 1e-6, scale=np.abs(K[j, k]).max() + 1e-9)
    # --- collective phonons: the same total
    if not red and c["seed"] % 3 == 0 and sol:
        o4 = lbte(solve_collective_phonon=True)
        o4.set_kappa_at_sigmas()
        o5 = lbte()
        o5.set_kappa_at_sigmas()
        for (j, k), v in sol.items():
            kept = np.abs(v[0])[np.abs(v[0]) > 1e-8]
            cond = np.abs(v[0]).max() / kept.min() if kept.size else 1
            if cond < 1e5 and not ((e0 > 1e-13) & (e0 < 1e-7)).any():
                a, b = np.array(o4.kappa)[j, k], np.array(o5.kappa)[j, k]
                mon.close("collective", a, b, rtol=1e-7 * cond + 1e-6,
                          scale=np.abs(b).max() + 1e-6)
    mon.sig(c["name"], c["set"], tuple(np.array(p3.mesh_numbers).tolist()), str(c["sigmas"]),
            c["sc"], str(T), c["iso"], c["mfp"], red, c["kstar"], c["ms"], c["cutf"], thr)
