"""C11: RTA conductivity is the mode sum of C v v tau."""

import numpy as np

from harness import gridgen as G
from harness import ph
from harness.core import Skip

PROP = "C11"
RULE = (
    "random crystal, mesh, temperatures (0 to 5000 K), tetrahedron/smearings, isotope, boundary "
    "mean free path, frequency cutoff, star sum on/off, mesh symmetry on/off, full-pp and "
    "constant/averaged interaction; heat capacities, star sums of velocity products, lifetimes, "
    "mode conductivities, number of sampled points and the final tensor are recomputed from the "
    "reported frequencies, velocities and rates and from the space group of the crystal; "
    "distinct by (crystal, mesh, options)"
)
REQUIRED = {"cv": 4000, "star": 4000, "mode": 4000, "kappa": 300, "psd": 100, "invariant": 100,
            "weights": 200, "ignored": 100, "rates": 3000, "ave-pp": 20, "iso-part": 500,
            "boundary-part": 500, "const": 10}
KB = 8.617333262e-5  # eV/K
H = 4.135667696e-3  # eV/THz
# (THz A)^2 / A^3 * eV / THz / (2 pi)  in W/m/K
U = 1e24 * 1e-20 / 1e-30 * 1.602176634e-19 / 1e12 / (2 * np.pi)


def cases(tier, rng):
    n = 150 if tier == "quick" else 1500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 6, max_atoms=4 if i % 10 else 6,
                   min_mesh=1 + (i % 4 > 0))
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 1e-2, 1.5]))
        c["ms"] = bool(rng.random() < 0.85)
        c["kstar"] = bool(rng.random() < 0.8)
        k = int(rng.integers(5))
        s = [None, float(rng.uniform(0.05, 0.4)), float(rng.uniform(0.4, 2))]
        c["sigmas"] = [s[:1], s[1:2], s[1:], s, s[::-1]][k]
        c["sc"] = [None, 4.0][int(rng.integers(2))]
        c["T"] = [float(x) for x in rng.choice([0, 0.5, 3, 20, 100, 300, 900, 5000],
                                               size=int(rng.integers(1, 5)), replace=False)]
        c["iso"] = int(rng.integers(3))  # 0 none, 1 natural, 2 given variances
        c["mfp"] = [None, None, 0.01, 1.0, 5e3][int(rng.integers(5))]
        c["mode"] = ["low", "low", "full", "N_U", "const", "ave", "gvq"][int(rng.integers(7))]
        out.append(c)
    return out


def heat(f, T, cut):
    """Mode heat capacities in eV/K."""
    f = np.asarray(f)[None, :, :] * H
    T = np.asarray(T, float)[:, None, None]
    with np.errstate(all="ignore"):
        x = np.where(T > 0, f / (KB * np.where(T > 0, T, 1)), np.inf)
        cv = np.where(x < 300, KB * x**2 / (4 * np.sinh(np.clip(x, 1e-12, 300) / 2) ** 2), 0)
    return np.where(f > cut * H, cv, 0.0)


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    prim = p3.primitive
    nb = 3 * len(prim)
    p3.sigmas = c["sigmas"]
    p3.sigma_cutoff = c["sc"]
    kw = {}
    mv = None
    if c["iso"]:
        kw["is_isotope"] = True
    if c["iso"] == 2:
        kinds = sorted(set(prim.symbols))
        v = rng.uniform(0, 5e-3, size=len(kinds))
        kw["mass_variances"] = mv = np.array([v[kinds.index(s)] for s in prim.symbols])
    mode = c["mode"]
    const = float(10 ** rng.uniform(-13, -9))
    p3.init_phph_interaction(**({"constant_averaged_interaction": const} if mode == "const" else {}))
    kw["is_full_pp"] = mode == "full"
    kw["is_N_U"] = mode == "N_U"
    kw["gv_delta_q"] = 1e-4 if mode == "gvq" else None
    args = dict(temperatures=c["T"], boundary_mfp=c["mfp"], is_kappa_star=c["kstar"], **kw)
    err = np.geterr()
    p3.run_thermal_conductivity(**args)
    mon.check("np-state", np.geterr() == err, f"numpy error state changed to {np.geterr()}")
    t = p3.thermal_conductivity
    grid = p3.grid
    N = ph.ngrid(p3)
    T = np.array(c["T"], float)
    gps = np.array(t.grid_points)
    f = np.array(t.frequencies)
    mon.equal("temperatures", np.array(t.temperatures), T)
    mon.equal("rates", f, np.array(p3.get_phonon_data()[0])[gps], key="freq")
    q = np.array(grid.addresses)[gps] @ np.array(grid.QDinv).T
    d = np.array(t.qpoints) - q
    mon.close("qpoints", d - np.rint(d), 0 * d, atol=1e-10)
    g_first = np.array(t.gamma)
    # --- sampled points: one per star, all mesh points represented
    W = G.point_group(G.dataset(prim)) if c["kstar"] else [np.eye(3, dtype=int)]
    rec = np.linalg.inv(prim.cell)  # columns b
    cart = [rec @ w @ np.linalg.inv(rec) for w in W]
    nstar = []
    for x in q:
        y = np.array([w @ x for w in W])
        r = np.rint((y[:, None] - y[None]))
        same = np.abs(y[:, None] - y[None] - r).max(-1) < 1e-5
        nstar.append(len(np.unique(same.argmax(1))))
    nstar = np.array(nstar)
    mon.equal("weights", np.array(t.grid_weights), nstar)
    mon.check("weights", nstar.sum() == N, f"{nstar.sum()} points of {N}")
    mon.check("weights", t.get_number_of_sampling_grid_points() == N,
              f"{t.get_number_of_sampling_grid_points()} sampled of {N}", key="num-sampling")
    if c["kstar"] and not c["seed"] % 2:
        # chosen points, not only representatives, weigh what their stars weigh
        lab = np.array([min(map(tuple, np.rint(np.mod(np.array([w @ v for w in W]) + 1e-7, 1)
                                               * 1e6).astype(int) % 10**6)) for v in
                        np.array(grid.addresses) @ np.array(grid.QDinv).T])
        some = np.unique(rng.integers(len(lab), size=4))
        p3.run_thermal_conductivity(**dict(args, grid_points=[int(x) for x in some]))
        t2 = p3.thermal_conductivity
        grg = lab[np.array(grid.grg2bzg)]
        want = [(grg == lab[i]).all(1).sum() for i in some]
        mon.equal("weights", np.array(t2.grid_weights), np.array(want), key="chosen")
        mon.equal("weights", np.array(t2.grid_points), some, key="chosen-points")
        for i, gp in enumerate(some):
            j = list(gps).index(gp) if gp in gps else None
            if j is not None:
                mon.close("rates", np.array(t2.gamma)[:, :, i], g_first[:, :, j], rtol=1e-8,
                          scale=max(np.abs(g_first).max(), 1e-12), key="chosen-rates")
    # --- heat capacities and star sums
    cv = heat(f, T, c["cutf"])
    near = np.abs(f * H / np.maximum(T[:, None, None] * KB, 1e-12) / 100 - 1) < 0.01
    got = np.array(t.mode_heat_capacities)
    mon.close("cv", np.where(near, 0, got), np.where(near, 0, cv), rtol=1e-6, scale=KB)
    gv = np.array(t.group_velocities)
    vv = sum(np.einsum("gbi,gbj->gbij", gv @ r.T, gv @ r.T) for r in cart) / len(W)
    vv = vv * nstar[:, None, None, None]
    six = np.stack([vv[..., i, j] for i, j in ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))], -1)
    mon.close("star", np.array(t.gv_by_gv), six, rtol=1e-8, scale=max(np.abs(six).max(), 1e-12))
    # --- lifetimes
    g = np.array(t.gamma)
    for j, sg in enumerate(c["sigmas"]):
        # tetrahedron weights of neighbours may give (n1 - n2) the other sign
        if sg is not None:
            x = np.where(f >= c["cutf"], g[j], 0)
            mon.check("nonneg", (x >= -1e-10 * max(np.abs(x).max(), 1e-300)).all(),
                      f"min {x.min()} of {np.abs(x).max()}", n=x.size)
    tot = g.copy()
    if c["iso"]:
        gi = np.array(t.gamma_isotope)
        mon.check("iso-part", gi.shape == (len(c["sigmas"]), len(gps), nb) and (gi >= 0).all(),
                  "isotope rates", n=gi.size)
        tot = tot + gi[:, None]
    if c["mfp"] is not None:
        b = np.linalg.norm(gv, axis=2) * 1e-10 * 1e12 / (4 * np.pi * c["mfp"] * 1e-6) * 1e-12
        mon.events["boundary-part"] += b.size
        tot = tot + b[None, None]
    mk = np.array(t.mode_kappa)
    live = f >= c["cutf"]
    w = live[None, None] & (tot != 0)
    with np.errstate(all="ignore"):
        want = six[None, None] * got[None, ..., None] / (2 * np.where(w, tot, 1))[..., None]
        # rates at the level of rounding noise are treated as vanishing ones
        want = np.where(w[..., None], want, 0) * U / prim.volume
    tiny = (tot != 0) & (np.abs(tot) < 1e-150)
    want[tiny] = 0
    mk2 = np.where(tiny[..., None], 0, mk)
    sc = np.abs(want).max()
    ok = mon.close("mode", mk2, want, rtol=1e-6, scale=sc or 1e-300,
                   detail=f"{mode} iso {c['iso']} mfp {c['mfp']}")
    # per mode, so that modes of small weight are judged as well
    rel = np.abs(mk2 - want) > 1e-6 * np.abs(want).max(-1, keepdims=True) + 1e-290
    mon.check("mode", not rel.any() or not ok, lambda: f"{rel.sum()} mode values off, first "
              f"{np.argwhere(rel)[0]}", n=rel.size, key="mode-rel")
    k = np.array(t.kappa)
    tens = mk.sum(axis=(2, 3)) / N
    mon.close("kappa", k, tens, rtol=1e-9, scale=np.abs(tens).max() or 1e-300)
    ign = np.array(t.number_of_ignored_phonon_modes)
    mon.equal("ignored", ign, np.full(ign.shape, (f < c["cutf"]).sum()))
    # --- tensor properties
    xx, yy, zz, yz, xz, xy = np.moveaxis(k, -1, 0)
    K = np.stack([np.stack([xx, xy, xz], -1), np.stack([xy, yy, yz], -1),
                  np.stack([xz, yz, zz], -1)], -2)
    for a in K.reshape(-1, 3, 3):
        s = np.abs(a).max()
        if (np.where(live, tot, 0) >= 0).all():
            mon.check("psd", np.linalg.eigvalsh(a).min() >= -1e-8 * s, f"{a}")
        if c["kstar"]:
            for r in cart:
                mon.close("invariant", r @ a @ r.T, a, rtol=1e-7, scale=s or 1e-300, n=1)
    # --- rates as the self-energy route gives them
    if mode in ("low", "full", "N_U") and c["sc"] is None and c["seed"] % 3 == 0:
        sub = [int(x) for x in rng.permutation(gps)[:2]]
        r = p3.run_imag_self_energy(sub, c["T"], frequency_points_at_bands=True)[1]
        idx = [list(gps).index(x) for x in sub]
        mon.close("rates", g[:, :, idx], r, rtol=1e-8, scale=max(np.abs(g).max(), 1e-12))
    if mode == "full":
        av = np.array(t.averaged_pp_interaction)
        pp = p3.phph_interaction
        for i in rng.permutation(len(gps))[:3]:
            pp.set_grid_point(int(gps[i]))
            pp.run(g_zero=None)
            v = np.array(pp.interaction_strength)
            wt = np.array(pp.get_triplets_at_q()[1])
            mon.close("ave-pp", av[i], (v.sum(axis=(2, 3)) * wt[:, None]).sum(0) / nb**2,
                      rtol=1e-9, scale=max(av[i].max(), 1e-300))
    if mode == "const":
        # rates scale with the constant
        p3.init_phph_interaction(constant_averaged_interaction=3 * const)
        p3.run_thermal_conductivity(**args)
        mon.close("const", np.array(p3.thermal_conductivity.gamma), 3 * g, rtol=1e-9,
                  scale=max(np.abs(g).max() * 3, 1e-300))
        mon.close("const", np.array(t.averaged_pp_interaction), np.full((len(gps), nb), const),
                  rtol=1e-9)
    if mode == "ave":
        from phono3py.conductivity.rta import ConductivityRTA

        p3.init_phph_interaction()
        p3.run_thermal_conductivity(**dict(args, is_full_pp=True))
        av = np.array(p3.thermal_conductivity.averaged_pp_interaction)
        br = ConductivityRTA(p3.phph_interaction, temperatures=c["T"], sigmas=c["sigmas"],
                             sigma_cutoff=c["sc"], use_ave_pp=True,
                             boundary_mfp=c["mfp"], is_kappa_star=c["kstar"])
        br.set_averaged_pp_interaction(av)
        for _ in br:
            pass
        br.set_kappa_at_sigmas()
        # the same rates with a constant interaction of that size
        b = int(rng.integers(nb))
        i = int(rng.integers(len(gps)))
        if av[i, b] > 1e-30:
            p3.init_phph_interaction(constant_averaged_interaction=float(av[i, b]))
            p3.run_thermal_conductivity(**dict(args, grid_points=[int(gps[i])]))
            g2 = np.array(p3.thermal_conductivity.gamma)[:, :, 0, b]
            deg = np.abs(f[i] - f[i, b]) < 2e-4
            if deg.sum() == 1:
                mon.close("ave-pp", np.array(br.gamma)[:, :, i, b], g2, rtol=1e-8,
                          scale=max(np.abs(g2).max(), 1e-300), key="use-ave-pp")
    ph.older_names(mon, t)
    mon.sig(c["name"], c["set"], tuple(np.array(p3.mesh_numbers).tolist()), str(c["sigmas"]),
            c["sc"], str(c["T"]), c["iso"], c["mfp"], mode, c["ms"], c["kstar"], c["cutf"])
