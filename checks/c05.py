"""C05: Brillouin-zone integration weights equal the exact linear-tetrahedron / Gaussian ones."""

import types

import numpy as np

from harness import gridgen as G, refs
from harness.core import Skip

PROP = "C05"
RULE = (
    "random grids (all lattice types, skewed generalized grids, both map layouts) carrying "
    "synthetic smooth / random / flat / negative band energies; weights of single bands "
    "(density and cumulative) and of triplets (2- and 3-component) are compared with an exact "
    "B-spline (linear interpolation) oracle built from an independent tetrahedron division; "
    "distinct by (lattice, D, Q, kind of energies, mode)"
)
REQUIRED = {"division": 60, "single-I": 3000, "single-J": 3000, "triplet-g0": 3000,
            "triplet-g1": 3000, "triplet-g2": 1000, "gauss": 3000, "zero-flag": 3000,
            "nonzero": 200, "py-path": 100, "cutoff": 50}


def cases(tier, rng):
    n = 130 if tier == "quick" else 2200
    out = []
    while len(out) < n:
        c = G.gen(rng, 60, grg_share=0.5)
        c.pop("shift", None)
        out.append({"g": c, "kind": str(rng.choice(["smooth", "random", "flat", "neg"])),
                    "mode": str(rng.choice(["single", "triplet", "sigma"], p=[0.35, 0.45, 0.2]))})
    return out


def energies(kind, g, nb, rng):
    """(N_gr, nb) energies: equal on equivalent BZ points by construction."""
    D = np.array(g.D_diag)
    N = int(np.prod(D))
    q = G.all_gr_addresses(D) @ (np.array(g.Q) / D).T
    if kind == "random":
        e = rng.uniform(0.5, 9, size=(N, nb))
    else:
        e = np.zeros((N, nb))
        for b in range(nb):
            k = rng.integers(-2, 3, size=(3, 3))
            a = rng.normal(size=3)
            e[:, b] = 3 + 2 * b + sum(a[i] * np.cos(2 * np.pi * q @ k[i] + i) for i in range(3))
        e = np.abs(e) + 0.01
        if kind == "flat":
            e[:, 0] = 2.5
        if kind == "neg":
            e[rng.integers(N, size=max(1, N // 4)), 0] *= -1
    return e


def run(case, mon):
    from phono3py.other.tetrahedron_method import (
        get_integration_weights, get_tetrahedra_relative_grid_address)
    from phono3py.phonon3.triplets import get_triplets_at_q, get_triplets_integration_weights

    c = case["g"]
    g, lat, ds = G.make(c)
    if isinstance(g, RuntimeError):
        raise Skip("refused")
    rng = np.random.default_rng(case["seed"])
    D = np.array(g.D_diag)
    N = int(np.prod(D))
    A = np.array(g.addresses)
    P = np.array(g.P)
    gr_of = G.gr_index(A, D)
    # --- division of the microzone cell
    rel = np.array(get_tetrahedra_relative_grid_address(g.microzone_lattice))
    got = [frozenset(tuple(int(x) for x in v) for v in t if np.any(v)) for t in rel]
    mon.check("central-first", not rel[:, 0].any() or all((~t.any(axis=1)).sum() == 1 for t in rel))
    okdiv = [s for s in refs.main_diagonals(np.array(g.microzone_lattice))
             if set(got) == refs.tetrahedra(g.microzone_lattice, s)]
    mon.check("division", len(set(got)) == 24 and okdiv,
              f"24 tetrahedra are not the division along a shortest diagonal: {got[:3]}")
    if not okdiv:
        return
    tets = [np.array([(0, 0, 0)] + sorted(t)) for t in refs.tetrahedra(g.microzone_lattice, okdiv[0])]
    tets = np.array(tets) @ P.T  # (24, 4, 3), central first

    def vertices(adrs, sign):
        return G.gr_index(adrs[None, None, :] + sign * tets, D)

    mon.sig(c.get("name", "lat"), D.tolist(), np.array(g.Q).tolist(), case["kind"], case["mode"])
    nb = 2 if N > 30 else 3
    e = energies(case["kind"], g, nb, rng)
    ebz = np.array(e[gr_of], dtype="double", order="C")

    def cmp(clause, got, f, x, function="I", scale=1.0):
        v, lo, hi = refs.tetra_weight(x, f, function)
        spread = max(np.ptp(f), 1e-3)
        tol = 1e-7 * max(1.0 / spread, np.abs(hi).max() if np.size(hi) else 0) + 1e-9
        bad = (got < lo - tol) | (got > hi + tol) | ~np.isfinite(got)
        mon.check(clause, not bad.any(),
                  lambda: f"omega {x}: got {np.asarray(got)[bad][:3]} want {np.asarray(v)[bad][:3]}",
                  n=np.size(got))
        return v

    lo, hi = e.min(), e.max()
    if case["mode"] == "single":
        xs = np.sort(rng.uniform(lo - 0.5, hi + 0.5, size=8))
        gps = np.array(sorted({int(x) for x in rng.integers(len(A) if c["dense"] else N, size=min(N, 10))}), dtype="int64")
        for fn in ("I", "J"):
            iw = get_integration_weights(xs, ebz, g, grid_points=gps, function=fn)
            mon.check("shape", iw.shape == (len(gps), len(xs), nb))
            for i, gp in enumerate(gps):
                f = np.moveaxis(e[vertices(A[gp], 1)], -1, 0)  # (nb, 24, 4)
                for j, x in enumerate(xs):
                    v = cmp(f"single-{fn}", iw[i, j], f, x, fn)
                    mon.events["nonzero"] += int((np.abs(v) > 1e-6).sum())
        # map to a reduced list of energies
        m = np.array(gr_of, dtype="int64")
        iw2 = get_integration_weights(xs, np.array(e, order="C"), g, grid_points=gps, bzgp2irgp_map=m)
        mon.equal("reduced-map", iw2, get_integration_weights(xs, ebz, g, grid_points=gps))
        # all grid points by default, cumulative -> 1, monotonic
        iwj = get_integration_weights(np.array([lo - 1, hi + 1.0]), ebz, g, function="J")
        mon.check("shape", iwj.shape == (N, 2, nb))
        mon.close("cumulative-ends", iwj[:, 1], np.ones((N, nb)), atol=1e-9)
        mon.close("cumulative-ends", iwj[:, 0], np.zeros((N, nb)), atol=1e-12)
        return
    # triplets with synthetic energies through the public entry point
    gp = int(rng.integers(len(A) if c["dense"] else N))
    t = np.array(get_triplets_at_q(gp, g)[0])
    if len(t) > 14:
        t = np.array(t[np.sort(rng.choice(len(t), 14, replace=False))], dtype="int64", order="C")
    stub = types.SimpleNamespace(
        bz_grid=g, get_triplets_at_q=lambda: (t, None, None, None),
        get_phonons=lambda: (ebz, None, None), run_phonon_solver=lambda *a, **k: None)
    xs = np.sort(np.concatenate([rng.uniform(0, 2 * hi + 0.5, size=4), rng.uniform(0, hi - lo + 0.1, size=2)]))
    col = bool(rng.integers(2))
    if case["mode"] == "sigma":
        s = float(rng.uniform(0.05, 0.6))
        cut = None if rng.integers(2) else float(rng.uniform(1.5, 4))
        w, z = get_triplets_integration_weights(stub, xs, s, sigma_cutoff=cut, is_collision_matrix=col)
        for i, tp in enumerate(t):
            f1, f2 = ebz[tp[1]][None, :, None], ebz[tp[2]][None, None, :]
            x = xs[:, None, None]
            d = [x - f1 - f2, x + f1 - f2, x - f1 + f2]
            G3 = [refs.gauss(y, s) for y in d]
            ref = [G3[0], G3[1] - G3[2], G3[0] + G3[1] + G3[2]][: 3 if col else 2]
            sup = np.min([np.abs(y) for y in d], axis=0)
            keep = np.ones_like(sup, bool) if cut is None else sup <= cut * s
            edge = np.zeros_like(keep) if cut is None else np.abs(sup - cut * s) < 1e-9
            wide = np.zeros_like(keep) if cut is None else (sup > cut * s)
            for k, r in enumerate(ref):
                got = w[k, i]
                # beyond the cutoff both the dropped and the (absolute) kept value are accepted
                bad = ~np.isfinite(got)
                bad |= keep & ~edge & (np.abs(got - r) > 1e-9 / s)
                bad |= wide & ~edge & (np.abs(got) > 1e-12) & (np.abs(got - r) > 1e-9 / s)
                mon.check("gauss", not bad.any(), lambda: f"sigma {s} cut {cut} comp {k}: "
                          f"{got[bad][:3]} vs {r[bad][:3]}", n=got.size)
                mon.check("zero-flag", not (np.abs(got[z[i] > 0]) > 0).any(),
                          "a weight flagged zero is not zero", n=got.size)
            if cut is not None:
                mon.check("cutoff", not (z[i][keep & ~edge] > 0).any(), "inside the cutoff but flagged zero",
                          n=int(keep.sum()))
            else:
                mon.check("cutoff", not z[i].any(), "flagged zero without cutoff")
        w2, _ = get_triplets_integration_weights(stub, xs, s, is_collision_matrix=col, lang="Py")
        if cut is None:
            mon.close("py-path", w, w2, rtol=1e-9)
        return
    w, z = get_triplets_integration_weights(stub, xs, None, is_collision_matrix=col)
    ec = np.maximum(e, 0)
    anyref = np.zeros(z.shape, bool)
    for i, tp in enumerate(t):
        v1 = ec[vertices(A[tp[1]], 1)]  # (24, 4, nb)
        v2 = ec[vertices(A[tp[2]], -1)]
        for a in range(nb):
            f1, f2 = v1[None, :, :, a], np.moveaxis(v2, -1, 0)
            for j, x in enumerate(xs):
                r = [refs.tetra_weight(x, y) for y in (f1 + f2, -f1 + f2, f1 - f2)]
                tol = 1e-6 * max(1.0, max(np.abs(y[2]).max() for y in r))
                comps = [(r[0][1], r[0][2]), (r[1][1] - r[2][2], r[1][2] - r[2][1])]
                if col:
                    comps.append((sum(y[1] for y in r), sum(y[2] for y in r)))
                for k, (l, h) in enumerate(comps):
                    got = w[k, i, j, a]
                    bad = (got < l - tol) | (got > h + tol) | ~np.isfinite(got)
                    mon.check(f"triplet-g{k}", not bad.any(), lambda: f"{case['kind']} omega {x} "
                              f"triplet {tp} band {a}: got {got} want [{l}, {h}]", n=nb)
                mon.events["nonzero"] += int((np.abs(comps[0][1]) > 1e-6).sum())
    mon.check("zero-flag", not (np.abs(w[:, z > 0]) > 0).any(), "a weight flagged zero is not zero", n=z.size)
    if case["kind"] in ("smooth", "random") and len(t) * nb * nb < 200:
        w2, _ = get_triplets_integration_weights(stub, xs, None, is_collision_matrix=col, lang="Py")
        mon.close("py-path", w, w2, rtol=1e-6, atol=1e-9)
