"""C02: irreducible q-points are exactly the point-group orbits, with exact weights."""

import numpy as np

from harness import gridgen as G
from harness.core import Skip

PROP = "C02"
RULE = (
    "same grid generator as C01; orbits are recomputed in fractional coordinates from the "
    "space-group rotations (plus time reversal) without using the library's grid rotations; "
    "distinct by (lattice, D, Q, shift, time reversal, number of orbits)"
)
REQUIRED = {"orbits": 1000, "weights": 60, "rotate": 1000, "rotate-surface": 1000,
            "group": 60, "group-broken": 1}
ASSUMPTIONS = ["space-group rotations come from spglib (trusted)"]


def cases(tier, rng):
    n = 1600 if tier == "quick" else 12000
    mx = 350 if tier == "quick" else 1500
    return [{"g": G.gen(rng, mx)} for _ in range(n)]


def run(case, mon):
    import phono3py.phonon.grid as grid_module
    from phono3py.phonon.grid import get_grid_points_by_rotations, get_ir_grid_points

    c = case["g"]
    g, lat, ds = G.make(c)
    ops = G.point_group(ds, c["tr"])
    if isinstance(g, RuntimeError):
        mon.check("group-broken", "Grid symmetry is broken" in str(g) or "SNF" in str(g), str(g))
        raise Skip("refused")
    D, Q = np.array(g.D_diag), np.array(g.Q)
    N = int(np.prod(D))
    Dq = np.diag(D) @ np.rint(np.linalg.inv(Q)).astype(int)
    QD = Q / D[None, :].astype(float)
    # the advertised operations are the point group
    got = {np.array(r, dtype=int).tobytes() for r in g.reciprocal_operations}
    mon.check("group", got == {w.tobytes() for w in ops} and len(g.reciprocal_operations) == len(ops),
              f"{len(g.reciprocal_operations)} operations, expected {len(ops)}", n=len(ops))
    B = np.linalg.inv(lat)
    for w, r, rc in zip(g.reciprocal_operations, g.rotations, g.rotations_cartesian):
        rr = Dq @ w @ QD
        mon.close("grid-rotation", r, rr, atol=1e-7)
        mon.close("cart-rotation", rc @ rc.T, np.eye(3), atol=2e-4)
        mon.close("cart-rotation", rc @ B, B @ w, rtol=1e-9)
    # orbits over GR points, computed from q -> W q
    a = G.all_gr_addresses(D)
    PS = np.array(g.PS)
    image = np.zeros((len(ops), N), dtype=int)
    for k, w in enumerate(ops):
        rw = np.rint(Dq @ w @ QD).astype(int)
        d2 = (2 * a + PS) @ rw.T - PS
        if (d2 % 2).any():
            mon.violation("shift-symmetry", f"shift {PS} not preserved by {w.tolist()}")
            return
        image[k] = G.gr_index(d2 // 2, D)
    rep = image.min(axis=0)  # orbit is {image[:, i]} because ops is a group
    ir, wt, mp = get_ir_grid_points(g)
    mon.equal("orbits", np.unique(np.stack([rep, mp]), axis=1)[0],
              np.unique(np.stack([rep, mp]), axis=1)[0])
    # same partition (whatever the representative), representative inside its orbit
    pairs = {(int(x), int(y)) for x, y in zip(rep, mp)}
    mon.check("orbits", len(pairs) == len(set(rep)) == len(set(mp)),
              f"{len(set(mp))} library classes, {len(set(rep))} orbits, {len(pairs)} overlaps", n=N)
    mon.check("orbits", all(rep[m] == r for r, m in pairs), "representative outside its orbit")
    mon.equal("ir-list", np.sort(ir), np.unique(mp))
    cnt = np.bincount(mp, minlength=N)
    mon.equal("weights", wt, cnt[ir], "weights")
    mon.check("weights", int(np.sum(wt)) == N, f"sum of weights {np.sum(wt)} != {N}")
    mon.check("weights", all(len(ops) % w == 0 for w in wt), f"orbit sizes {wt} vs {len(ops)}")
    if N > 1:
        mon.sig(c.get("name", "lat"), D.tolist(), Q.tolist(), c.get("shift"), c["tr"], len(ir))
    # rotated grid points
    if c.get("shift"):
        return  # the rotation helpers do not take shifts
    A = np.array(g.addresses)
    qf = A @ QD.T
    rng = np.random.default_rng(case["seed"])
    amap = {tuple(x): i for i, x in enumerate(A.tolist())}
    gps = np.unique(rng.integers(0, len(A), size=14))
    if len(A) > N and c["dense"]:
        sizes = np.diff(g.gp_map)
        big = np.where(sizes == sizes.max())[0]
        gps = np.unique(np.r_[gps, np.arange(g.gp_map[big[0]], g.gp_map[big[0] + 1])])
    py = getattr(grid_module, "_get_grid_points_by_bz_rotations_py", None)
    for gp in gps:
        lost = False
        r1 = np.array(get_grid_points_by_rotations(gp, g))
        r2 = np.array(get_grid_points_by_rotations(gp, g, with_surface=True))
        for k, w in enumerate(g.reciprocal_operations):
            dq = qf[r1[k]] - w @ qf[gp]
            mon.check("rotate", np.abs(dq - np.rint(dq)).max() < 1e-8
                      and r1[k] == g.grg2bzg[g.bzg2grg[r1[k]]],
                      lambda: f"gp {gp} op {w.tolist()} -> {r1[k]} dq {dq}")
            want = tuple(np.rint(Dq @ (w @ qf[gp])).astype(int))
            if want in amap:
                mon.check("rotate-surface", r2[k] == amap[want],
                          lambda: f"gp {gp} op {w.tolist()} -> {r2[k]}, exact image {amap[want]}")
            else:
                lost = True
                # only a near-degenerate BZ face may lose the exact image
                d2 = ((qf[gp] @ np.linalg.inv(lat).T) ** 2).sum()
                alt = ((qf[amap_gr(g, r2[k])] @ np.linalg.inv(lat).T) ** 2).sum(axis=1)
                mon.check("surface-closed", np.abs(alt - d2).max() > 1e-6 * d2,
                          f"gp {gp}: exact image {want} of a BZ point is not a BZ point")
        # the Python routine of the rotations on the surface, where it exists
        if py is not None and not lost:
            mon.equal("rotate-python", py(gp, g, np.array(g.rotations)), r2)
    # user-given operations subset
    sub = g.rotations[:: max(1, len(g.rotations) // 3)]
    mon.equal("rotate-subset", get_grid_points_by_rotations(gps[-1], g, reciprocal_rotations=sub),
              np.array(get_grid_points_by_rotations(gps[-1], g))[:: max(1, len(g.rotations) // 3)])


def amap_gr(g, gp):
    return np.where(np.array(g.bzg2grg) == g.bzg2grg[gp])[0]
