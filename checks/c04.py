"""C04: triplets at a q-point: momentum conservation, complete and correctly weighted."""

import itertools

import numpy as np

from harness import gridgen as G
from harness.core import Skip

PROP = "C04"
RULE = (
    "grids as in C01 (no shift); for several grid points per grid, with and without time "
    "reversal, leg exchange and restricted operation sets, the triplet list is compared with "
    "orbits recomputed from q-vectors; distinct by (lattice, D, Q, stabiliser size, options, "
    "number of triplets)"
)
REQUIRED = {"momentum": 2000, "normal-preferred": 500, "class-size": 500, "weights-sum": 100,
            "nosym": 50, "umklapp": 50}


def cases(tier, rng):
    n = 1000 if tier == "quick" else 7000
    mx = 130 if tier == "quick" else 400
    out = []
    for _ in range(n):
        c = G.gen(rng, mx)
        c.pop("shift", None)
        out.append({"g": c, "opts": [bool(rng.integers(2)), bool(rng.integers(2)),
                                     int(rng.integers(3))]})
    return out


def run(case, mon):
    from phono3py.phonon.grid import get_ir_grid_points
    from phono3py.phonon3.triplets import (
        get_all_triplets, get_nosym_triplets_at_q, get_triplets_at_q)

    c = case["g"]
    g, lat, ds = G.make(c)
    if isinstance(g, RuntimeError):
        raise Skip("refused")
    D, Q = np.array(g.D_diag), np.array(g.Q)
    N = int(np.prod(D))
    A = np.array(g.addresses)
    Dq = np.diag(D) @ np.rint(np.linalg.inv(Q)).astype(int)
    QD = Q / D[None, :].astype(float)
    gr_of = G.gr_index(A, D)
    images = [[] for _ in range(N)]
    for i, x in enumerate(gr_of):
        images[x].append(i)
    gra = G.all_gr_addresses(D)
    rng = np.random.default_rng(case["seed"])
    ir = np.array(g.grg2bzg)[get_ir_grid_points(g)[0]]
    gps = set(int(x) for x in rng.choice(ir, size=min(3, len(ir)), replace=False))
    if c["dense"]:
        gps |= {int(x) for x in rng.integers(0, len(A), size=2)}
    else:
        gps |= {int(x) for x in rng.integers(0, N, size=2)}
    tr, swap, sub = case["opts"]
    ops_all = [np.array(w, dtype=int) for w in g.reciprocal_operations]
    rots_all = np.array(g.rotations)
    for gp in sorted(gps):
        if sub == 0 or len(rots_all) == 1:
            kw, ops = {}, ops_all
        elif sub == 1:  # identity only
            k = [i for i, w in enumerate(ops_all) if (w == np.eye(3)).all()]
            kw, ops = {"reciprocal_rotations": rots_all[k]}, [ops_all[k[0]]]
        else:  # cyclic subgroup of a random operation
            w = ops_all[int(rng.integers(len(ops_all)))]
            grp, x = [], np.eye(3, dtype=int)
            while True:
                grp.append(x)
                x = x @ w
                if (x == np.eye(3)).all():
                    break
            idx = [next(i for i, o in enumerate(ops_all) if (o == y).all()) for y in grp]
            kw, ops = {"reciprocal_rotations": rots_all[idx]}, grp
        if tr:
            ops = list({o.tobytes(): o for o in itertools.chain(ops, [-o for o in ops])}.values())
        t, w, mt, mq = get_triplets_at_q(gp, g, is_time_reversal=tr, swappable=swap, **kw)
        t = np.array(t)
        # --- momentum
        s = A[t].sum(axis=1)
        sq = s @ QD.T
        mon.close("momentum", sq, np.rint(sq), atol=1e-8, scale=0, n=len(t))
        mon.check("first-leg", (gr_of[t[:, 0]] == gr_of[gp]).all(), f"gp {gp}: {t[:5]}", n=len(t))
        for x, ss in zip(t, s):
            if ss.any():
                mon.events["umklapp"] += 1
                combos = itertools.product(*(images[gr_of[y]] for y in x))
                ok = all((A[list(cm)].sum(axis=0)).any() for cm in combos)
                mon.check("normal-preferred", ok,
                          lambda: f"gp {gp}: triplet {x} has sum {ss} although a zero-sum image exists")
            else:
                mon.events["normal-preferred"] += 1
        # --- classes: orbits of q1 under the stabiliser of q0, and exchange q1 <-> q2
        q0 = A[gp] @ QD.T
        stab = []
        for o in ops:
            d = o @ q0 - q0
            if np.abs(d - np.rint(d)).max() < 1e-7:
                stab.append(np.rint(Dq @ o @ QD).astype(int))
        img = np.array([G.gr_index(gra @ r.T, D) for r in stab])
        rep_q = img.min(axis=0)
        other = G.gr_index(-A[gp] - gra, D)
        rep = np.minimum(rep_q, rep_q[other]) if swap else rep_q
        for name, ref, got in (("map-q", rep_q, mq), ("map-triplets", rep, mt)):
            pairs = {(int(a), int(b)) for a, b in zip(ref, got)}
            mon.check(name, len(pairs) == len(set(ref)) == len(set(np.array(got).tolist())),
                      f"gp {gp} {case['opts']}: {len(set(np.array(got).tolist()))} classes, "
                      f"{len(set(ref))} orbits, {len(pairs)} overlaps", n=N)
            mon.check(name, all(ref[b] == a for a, b in pairs), f"{name} representative")
        # --- weights: exactly one triplet per class, weight = class size
        cnt = np.bincount(rep, minlength=N)
        cls = rep[gr_of[t[:, 1]]]
        mon.check("one-per-class", len(set(cls.tolist())) == len(cls) == len(set(rep.tolist())),
                  f"gp {gp}: {len(cls)} triplets for {len(set(rep.tolist()))} classes", n=len(cls))
        mon.equal("class-size", w, cnt[cls], f"gp {gp}")
        mon.check("weights-sum", int(np.sum(w)) == N, f"{np.sum(w)} != {N}")
        mon.sig(c.get("name", "lat"), D.tolist(), Q.tolist(), len(stab), case["opts"], len(t))
    # --- without symmetry: every q1 exactly once
    for f, nm in ((get_nosym_triplets_at_q, "nosym"), (get_all_triplets, "all")):
        r = f(gp, g)
        t = np.array(r[0] if nm == "nosym" else r)
        mon.equal("nosym", np.sort(gr_of[t[:, 1]]), np.arange(N), nm)
        sq = A[t].sum(axis=1) @ QD.T
        mon.close("momentum", sq, np.rint(sq), atol=1e-8, scale=0, n=len(t))
        if nm == "nosym":
            mon.check("nosym", (np.array(r[1]) == 1).all() and int(np.sum(r[1])) == N, str(r[1][:9]))
