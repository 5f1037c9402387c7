"""C03: every accepted mesh request becomes exactly the commensurate q-grid asked for."""

import numpy as np

from harness import gridgen as G, models
from harness.core import Skip

PROP = "C03"
RULE = (
    "mesh requests of every kind (three numbers, a length with/without generalized grid in "
    "direct/reciprocal coordinates, explicit integer matrices incl. skewed and antiparallel "
    "ones, forced Smith decomposition) on 22 crystals and random lattices, plus direct Smith "
    "decompositions of random integer matrices; distinct by (lattice, D, Q)"
)
REQUIRED = {"snf": 300, "point-set": 60, "invariant": 60, "refused-iff-broken": 10,
            "length-density": 20, "length-mesh": 20}
ASSUMPTIONS = ["spglib standardisation gives the conventional axes a length mesh refers to"]


def cases(tier, rng):
    n = 1300 if tier == "quick" else 10000
    out = []
    for i in range(n):
        c = G.gen(rng, 500 if tier == "quick" else 3000, grg_share=0.75)
        c.pop("shift", None)
        out.append({"g": c})
    for _ in range(40 if tier == "quick" else 400):
        out.append({"snf": int(rng.integers(2**31))})
    return out


def check_snf(seed, mon):
    import phono3py._recgrid as recgrid

    rng = np.random.default_rng(seed)
    for _ in range(40):
        k = int(rng.choice([2, 4, 8, 20]))
        M = rng.integers(-k, k + 1, size=(3, 3))
        d = round(np.linalg.det(M.astype(float)))
        if d == 0:
            continue
        D, P, Q = np.ones(3, "int64"), np.eye(3, dtype="int64"), np.eye(3, dtype="int64")
        M0 = np.array(M, dtype="int64", order="C")
        ok = recgrid.snf3x3(D, P, Q, M0)
        mon.check("snf", ok, f"failed for {M.tolist()}")
        mon.equal("snf", P @ M @ Q, np.diag(D), str(M.tolist()))
        mon.check("snf", abs(round(np.linalg.det(P.astype(float)))) == 1
                  and abs(round(np.linalg.det(Q.astype(float)))) == 1 and (D > 0).all()
                  and int(np.prod(D)) == abs(d), f"{M.tolist()} -> {D} {P} {Q}")
        mon.sig("snf", D.tolist())


def run(case, mon):
    if "snf" in case:
        return check_snf(case["snf"], mon)
    c = case["g"]
    g, lat, ds = G.make(c)
    ops = G.point_group(ds, c["tr"])
    B = np.linalg.inv(lat)
    mesh = c["mesh"]
    nv = np.size(mesh)
    if nv == 3:
        M = np.diag(mesh)
    elif nv == 9:
        M = np.array(mesh)
    else:
        M = None
    if M is not None:
        Mi = np.linalg.inv(M)
        inv = all(np.abs(X - np.rint(X)).max() < 1e-6 for X in (M @ w @ Mi for w in ops))
        mon.check("refused-iff-broken", isinstance(g, RuntimeError) == (not inv),
                  f"mesh {M.tolist()} invariant={inv} but result {g!r}")
    if isinstance(g, RuntimeError):
        if M is None:
            # a length always has a point-group invariant realisation unless the plain
            # (non generalized) mesh is asked for
            mon.check("length-refused", not c.get("grg", False), f"{c} refused: {g}")
        raise Skip("refused")
    D, P, Q = (np.array(x) for x in (g.D_diag, g.P, g.Q))
    mon.check("positive", (D > 0).all(), str(D))
    mon.check("unimodular", abs(round(np.linalg.det(P.astype(float)))) == 1
              and abs(round(np.linalg.det(Q.astype(float)))) == 1, f"{P} {Q}")
    N = int(np.prod(D))
    mon.sig(c.get("name", "lat"), D.tolist(), Q.tolist())
    if g.grid_matrix is not None:
        mon.equal("decomposition", P @ np.array(g.grid_matrix) @ Q, np.diag(D))
    QD = Q / D[None, :].astype(float)
    if M is not None:
        # the set of q-points is {M^-1 n}: M q integer for all of them, and the number agrees
        q = (np.array(g.addresses) @ QD.T)
        Mq = q @ M.T
        mon.close("point-set", Mq, np.rint(Mq), atol=1e-7, scale=0)
        mon.check("point-set", N == abs(round(np.linalg.det(M.astype(float)))), f"{N} vs {M}")
        if nv == 3 and not c.get("force"):
            mon.equal("mesh-numbers", D, mesh)
    Gi = np.linalg.inv(QD)
    for w in ops:
        X = Gi @ w @ QD
        mon.close("invariant", X, np.rint(X), atol=1e-6, scale=0)
    if M is None:
        micro = g.microzone_lattice
        L = float(mesh)
        if c.get("grg") and ds is not None and c["coord"] == "reciprocal":
            conv = np.linalg.inv(ds.transformation_matrix).T @ lat  # rows
            X = np.linalg.inv(micro) @ np.linalg.inv(conv)
            mon.close("conv-commensurate", X, np.rint(X), atol=2e-4, scale=0)
            # supercell = conventional cell x m, m_i ~ L / |a_i| (within rounding)
            sup = np.linalg.inv(micro).T if False else np.linalg.inv(micro)  # rows: vectors
            X = np.rint(X).astype(int)
            # smallest multiple of each conventional axis that is a supercell translation
            Si = np.linalg.inv(sup)
            m = []
            for i in range(3):
                t = conv[i] @ Si
                for n in range(1, 400):
                    if np.abs(n * t - np.rint(n * t)).max() < 1e-3:
                        break
                m.append(n)
            m = np.array(m)
            bc = np.linalg.norm(np.linalg.inv(conv), axis=0)
            vol = abs(np.linalg.det(conv)) / abs(np.linalg.det(lat))
            mon.check("length-density", abs(m.prod() * vol - N) < 1e-6 * N,
                      f"conv mesh {m} x {vol} != {N}")
            mon.check("length-mesh", (m >= 1).all() and (np.abs(m - np.maximum(1, L * bc)) <= 1.0 + 1e-6).all(),
                      f"length {L}: conv mesh {m}, ideal {L * bc}")
        elif not c.get("grg"):
            b = np.linalg.norm(B, axis=0)
            mon.check("length-mesh", (np.abs(D - np.maximum(1, L * b)) <= 1.0 + 1e-6).all(),
                      f"length {L}: mesh {D}, ideal {L * b}")
            mon.check("length-density", True)
