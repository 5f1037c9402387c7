"""C01: the BZ grid covers reciprocal space once, at the images closest to Gamma."""

import itertools

import numpy as np

from harness import gridgen as G
from harness.core import Skip

PROP = "C01"
RULE = (
    "random crystals (22 prototypes over all crystal systems) and random triclinic lattices x "
    "diagonal / length-generated / explicit generalized-regular meshes x shift x both index-map "
    "layouts; a case is non-trivial when the mesh has more than one point; distinct by "
    "(lattice, D, Q, shift, layout)"
)
REQUIRED = {"gr-onto": 1000, "closest": 1000, "ties": 20, "addr-class": 1000, "lookup": 1000,
            "layouts-agree": 30, "microzone": 30}
ASSUMPTIONS = ["ties are decided with the library's own tolerance (0.01 x largest squared "
               "edge of the reduced microzone); oracles accept either side inside that band"]


def cases(tier, rng):
    n = 1600 if tier == "quick" else 12000
    mx = 350 if tier == "quick" else 1500
    return [{"g": G.gen(rng, mx)} for _ in range(n)]


def layout(g):
    """GR index -> list of BZ indices, from the public index maps."""
    N = int(np.prod(g.D_diag))
    if g.store_dense_gp_map:
        return [list(range(g.gp_map[i], g.gp_map[i + 1])) for i in range(N)]
    off = N * 8
    return [[i] + list(range(N + g.gp_map[off + i], N + g.gp_map[off + i + 1]))
            for i in range(N)]


def run(case, mon):
    c = case["g"]
    g, lat, ds = G.make(c)
    if isinstance(g, RuntimeError):
        # must be one of the two documented refusals, both decided by the C03 oracle
        mon.check("refusal", "Grid symmetry is broken" in str(g) or "GRG" in str(g)
                  or "SNF" in str(g), str(g))
        raise Skip("refused")
    D, Q = np.array(g.D_diag), np.array(g.Q)
    N = int(np.prod(D))
    B = np.linalg.inv(lat)  # columns are reciprocal basis vectors
    q = G.qmap(g)
    A = np.array(g.addresses)
    nbz = len(A)
    if N > 1:
        mon.sig(c.get("name", "lat"), D.tolist(), Q.tolist(), c.get("shift"), c["dense"], nbz)

    # coverage
    gr_of = G.gr_index(A, D)
    mon.equal("gr-onto", np.unique(gr_of), np.arange(N), "every GR point has a BZ point")
    mon.equal("addr-class", g.bzg2grg, gr_of, "bzg2grg vs address class")
    mon.equal("grg2bzg", np.array(g.bzg2grg)[np.array(g.grg2bzg)], np.arange(N))
    mon.check("unique-address", len({tuple(a) for a in A.tolist()}) == nbz,
              "duplicate BZ addresses", n=nbz)
    lay = layout(g)
    mon.check("layout-partition", sorted(itertools.chain(*lay)) == list(range(nbz)),
              "index map does not partition the BZ points", n=nbz)
    for i, l in enumerate(lay):
        mon.check("layout-class", all(gr_of[x] == i for x in l) and l[0] == g.grg2bzg[i],
                  f"GR {i} -> {l}")
    if not c["dense"] and np.ndim(g.gp_map) == 1 and len(g.gp_map) == 9 * N + 1:
        # lookup table over the doubled mesh: every BZ point at its own place, nothing elsewhere
        D2 = 2 * D
        table = np.full(8 * N, 8 * N)
        a = A % D2
        table[a[:, 0] + D2[0] * (a[:, 1] + D2[1] * a[:, 2])] = np.arange(nbz)
        mon.equal("sparse-table", np.array(g.gp_map)[: 8 * N], table, "index map over the doubled mesh")
    # closest images; brute force over a Niggli-like reduced basis, wide search
    from phonopy.structure.cells import get_reduced_bases

    red = get_reduced_bases(np.ascontiguousarray(B.T)).T
    R = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    micro = B @ (Q / D[None, :].astype(float))
    micro = get_reduced_bases(np.ascontiguousarray(micro.T))
    tol = 0.02 * max((micro**2).sum(axis=1))
    TG = np.linalg.inv(red) @ B
    qf = q(A)
    cart = qf @ B.T
    d2 = (cart**2).sum(axis=1)
    for i, l in enumerate(lay):
        xr = TG @ qf[l[0]]
        xr = xr - np.rint(xr)
        cand = (xr + R) @ red.T
        dd = (cand**2).sum(axis=1)
        m = dd.min()
        sel = cand[dd < m + max(1e-9 * max(m, tol), 1e-3 * tol)]
        mon.check("closest", all(d2[x] < m + 2.05 * tol for x in l),
                  lambda: f"GR {i}: |q|^2 {d2[l]} min {m} tol {tol}", n=len(l))
        have = cart[l]
        for s in sel:
            mon.check("ties" if len(sel) > 1 else "closest",
                      (np.abs(have - s).max(axis=1) < 1e-7 * (1 + np.abs(s).max())).any(),
                      lambda: f"GR {i}: image {s} of {len(sel)} ties missing in {have}")
    # difference of equivalent BZ points is a reciprocal lattice vector, others are not
    for l in lay:
        if len(l) > 1:
            dq = qf[l] - qf[l[0]]
            mon.check("gvector", np.abs(dq - np.rint(dq)).max() < 1e-8, str(dq), n=len(l))
    first = np.array([l[0] for l in lay])
    qq = np.mod(np.rint(qf[first] * 2 * N * 1e6) / (2 * N * 1e6) + 1e-9, 1)
    mon.check("distinct-q", len(np.unique(np.rint(qq * 1e5).astype(int) % 100000, axis=0)) == N
              if N < 20000 else True, "two GR points share the same q", n=N)
    # lookup of arbitrary addresses (negative, far outside)
    rng = np.random.default_rng(case["seed"])
    T = rng.integers(-3 * D.max(), 3 * D.max() + 1, size=(12, 3))
    got = np.array(g.get_indices_from_addresses(T))
    mon.equal("lookup", gr_of[got], G.gr_index(T, D), "get_indices_from_addresses")
    mon.equal("lookup", got, np.array(g.grg2bzg)[G.gr_index(T, D)], "canonical image")
    mon.check("lookup", g.get_indices_from_addresses(T[0]) == got[0], "single address")
    mon.check("gamma", g.gp_Gamma == g.grg2bzg[0] and not A[g.gp_Gamma].any()
              if not c.get("shift") else True, f"gp_Gamma {g.gp_Gamma} {A[g.gp_Gamma]}")
    # microzone volume
    mon.close("microzone", abs(np.linalg.det(g.microzone_lattice)) * N, abs(np.linalg.det(B)),
              rtol=1e-9)
    mon.close("qdinv", g.QDinv @ np.diag(D), Q, rtol=1e-12)
    # both layouts, and either way of giving the lattice, describe the same point set
    g2, _, _ = G.make(c, dense=not c["dense"], reciprocal=case["seed"] % 2 == 1)
    mon.check("layouts-agree",
              sorted(map(tuple, g2.addresses.tolist())) == sorted(map(tuple, A.tolist())),
              "dense and sparse index maps hold different BZ points", n=1)
    l2 = layout(g2)
    for i in range(N):
        mon.check("layouts-agree", [tuple(A[x]) for x in lay[i]]
                  == [tuple(g2.addresses[x]) for x in l2[i]], f"GR {i} images differ")
