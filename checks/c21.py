"""C21: phonons on the grid are the eigen-solutions of the dynamical matrix."""

import numpy as np

from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C21"
RULE = (
    "random crystal (incl. imaginary modes), fc2 supercell (own or shared), full/compact fc2, mesh "
    "or generalized grid, non-analytical correction (none, Gonze-Lee, Wang) with and without a "
    "direction at Gamma, frequency scale factor, changed masses, both triangles, builds with and "
    "without LAPACKE, batched / one by one / rotated solution; the dynamical matrix is rebuilt from "
    "own minimum-image vectors and Ewald sums; distinct by (crystal, supercell, grid, NAC, route)"
)
REQUIRED = {"eigen": 3000, "norm": 3000, "commensurate": 100, "gamma-nac": 10, "batch": 1000,
            "rotation": 100, "phonopy": 1000, "imaginary": 20, "wang": 300, "gonze": 300,
            "lapacke": 10, "acoustic": 20, "other": 300, "python": 300}


def cases(tier, rng):
    n = 250 if tier == "quick" else 2000
    out = []
    polar = [x for x in M.POLAR]
    for i in range(n):
        names = polar if rng.random() < 0.5 else None
        c = ph.gen(rng, max_mesh=4, max_atoms=6, nac=0.9 if names else 0.0, names=names)
        c["wang"] = bool(rng.random() < 0.5)
        c["fsf"] = [None, None, 0.9, 1.3][int(rng.integers(4))]
        c["uplo"] = "UL"[int(rng.integers(2))]
        c["mass"] = bool(rng.random() < 0.3)
        c["unit"] = bool(rng.random() < 0.15)
        c["dir"] = [None, [1.0, 0, 0], [0, 0, 2.0], [1.0, 1.0, 0.5], [-0.2, 0.7, 0.1]][
            int(rng.integers(5))] if c["nac"] else None
        c["ms"] = bool(rng.random() < 0.8)
        if rng.random() < 0.35:
            prim, _ = M.DIMS[c["name"]][c["set"] % len(M.DIMS[c["name"]])]
            ds = [d for p, d in M.DIMS[c["name"]] if p == prim]
            c["phdim"] = [int(x) for x in ds[int(rng.integers(len(ds)))]]
        c["fc3"] = False
        if i % 3 == 2:
            c["variant"] = "lapacke"
        out.append(c)
    return out


def charges(nacp, n):
    return np.array(nacp["born"]), np.array(nacp["dielectric"])


class Own:
    """Dynamical matrices by sums over minimum images, Wang term and Ewald sum."""

    def __init__(self, prim, sc, fc2, nacp, wang, dataset=None):
        self.prim, self.sc = prim, sc
        self.n = len(prim)
        self.sv = ph.min_images(prim, sc)
        s2p = np.array(prim.s2p_map)
        p2p = {int(x): k for k, x in enumerate(prim.p2s_map)}
        self.kind = np.array([p2p[int(x)] for x in s2p])
        self.fc = fc2[prim.p2s_map] if fc2.shape[0] == fc2.shape[1] else fc2
        m = np.array(prim.masses)
        self.mm = np.repeat(np.sqrt(m), 3)
        self.nacp, self.wang = nacp, wang
        self.rec = np.linalg.inv(np.array(prim.cell))  # columns: reciprocal vectors
        self.vol = abs(np.linalg.det(np.array(prim.cell)))
        self.dataset = dataset

    def fourier(self, fc, q):
        n = self.n
        D = np.zeros((n, 3, n, 3), complex)
        for i in range(n):
            for j in range(len(self.sc)):
                D[i, :, self.kind[j]] += fc[i, j] * np.exp(2j * np.pi * self.sv[i][j] @ q).mean()
        return D.reshape(3 * n, 3 * n)

    def limit(self, k):
        """Non-analytical term for Cartesian direction k."""
        Z, eps = charges(self.nacp, self.n)
        v = np.einsum("a,iab->ib", k, Z).ravel()
        return self.factor() * np.outer(v, v) / (k @ eps @ k)

    def factor(self):
        return 4 * np.pi * self.nacp["factor"] / self.vol

    def ewald(self, q, d):
        """Reciprocal dipole-dipole sum of Gonze and Lee in the code's gauge."""
        _, dd0, _, G, lam = self.dataset
        Z, eps = charges(self.nacp, self.n)
        pos = np.array(self.prim.positions)
        qc = self.rec @ q
        n = self.n
        K = np.array(G) + qc
        k2 = np.einsum("ga,ab,gb->g", K, eps, K)
        small = np.linalg.norm(K, axis=1) < 1e-5
        w = np.exp(-k2 / 4 / lam ** 2) / np.where(small, 1, k2)
        t = K[:, :, None] * K[:, None] * w[:, None, None]
        if small.any():
            t[small] = 0
            if d is not None:
                dc = self.rec @ np.array(d)
                t[small] = np.outer(dc, dc) / (dc @ eps @ dc)
        ph_ = np.exp(2j * np.pi * (pos @ np.array(G).T))  # n, G
        X = np.einsum("ig,jg,gab->iajb", ph_, ph_.conj(), t)
        X = np.einsum("ica,icjd,jdb->iajb", Z, X, Z)
        for i in range(n):
            X[i, :, i] -= np.array(dd0)[i]
        return X.reshape(3 * n, 3 * n) * self.factor()

    def __call__(self, q, d=None, gamma=False):
        nac = self.nacp is not None
        if not nac:
            D = self.fourier(self.fc, q)
        elif self.wang:
            if gamma and d is None:
                D = self.fourier(self.fc, q)
            else:
                k = self.rec @ (np.array(d) if gamma else q)
                n = self.n
                t = self.limit(k).reshape(n, 3, n, 3) / (len(self.sc) / n)
                f = np.array(self.fc)
                for i in range(n):
                    for j in range(len(self.sc)):
                        f[i, j] += t[i, :, self.kind[j]]
                D = self.fourier(f, q)
        else:
            g = np.array(self.dataset[0])
            g = g[self.prim.p2s_map] if g.shape[0] == g.shape[1] else g
            D = self.fourier(g, q) + self.ewald(q, d if gamma else None)
        return D / np.outer(self.mm, self.mm)


def run(c, mon):
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
    from phonopy.physical_units import get_physical_units

    rng = np.random.default_rng(c["seed"])
    fac = get_physical_units().DefaultToTHz
    kw = {}
    if c["unit"]:
        fac = fac * 33.3
        kw["frequency_factor_to_THz"] = fac
    p3 = ph.build(c, **kw)
    if p3 is None:
        raise Skip("mesh refused")
    if len(p3.grid.addresses) > 260:
        raise Skip("large")
    if c["mass"]:
        # equivalent atoms keep equal masses
        by = {x: rng.uniform(0.6, 1.7) for x in sorted(set(p3.primitive.symbols))}
        p3.masses = [m * by[x] for m, x in zip(p3.primitive.masses, p3.primitive.symbols)]
    nacp = p3.nac_params
    if nacp is not None:
        nacp = dict(nacp, method="wang" if c["wang"] else "gonze")
        p3.nac_params = nacp
    lap = c.get("variant") == "lapacke"
    import phono3py._phono3py as phono3c

    assert bool(phono3c.include_lapacke()) == lap
    p3.init_phph_interaction(frequency_scale_factor=c["fsf"], lapack_zheev_uplo=c["uplo"])
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    grid = p3.grid
    dataset = None
    ref = get_dynamical_matrix(p3.fc2, sc, prim, nac_params=nacp, frequency_scale_factor=c["fsf"])
    if nacp is not None and not c["wang"]:
        if ref.Gonze_nac_dataset[0] is None:
            ref.make_Gonze_nac_dataset()
        dataset = ref.Gonze_nac_dataset
    # the scale factor acts on the force constants, not on the correction
    fc2 = np.array(p3.fc2) * (c["fsf"] or 1.0) ** 2
    own = Own(prim, sc, fc2, nacp, c["wang"], dataset)
    plain = Own(prim, sc, fc2, None, False) if dataset is not None else own
    qs = np.array([ph.qpoint(p3, g) for g in range(len(grid.addresses))])
    isg = (np.array(grid.addresses) == 0).all(axis=1)
    nb = 3 * len(prim)
    what = f"{'none' if nacp is None else 'wang' if c['wang'] else 'gonze'}{'-lapacke' if lap else ''}"
    det = f"{c['name']} {what} compact={c['compact']} phdim={c.get('phdim')} fsf={c['fsf']} unit={c['unit']}"

    dmax = max([1e-6] + [np.abs(own(q, None, bool(z))).max() for q, z in zip(qs, isg)])

    def same(D, f, e, clause, g, rtol=1e-8):
        lam = np.sign(f) * (f / fac) ** 2
        s = max(np.abs(D).max(), dmax)
        mon.close(clause, (e * lam) @ e.conj().T, D, rtol=rtol, scale=s, key=f"{clause}:{what}",
                  detail=f"{det} gp {g} {np.array(grid.addresses[g])}")
        mon.close("norm", e.conj().T @ e, np.eye(nb), rtol=0, atol=1e-9, key=f"norm:{what}",
                  detail=f"{det} gp {g}")
        mon.check("ascending", (np.diff(f) >= -1e-9 * np.abs(f).max()).all(), f"{det} {f}")

    # ------------------------------------------------------------- all points
    p3.run_phonon_solver()
    F, E, _ = p3.get_phonon_data()
    F, E = np.array(F), np.array(E)
    mon.check("shape", F.shape == (len(qs), nb) and E.shape == (len(qs), nb, nb), f"{F.shape} {E.shape}")
    smat = np.array(sc.cell) @ np.linalg.inv(np.array(prim.cell))
    for g, q in enumerate(qs):
        D = own(q, None, bool(isg[g]))
        same(D, F[g], E[g], "eigen", g)
        mon.events["wang" if nacp is not None and c["wang"] else "gonze" if nacp is not None else "none"] += 1
        com = smat @ q
        if nacp is not None and not c["wang"] and np.abs(com - np.rint(com)).max() < 1e-9:
            # dipole interactions are contained in the force constants
            same(plain(q), F[g], E[g], "commensurate", g, 1e-5)
        if nacp is None or not c["wang"] or isg[g]:
            r = ref
            if nacp is not None and isg[g]:
                r.run(q)
            elif nacp is not None:
                r.run(q, None)
            else:
                r.run(q)
            mon.close("phonopy", r.dynamical_matrix, D, rtol=1e-8, scale=dmax,
                      key=f"phonopy:{what}", detail=det)
        if isg[g] and not c.get("pin"):
            a = np.sort(np.abs(F[g]))[:3]
            mon.check("acoustic", a.max() < 2e-2 * (33 if c["unit"] else 1), f"{det} {a}")
        if (F[g] < -0.1).any():
            mon.events["imaginary"] += 1
    # --------------------------------------- subsets, orders, one by one
    pp = p3.phph_interaction
    p3.init_phph_interaction(frequency_scale_factor=c["fsf"], lapack_zheev_uplo=c["uplo"])
    pp = p3.phph_interaction
    order = rng.permutation(len(qs))
    cut = np.sort(rng.choice(np.arange(len(qs) + 1), size=int(rng.integers(0, 5))))
    for part in np.split(order, cut):
        part = np.array(part, dtype="int64")
        if len(part) and rng.integers(2):
            part = np.r_[part, part[: 1]].astype("int64")
        if len(part) == 0 and rng.integers(2):
            continue
        pp.run_phonon_solver(part)
        f, e, done = pp.get_phonons()
        mon.check("done", bool(np.asarray(done)[part].all()), f"{det} not done")
        mon.close("batch", np.array(f)[part], F[part], rtol=0, atol=1e-9 * np.abs(F).max(), key="batch:f",
                  detail=det)
    f, e, done = (np.array(x) for x in pp.get_phonons())
    mon.check("done", bool(done.all()), det)
    for g in rng.choice(len(qs), size=min(12, len(qs)), replace=False):
        same(own(qs[g], None, bool(isg[g])), f[g], e[g], "batch", int(g))
    # --------------------------------------- Gamma with a direction
    if c["dir"] is not None:
        gG = int(grid.gp_Gamma)
        p3.init_phph_interaction(frequency_scale_factor=c["fsf"], lapack_zheev_uplo=c["uplo"],
                                 nac_q_direction=c["dir"])
        pp = p3.phph_interaction
        if rng.integers(2):
            p3.run_phonon_solver()
        pp.set_grid_point(gG)
        if rng.integers(2):
            pp.run_phonon_solver()
        else:
            pp.run_phonon_solver(rng.permutation(len(qs)).astype("int64"))
        f, e, done = (np.array(x) for x in pp.get_phonons())
        same(own(qs[gG], c["dir"], True), f[gG], e[gG], "gamma-nac", gG)
        # the limit adds the macroscopic field to the analytical matrix
        D0 = plain(np.zeros(3)) if not c["wang"] else own(np.zeros(3), None, True)
        lim = Own(prim, sc, fc2, nacp, True)
        k = lim.rec @ np.array(c["dir"])
        same(D0 + lim.limit(k) / np.outer(lim.mm, lim.mm), f[gG], e[gG], "gamma-nac", gG, 1e-5)
        for g in rng.choice(len(qs), size=min(8, len(qs)), replace=False):
            if not isg[g]:
                same(own(qs[g], None, False), f[g], e[g], "eigen", int(g))
    # --------------------------------------- rotated eigenvectors
    if c["ms"]:
        p3.init_phph_interaction(frequency_scale_factor=c["fsf"], lapack_zheev_uplo=c["uplo"])
        pp = p3.phph_interaction
        pp.run_phonon_solver(solve_by_rotation=True)
        f, e, _ = (np.array(x) for x in pp.get_phonons())
        for g in range(len(qs)):
            D = own(qs[g], None, bool(isg[g]))
            lam = np.sign(f[g]) * (f[g] / fac) ** 2
            mon.close("rotation", (e[g] * lam) @ e[g].conj().T, D, rtol=1e-6, scale=dmax,
                      key=f"rotation:{what}", detail=f"{det} gp {g}")
            mon.close("norm", e[g].conj().T @ e[g], np.eye(nb), rtol=0, atol=1e-9, key="norm:rotation")
    # --------------------------------------- other entry points
    from phono3py.phonon.solver import run_phonon_solver_py

    if nacp is None or not c["wang"]:
        f, e = np.zeros_like(F), np.zeros_like(E)
        done = np.zeros(len(qs), dtype="byte")
        for g in range(len(qs)):
            run_phonon_solver_py(g, done, f, e, np.array(grid.addresses), np.array(grid.QDinv), ref,
                                 fac, c["uplo"])
        for g in range(len(qs)):
            same(own(qs[g], None, bool(isg[g])), f[g], e[g], "python", g)
    if not c["grg"] and not c["unit"] and c["fsf"] is None and not c["mass"]:
        from phono3py import Phono3pyIsotope, Phono3pyJointDos

        if len(sc) == len(p3.supercell):
            j = Phono3pyJointDos(sc, prim, p3.fc2, mesh=c["mesh"], nac_params=nacp,
                                 is_mesh_symmetry=c["ms"], log_level=0, sigmas=[0.3])
            j.run([int(grid.gp_Gamma)], write_jdos=False)
            del j
        iso = Phono3pyIsotope(c["mesh"], prim, mass_variances=[1e-3] * len(prim), sigmas=[0.5])
        iso.init_dynamical_matrix(p3.fc2, sc, prim, nac_params=nacp)
        iso.run([int(grid.gp_Gamma), len(iso.grid.addresses) - 1])
        f, e, done = (np.array(x) for x in next(
            v for v in vars(iso).values() if hasattr(v, "get_phonons")).get_phonons())
        for g in np.where(done)[0]:
            a = np.array(iso.grid.addresses[g])
            q = np.array(iso.grid.QDinv) @ a
            same(own(q, None, not a.any()), f[g], e[g], "other", int(g))
    if lap:
        mon.events["lapacke"] += 1
    mon.sig(c["name"], tuple(np.array(p3.mesh_numbers).tolist()), what, c["compact"], c["set"],
            str(c.get("phdim")), c["dir"] is None, c["uplo"])
