"""C26: mode Grueneisen parameters are logarithmic strain derivatives of the frequencies."""

import os

import h5py
import numpy as np
import yaml

from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C26"
RULE = (
    "random crystal and supercell (full/compact, NAC, soft modes, relaxed or clamped ions), random "
    "q-points, paths and meshes; tensors against finite strains of the harmonic crystal with "
    "strained force constants and relaxed ions, and against really strained crystals with pair "
    "potentials; representation, sampling mode, rotations and files compared; distinct by (kind, "
    "crystal, supercell, options)"
)
REQUIRED = {"strain": 2000, "pair": 1000, "pair-rotation": 200, "compact": 200, "modes": 200,
            "star": 200, "file": 200, "frequency": 300, "gamma": 5, "nac": 5, "mesh": 10,
            "internal": 20, "imaginary": 5, "bend": 50}
FACTOR = 15.633302


def cases(tier, rng):
    n = 150 if tier == "quick" else 1500
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4, max_atoms=6 if i % 9 == 0 else 4, grg=0, nac=0.6, min_mesh=1)
        c["kind"] = ["general", "pair"][int(i % 3 == 2)]
        c["clamped"] = bool(rng.random() < 0.35)
        c["method"] = "gonze" if rng.random() < 0.5 else "wang"
        out.append(c)
    return out


def groups(w2, tol):
    s = [[0]]
    for i in range(1, len(w2)):
        if w2[i] - w2[i - 1] < tol:
            s[-1].append(i)
        else:
            s.append([i])
    return s


def qset(rng, prim, cell_rot=None):
    k = int(rng.integers(4))
    out = [rng.uniform(-1, 1, size=3), rng.uniform(-0.5, 0.5, size=3)]
    v = np.zeros(3)
    v[int(rng.integers(3))] = [0.5, 0.25, 1 / 3, 0.1][k]
    out.append(v)
    out.append(np.array([0.5, 0.5, 0.0]) if k % 2 else np.array([0.5, 0.5, 0.5]))
    return out


def rows(sc, prim):
    """Averaged relative vectors from primitive atoms to atoms of the supercell (Cartesian)."""
    sv = ph.min_images(prim, sc)
    cell = np.array(prim.cell)
    return sv, np.array([[np.mean(v, axis=0) @ cell for v in r] for r in sv])


class Strained:
    """First order change of the dynamical matrix with strain, by displacement of the atoms."""

    def __init__(self, prim, sc, fc2, fc3, clamped):
        self.prim = prim
        n = len(prim)
        self.m = np.array(prim.masses)
        p2s = np.array(prim.p2s_map)
        pick = p2s if len(fc2) == len(sc) else np.arange(n)
        self.f2 = np.array(fc2)[pick]
        pick = p2s if len(fc3) == len(sc) else np.arange(n)
        self.f3 = np.array(fc3)[pick]
        self.sv, self.R = rows(sc, prim)
        p2p = {int(x): k for k, x in enumerate(p2s)}
        self.kind = np.array([p2p[int(x)] for x in prim.s2p_map])
        self.clamped = clamped
        g = np.zeros((n, 3, n, 3))
        for j, k in enumerate(self.kind):
            g[:, :, k, :] += self.f2[:, j]
        self.gamma = g.reshape(3 * n, 3 * n)
        mm = np.repeat(np.sqrt(self.m), 3)
        d = self.gamma / np.outer(mm, mm)
        self.opt = np.linalg.eigh((d + d.T) / 2)
        self.mm = mm

    def singular(self):
        w = np.sort(np.abs(self.opt[0]))
        return len(w) > 3 and (w[3] < 3e-3 * w[-1] or w[2] > 0.03 * w[3])

    def internal(self, eps):
        """Displacements of the sublattices that remove the forces of a homogeneous strain."""
        n = len(self.prim)
        if self.clamped:
            return np.zeros((n, 3))
        f = -np.einsum("ijab,bc,ijc->ia", self.f2, eps, self.R)
        # optical subspace in mass weighted coordinates
        w, v = self.opt
        o = np.argsort(np.abs(w), kind="stable")[3:]
        y = f.ravel() / self.mm
        u = (v[:, o] / w[o]) @ (v[:, o].T @ y)
        return (u / self.mm).reshape(n, 3)

    def change(self, q, eps):
        """dD/deps."""
        n = len(self.prim)
        u0 = self.internal(eps)
        out = np.zeros((n, 3, n, 3), complex)
        for i in range(n):
            u = self.R[i] @ eps.T + u0[self.kind]
            df = np.einsum("jkabc,kc->jab", self.f3[i], u)
            for j, k in enumerate(self.kind):
                out[i, :, k, :] += df[j] * np.exp(2j * np.pi * (self.sv[i][j] @ q)).mean()
        return out.reshape(3 * n, 3 * n) / np.outer(self.mm, self.mm)


def compare(mon, clause, g, w2, want, det, scale, key=None):
    """g (band, 3, 3), want: (band-group list of) traces of dD in eigenvector groups."""
    s = groups(w2, 1e-6 * scale)
    for m in s:
        got = (-2 * w2[m][:, None, None] * g[m]).sum(axis=0)
        mon.close(clause, got, want(m), rtol=2e-5, scale=len(m) * scale, key=key or clause,
                  detail=f"{det} modes {m} of {w2}")


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "pair":
        return pair(c, mon, rng)
    general(c, mon, rng)


def general(c, mon, rng):
    from phono3py.phonon3.gruneisen import Gruneisen, run_gruneisen_parameters

    p = ph.build(c, mesh=False)
    prim, sc = p.primitive, p.supercell
    n = len(prim)
    if n * len(sc) > 170:
        raise Skip("large")
    nacp = p.nac_params
    if nacp is not None:
        nacp = dict(nacp, method=c["method"])
        mon.events["nac"] += 1
    direction = list(rng.normal(size=3)) if nacp is not None and rng.random() < 0.7 else None
    S = Strained(prim, sc, p.fc2, p.fc3, c["clamped"])
    if not c["clamped"] and S.singular():
        raise Skip("free internal coordinate")
    det = f"{c['name']} {c['set']} nac={nacp and c['method']} clamped={c['clamped']} soft={c['soft']}"
    kw = dict(nac_params=nacp, nac_q_direction=direction, ion_clamped=c["clamped"], factor=FACTOR)
    G = Gruneisen(p.fc2, p.fc3, sc, prim, **kw)
    qs = qset(rng, prim) + [np.zeros(3)]
    G.set_qpoints(qs)
    G.run()
    g = np.array(G.get_gruneisen_parameters())
    f = np.array(G._frequencies) if hasattr(G, "_frequencies") else None
    dm = G.dynamical_matrix
    sd = None
    for k, q in enumerate(qs):
        gam = not q.any()
        if gam:
            mon.events["gamma"] += 1
            dm.run(q, direction) if direction is not None and nacp is not None else dm.run(q)
        else:
            dm.run(q)
        D = np.array(dm.dynamical_matrix)
        w2, e = np.linalg.eigh(D)
        sd = max(np.abs(w2).max(), 1e-3)
        if (w2 < -0.01 * sd).any():
            mon.events["imaginary"] += 1
        if f is not None:
            want = np.sign(w2) * np.sqrt(np.abs(w2)) * FACTOR
            mon.close("frequency", f[k] * np.abs(f[k]), want * np.abs(want), rtol=1e-7,
                      scale=FACTOR**2 * sd, key="frequency", detail=det)
        ch = np.zeros((3, 3, len(w2), len(w2)), complex)
        for a in range(3):
            for b in range(3):
                eps = np.zeros((3, 3))
                eps[a, b] = 1
                ch[a, b] = S.change(q, eps)
        dsc = max(np.abs(ch).max() * 2, 1e-2 * sd)
        val = np.einsum("ms,abmn,nt->abst", e.conj(), ch, e, optimize=True)

        def want(m):
            return np.trace(val[:, :, m][..., m], axis1=2, axis2=3).real

        sel = np.ones(len(w2), bool)
        if gam:
            # acoustic modes at Gamma have no parameter
            o = np.argsort(np.abs(w2), kind="stable")
            if len(o) > 3 and (np.abs(w2[o[3]]) < 1e-3 * sd):
                continue
            sel[o[:3]] = False
            mon.check("gamma", (np.abs(g[k][~sel]) == 0).all() or c["soft"] == 0,
                      f"{det} acoustic {g[k][~sel]}")
            if c["soft"]:
                mon.check("gamma", (np.abs(g[k][~sel]) < 1e-8).all(), f"{det} acoustic modes of soft crystal "
                          f"{np.abs(g[k][~sel]).max()} freqs {w2}", key="gamma:acoustic")
        idx = np.where(sel)[0]
        if len(idx) == 0:
            continue
        for m in groups(w2[idx], 1e-6 * sd):
            m = idx[m]
            if np.abs(w2[m]).min() < 1e-5 * sd:
                continue
            got = (-2 * w2[m][:, None, None] * g[k][m]).sum(axis=0)
            mon.close("strain", got, want(m), rtol=2e-5, scale=len(m) * dsc, key="strain",
                      detail=f"{det} q {q} modes {m}")
            if len(prim) > 1 and not c["clamped"]:
                mon.events["internal"] += 1
    # representation of the force constants
    other = dict(c, compact=not c["compact"])
    p2 = ph.build(other, mesh=False)
    G2 = Gruneisen(p2.fc2, p2.fc3, sc, prim, **kw)
    G2.set_qpoints(qs)
    G2.run()
    g2 = np.array(G2.get_gruneisen_parameters())

    def moments(x, w):
        return np.einsum("sab->ab", -2 * w[:, None, None] * x)

    for k, q in enumerate(qs):
        w = np.sign(f[k]) * (f[k] / FACTOR) ** 2
        dsc = max(1e-2 * sd, np.abs(w[:, None, None] * g[k]).max() * len(w))
        mon.close("compact", moments(g2[k], w), moments(g[k], w), rtol=1e-6, scale=dsc, key="compact", detail=det)
        # whole-matrix traces do not depend on eigenvectors; single modes where not degenerate
        for m in groups(w, 1e-6 * sd):
            if np.abs(w[m]).min() > 1e-4 * sd and len(m) == 1:
                mon.close("compact", w[m[0]] * g2[k][m[0]], w[m[0]] * g[k][m[0]], rtol=1e-5, scale=dsc,
                          key="compact", detail=det)
    # sampling modes
    path = np.array([qs[0] + t * (qs[1] - qs[0]) for t in np.linspace(0, 1, 4)])
    path2 = np.array([np.zeros(3), 0.1 * qs[1], 0.3 * qs[1]])
    if rng.integers(2):
        path2 = path2[::-1].copy()
    # through Gamma with a bend: the direction is that of a neighbouring point
    bend = np.array([0.2 * qs[0], 0.1 * qs[0], np.zeros(3), 0.1 * qs[1], 0.3 * qs[1]])
    mesh = [int(x) for x in c["mesh"]]
    rot = p.primitive_symmetry.pointgroup_operations
    cwd = os.getcwd()
    for mode in ("band", "mesh", "qpoints"):
        name = f"r{mode}"
        run_gruneisen_parameters(p.fc2, p.fc3, sc, prim, [path, path2, bend] if mode == "band" else None,
                                 mesh if mode == "mesh" else None, rot,
                                 qs if mode == "qpoints" else None, nac_params=nacp,
                                 nac_q_direction=direction, ion_clamped=c["clamped"], factor=FACTOR,
                                 symprec=1e-5, output_filename=name, log_level=0)
        if mode == "mesh":
            with h5py.File(f"{cwd}/gruneisen.{name}.hdf5") as h:
                q, w = h["qpoint"][()], h["weight"][()]
                t, tr, fr = h["gruneisen_tensor"][()], h["gruneisen"][()], h["frequency"][()]
                mon.equal("mesh", h["mesh"][()], mesh)
            mon.check("mesh", w.sum() == np.prod(mesh), f"{det} weights {w.sum()} mesh {mesh}")
            mon.close("file", tr, np.trace(t, axis1=2, axis2=3) / 3, rtol=1e-10,
                      scale=max(np.abs(t).max(), 1e-9), key="file:trace")
            if direction is None:
                cover(mon, q, w, mesh, rot, det)
            same(mon, rng, Gruneisen, p, sc, prim, kw, q, t, fr, sd, det)
        elif mode == "qpoints":
            d = yaml.safe_load(open(f"{cwd}/gruneisen.{name}.yaml"))
            check_yaml(mon, d["phonon"], qs, g, f, det)
            mon.check("file", d["nqpoint"] == len(qs))
        else:
            d = yaml.safe_load(open(f"{cwd}/gruneisen.{name}.yaml"))
            rec = np.linalg.inv(np.array(prim.cell))
            for pa, dd in zip((path, path2, bend), d["path"]):
                dist = np.r_[0, np.cumsum(np.linalg.norm(np.diff(pa, axis=0) @ rec.T, axis=1))]
                mon.check("file", dd["nqpoint"] == len(pa))
                mon.close("file", [x["distance"] for x in dd["phonon"]], dist, rtol=0, atol=2e-7,
                          key="file:distance")
                kk = dict(kw)
                i0 = [i for i, q in enumerate(pa) if not q.any()]
                if i0:
                    # direction at Gamma: along the path
                    kk["nac_q_direction"] = qs[1]
                O = Gruneisen(p.fc2, p.fc3, sc, prim, **kk)
                O.set_qpoints(pa)
                O.run()
                if pa is bend:
                    kk["nac_q_direction"] = qs[0]
                    O2 = Gruneisen(p.fc2, p.fc3, sc, prim, **kk)
                    O2.set_qpoints(pa)
                    O2.run()
                    if far(dd["phonon"][2], O2, 2) < far(dd["phonon"][2], O, 2):
                        O = O2
                    mon.events["bend"] += 1
                check_yaml(mon, dd["phonon"], pa, np.array(O.get_gruneisen_parameters()),
                           np.array(O._frequencies), det + " band")
    # rotated points
    ops = np.array(p.primitive_symmetry.pointgroup_operations)
    cell = np.array(prim.cell)
    r = ops[int(rng.integers(len(ops)))]
    rec_op = np.linalg.inv(r).T  # acts on reciprocal coordinates
    cart = cell.T @ r @ np.linalg.inv(cell.T)
    q = qs[0]
    rq = np.rint(rec_op) @ q
    O = Gruneisen(p.fc2, p.fc3, sc, prim, **kw)
    O.set_qpoints([q, rq, -q])
    O.run()
    x = np.array(O.get_gruneisen_parameters())
    ff = np.array(O._frequencies)
    w = np.sign(ff) * (ff / FACTOR) ** 2
    if np.abs(np.linalg.det(cart) ** 2 - 1) < 1e-6 and (nacp is None or c["method"] == "gonze"):
        big = max(1e-2 * sd, np.abs(w[0][:, None, None] * x[0]).max())
        mon.close("star", w[1], w[0], rtol=3e-5 if nacp else 1e-8, scale=sd, key="star:frequency", detail=det)
        for m in groups(w[0], 1e-4 * sd):
            if len(m) > 1 and w[0][m[-1]] - w[0][m[0]] > 1e-6 * sd:
                continue
            if np.abs(w[0][m]).min() < 1e-4 * sd:
                continue
            a = (w[0][m][:, None, None] * x[0][m]).sum(axis=0)
            for kk, T in ((1, cart), (2, np.eye(3))):
                b = (w[kk][m][:, None, None] * x[kk][m]).sum(axis=0)
                mon.close("star", b, T @ a @ T.T, rtol=1e-3 if nacp else 3e-5, scale=big * len(m), key="star",
                          detail=f"{det} q {q} -> {'R q' if kk == 1 else '-q'} {r.tolist()}")
    mon.sig("general", c["name"], c["set"], nacp and c["method"], c["clamped"], c["soft"], c["compact"], str(mesh))


def cover(mon, q, w, mesh, rot, det):
    """Weights are the numbers of points of the mesh equivalent to each sampled point."""
    m = np.array(mesh)
    ops = [np.rint(np.linalg.inv(r)).astype(int).T for r in np.array(rot)]
    grid = np.array(np.meshgrid(*[np.arange(x) for x in m], indexing="ij")).reshape(3, -1).T / m
    # mesh is compatible?
    for o in ops:
        x = (grid @ o.T) * m
        if np.abs(x - np.rint(x)).max() > 1e-6:
            return
    seen = {}
    for k, a in enumerate(q):
        orb = set()
        for o in ops:
            for s in (1, -1):
                x = np.rint(s * (o @ a) * m).astype(int) % m
                orb.add(tuple(x))
        for x in orb:
            seen.setdefault(x, []).append(k)
        mon.check("mesh", len(orb) == w[k], f"{det} q {a} weight {w[k]} orbit {len(orb)} mesh {mesh}",
                  key="mesh:orbit")
    mon.check("mesh", len(seen) == len(grid), f"{det} {len(seen)} of {len(grid)} points covered", key="mesh:cover")


def same(mon, rng, cls, p, sc, prim, kw, q, t, fr, sd, det):
    pick = rng.permutation(len(q))[:3]
    O = cls(p.fc2, p.fc3, sc, prim, **kw)
    O.set_qpoints(q[pick])
    O.run()
    x = np.array(O.get_gruneisen_parameters())
    mon.close("modes", t[pick], x, rtol=1e-7, scale=max(1e-6, np.abs(x).max()), key="modes", detail=det)
    mon.close("modes", fr[pick], np.array(O._frequencies), rtol=1e-8, scale=FACTOR * np.sqrt(sd), key="modes:f")


def far(ph, O, k):
    """Distance of a record from the results at point k, groups of degenerate modes summed."""
    f, g = np.array(O._frequencies)[k], np.array(O.get_gruneisen_parameters())[k]
    t = np.array([b["gruneisen_tensor"] for b in ph["band"]])
    out = np.abs(f - [b["frequency"] for b in ph["band"]]).max()
    for m in groups(f, 1e-4):
        if np.abs(f[m]).min() >= 1e-2:
            out = max(out, np.abs(t[m].sum(axis=0) - g[m].sum(axis=0)).max())
    return out


def check_yaml(mon, phonon, qs, g, f, det):
    mon.check("file", len(phonon) == len(qs), f"{det} {len(phonon)}")
    for k, d in enumerate(phonon):
        mon.close("file", d["q-position"], qs[k], rtol=0, atol=6e-8, key="file:q")
        big = np.abs(g[k]).max() + 1
        t = np.array([b["gruneisen_tensor"] for b in d["band"]])
        tr = np.array([b["gruneisen"] for b in d["band"]])
        # members of a degenerate group depend on the choice of eigenvectors
        for m in groups(f[k], 1e-4):
            if np.abs(f[k][m]).min() < 1e-2:
                continue
            mon.close("file", t[m].sum(axis=0), g[k][m].sum(axis=0), rtol=1e-6, atol=6e-8 * len(m), scale=big,
                      key="file:tensor", detail=det)
        mon.close("file", tr, np.trace(t, axis1=1, axis2=2) / 3, rtol=1e-8, atol=1.1e-7, scale=big,
                  key="file:gruneisen", detail=det)
        mon.close("file", [b["frequency"] for b in d["band"]], f[k], rtol=1e-7, scale=np.abs(f[k]).max() + 1,
                  atol=6e-9, key="file:frequency", detail=det)


def pair(c, mon, rng):
    """Crystals of pair potentials phi(r) with phi' = 0 at each bond length, really strained."""
    from phono3py.phonon3.gruneisen import Gruneisen

    s = M.setting(c["name"], c["set"])
    p = M.make_ph3(c["name"], fc=False, **s)
    prim, sc = p.primitive, p.supercell
    n, N = len(prim), len(sc)
    if n * N > 170:
        raise Skip("large")
    lat = np.array(sc.cell)
    import itertools

    L = np.array([x for x in itertools.product(range(-2, 3), repeat=3) if any(x)])
    half = np.linalg.norm(L @ lat, axis=1).min() / 2
    rc = half * 0.999
    bonds = M._neighbours(prim, rc)
    have = {(i) for i, *_ in bonds}
    if len(have) < n:
        raise Skip("too few bonds")
    dmin = min(b[3] for b in bonds)
    k0 = rng.uniform(3, 8)
    sp = {x: rng.uniform(0.8, 1.5) for x in sorted(set(prim.symbols))}
    sym = list(prim.symbols)
    al, be = rng.uniform(1, 2.5), rng.uniform(1, 3)

    def par(i, j, d):
        z = np.sqrt(sp[sym[i]] * sp[sym[j]])
        return k0 * z * np.exp(-al * (d / dmin - 1)), -3 * k0 * z * np.exp(-be * (d / dmin - 1))

    # force constants of the supercell
    scb = M._neighbours(sc, rc)
    s2p = np.array(prim.s2p_map)
    p2p = {int(x): k for k, x in enumerate(prim.p2s_map)}
    kind = [p2p[int(x)] for x in s2p]
    fc2 = np.zeros((N, N, 3, 3))
    fc3 = np.zeros((N, N, N, 3, 3, 3))
    I3 = np.eye(3)
    for i, j, R, d in scb:
        e = R / d
        k, g = par(kind[i], kind[j], d)
        p2 = k * np.outer(e, e)
        P = (I3 - np.outer(e, e)) / d
        p3 = g * np.einsum("a,b,c->abc", e, e, e) + k * (
            np.einsum("ab,c->abc", P, e) + np.einsum("ac,b->abc", P, e) + np.einsum("bc,a->abc", P, e))
        for a, x in ((j, 1), (i, -1)):
            for b, y in ((j, 1), (i, -1)):
                fc2[a, b] += 0.5 * x * y * p2
                for cc, z in ((j, 1), (i, -1)):
                    fc3[a, b, cc] += 0.5 * x * y * z * p3
    m = np.array(prim.masses)
    mm = np.repeat(np.sqrt(m), 3)
    cell = np.array(prim.cell)
    inv = np.linalg.inv(cell)
    pos = np.array(prim.scaled_positions)
    B = []
    for i, j, R, d in bonds:
        k, g = par(i, j, d)
        B.append((i, j, R, d, k, g, np.rint(R @ inv - pos[j] + pos[i])))

    def terms(eps, u):
        """Bonds of the strained crystal: (i, j, new vector, phi', phi'', lattice)."""
        F = np.eye(3) + eps
        for i, j, R, d, k, g, l in B:
            r = F @ R + u[j] - u[i]
            dd = np.linalg.norm(r)
            yield i, j, r, dd, k * (dd - d) + g / 2 * (dd - d) ** 2, k + g * (dd - d), l

    def dyn(q, eps, u):
        D = np.zeros((n, n, 3, 3), complex)
        for i, j, r, d, f1, f2, l in terms(eps, u):
            e = r / d
            h = f2 * np.outer(e, e) + f1 / d * (I3 - np.outer(e, e))
            D[i, i] += h
            D[i, j] -= h * np.exp(2j * np.pi * (l @ q))
        return D.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n) / np.outer(mm, mm)

    def force(eps, u):
        f = np.zeros((n, 3))
        for i, j, r, d, f1, f2, l in terms(eps, u):
            f[i] += f1 * r / d
        return f

    zero = np.zeros((n, 3))
    D0 = dyn(np.zeros(3), np.zeros((3, 3)), zero).real
    w, v = np.linalg.eigh(D0)
    if n > 1 and (np.abs(w[3:]).min() < 3e-3 * np.abs(w).max()):
        if not c["clamped"]:
            raise Skip("free internal coordinate")

    def relax(eps):
        u = zero.copy()
        if c["clamped"] or n == 1:
            return u
        for _ in range(30):
            f = force(eps, u)
            y = v.T @ (f.ravel() / mm)
            y[:3] = 0
            y[3:] /= w[3:]
            du = ((v @ y) / mm).reshape(n, 3)
            u = u + du
            if np.abs(du).max() < 1e-13:
                break
        else:
            raise Skip("no relaxed structure")
        return u

    compact = c["compact"]
    p2s = np.array(prim.p2s_map)
    G = Gruneisen(fc2[p2s] if compact else fc2, fc3[p2s] if compact else fc3, sc, prim,
                  ion_clamped=c["clamped"], factor=FACTOR)
    qs = qset(rng, prim)
    G.set_qpoints(qs)
    G.run()
    gs = np.array(G.get_gruneisen_parameters())
    h = 2e-4
    det = f"pair {c['name']} {c['set']} clamped={c['clamped']} compact={compact}"
    strains = []
    for a, b in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)):
        e = np.zeros((3, 3))
        e[a, b] += 0.5
        e[b, a] += 0.5
        strains.append(e)
    strains.append(np.eye(3))
    relaxed = [(relax(h * e), relax(-h * e)) for e in strains]
    for k, q in enumerate(qs):
        d0 = dyn(q, np.zeros((3, 3)), zero)
        w2 = np.linalg.eigvalsh(d0)
        sd = np.abs(w2).max()
        if sd < 1e-3:
            continue
        fr = np.sign(w2) * np.sqrt(np.abs(w2)) * FACTOR
        got = np.array(G._frequencies)[k]
        mon.close("frequency", got * np.abs(got), fr * np.abs(fr), rtol=1e-8, scale=FACTOR**2 * sd,
                  key="frequency:pair", detail=det)
        gr = groups(w2, 1e-5 * sd)
        for e, (up, um) in zip(strains, relaxed):
            a = np.linalg.eigvalsh(dyn(q, h * e, up))
            b = np.linalg.eigvalsh(dyn(q, -h * e, um))
            # eigenvalues of a group are compared as sums: no crossing between groups
            for m in gr:
                if np.abs(w2[m]).min() < 1e-4 * sd:
                    continue
                lo = min(m)
                hi = max(m)
                gap = min(w2[lo] - w2[lo - 1] if lo else np.inf,
                          w2[hi + 1] - w2[hi] if hi + 1 < len(w2) else np.inf)
                if gap < 0.02 * sd:
                    continue
                want = (a[m].sum() - b[m].sum()) / (2 * h)
                g = (-2 * w2[m][:, None, None] * gs[k][m]).sum(axis=0)
                mon.close("pair", np.sum(g * e), want, rtol=1e-3, scale=len(m) * sd * 3, key="pair",
                          detail=f"{det} q {q} modes {m} strain {e.tolist()}")
        for m in gr:
            if np.abs(w2[m]).min() < 1e-4 * sd:
                continue
            g = (-2 * w2[m][:, None, None] * gs[k][m]).sum(axis=0)
            # a rotation changes no frequency
            mon.close("pair-rotation", g - g.T, np.zeros((3, 3)), rtol=0, atol=1e-7 * sd * len(m),
                      key="pair-rotation", detail=f"{det} q {q} modes {m}")
    mon.sig("pair", c["name"], c["set"], c["clamped"], compact)
