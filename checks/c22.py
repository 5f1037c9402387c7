"""C22: group velocities and velocity operators are the gradients of the phonon bands."""

import itertools

import numpy as np

from checks.c21 import Own
from harness import gridgen as G
from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C22"
RULE = (
    "random crystal, fc2 supercell, mesh or generalized grid, NAC (none, Gonze-Lee, Wang), finite "
    "difference length, band selection, irreducible / chosen / all grid points, relaxation-time, "
    "direct, Wigner and Green-Kubo classes; velocities are compared over sets of close modes with "
    "derivatives of an independent dynamical matrix; distinct by (crystal, grid, NAC, class, "
    "grid-point choice, length)"
)
REQUIRED = {"gradient": 2000, "trim": 50, "gvgv": 500, "invariant": 200, "star": 5, "hermitian": 50,
            "operator": 200, "operator-gvgv": 100, "kubo": 200, "order": 100, "gonze": 20, "wang": 20,
            "subset": 20, "lbte": 10, "fd": 20}


def cases(tier, rng):
    n = 220 if tier == "quick" else 2000
    out = []
    for i in range(n):
        names = list(M.POLAR) if rng.random() < 0.4 else None
        c = ph.gen(rng, max_mesh=4, max_atoms=6, nac=0.9 if names else 0.0, names=names)
        c["kind"] = ["rta", "wigner", "rta", "kubo", "rta", "wigner", "lbte", "wlbte"][i % 8]
        c["wang"] = bool(rng.random() < 0.5)
        c["gps"] = ["ir", "pick", "all", "bands"][int(rng.integers(4))]
        c["dq"] = [None, None, None, 1e-5, 1e-3][int(rng.integers(5))]
        c["ms"] = bool(rng.random() < 0.85)
        c["unit"] = bool(rng.random() < 0.15)
        if c["kind"] == "wigner":
            c["soft"] = 0.0
        if "lbte" in c["kind"]:
            c["soft"], c["ms"] = 0.0, True
            if M.NATOM[c["name"]] > 2:
                c["name"], c["set"], c["nac"] = "zincblende", 0, bool(rng.integers(2))
                c["mesh"], c["grg"] = [2 + int(rng.integers(2))] * 3, False
        if rng.random() < 0.3 and "lbte" not in c["kind"]:
            prim, _ = M.DIMS[c["name"]][c["set"] % len(M.DIMS[c["name"]])]
            ds = [d for p, d in M.DIMS[c["name"]] if p == prim]
            c["phdim"] = [int(x) for x in ds[int(rng.integers(len(ds)))]]
        out.append(c)
    return out


def clusters(f, tol=2e-3):
    s = [[0]]
    for i in range(1, len(f)):
        if f[i] - f[i - 1] < tol:
            s[-1].append(i)
        else:
            s.append([i])
    return s


class Deriv:
    def __init__(self, own, cell, step):
        self.own, self.A, self.h = own, np.array(cell), step
        self.cache = {}

    def D(self, q):
        return self.own(q, None, False)

    def __call__(self, q):
        out = []
        for i in range(3):
            e = self.A[:, i]  # change of the scaled q-point per unit Cartesian step
            if self.h is None:
                h = 2e-4
                d = (8 * (self.D(q + h * e) - self.D(q - h * e))
                     - (self.D(q + 2 * h * e) - self.D(q - 2 * h * e))) / (12 * h)
            else:
                d = (self.D(q + self.h * e) - self.D(q - self.h * e)) / (2 * self.h)
            out.append(d)
        return np.array(out)

    def sqrt(self, q):
        w, v = np.linalg.eigh(self.D(q))
        return (v * np.sqrt(w)) @ v.conj().T

    def dsqrt(self, q, h):
        return np.array([(self.sqrt(q + h * self.A[:, i]) - self.sqrt(q - h * self.A[:, i])) / (2 * h)
                         for i in range(3)])


PAIRS = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


def velocities(tc):
    """The Wigner and Green-Kubo classes keep the diagonal part without a property."""
    v = getattr(tc, "group_velocities", None)
    if v is None:
        v = getattr(tc, "_gv", None)
    return None if v is None else np.array(v)


def run(c, mon):
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
    from phonopy.physical_units import get_physical_units

    rng = np.random.default_rng(c["seed"])
    fac = get_physical_units().DefaultToTHz
    kw = {}
    if c["unit"]:
        fac = fac * 1.7
        kw["frequency_factor_to_THz"] = fac
    p3 = ph.build(c, **kw)
    if p3 is None:
        raise Skip("mesh refused")
    if len(p3.grid.addresses) > 300:
        raise Skip("large")
    nacp = p3.nac_params
    if nacp is not None:
        nacp = dict(nacp, method="wang" if c["wang"] else "gonze")
        p3.nac_params = nacp
    gonze = nacp is not None and not c["wang"]
    wang = nacp is not None and c["wang"]
    kind = c["kind"]
    lbte = "lbte" in kind
    nb = 3 * len(p3.primitive)
    grid = p3.grid
    nbz = len(grid.addresses)
    bi = np.arange(nb)
    opt = {}
    if not lbte and c["gps"] in ("pick", "bands"):
        opt["grid_points"] = np.unique(rng.choice(nbz, size=min(nbz, 8)))
        if c["gps"] == "bands":
            bi = np.sort(rng.choice(nb, size=int(rng.integers(1, nb)), replace=False))
            cut = int(rng.integers(1, len(bi) + 1))
            p3.band_indices = [x.tolist() for x in (bi[:cut], bi[cut:]) if len(x)]
    elif c["gps"] == "all":
        opt["is_kappa_star"] = False
    if lbte:
        if len(ph.ir_gps(p3)) > 30 or nbz > 130:
            raise Skip("large for LBTE")
        opt["is_LBTE"] = True
        if c["gps"] in ("all", "bands"):
            opt["is_reducible_collision_matrix"] = True
        p3.sigmas = [0.8]
        p3.init_phph_interaction()
    else:
        p3.sigmas = [0.5]
        p3.init_phph_interaction(constant_averaged_interaction=1e-12)
    if kind in ("wigner", "kubo", "wlbte"):
        opt["conductivity_type"] = "kubo" if kind == "kubo" else "wigner"
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    dataset = None
    if gonze:
        ref = get_dynamical_matrix(p3.fc2, sc, prim, nac_params=nacp)
        if ref.Gonze_nac_dataset[0] is None:
            ref.make_Gonze_nac_dataset()
        dataset = ref.Gonze_nac_dataset
    own = Own(prim, sc, np.array(p3.fc2), nacp, c["wang"], dataset)
    try:
        p3.run_thermal_conductivity(temperatures=[300], gv_delta_q=c["dq"], **opt)
    except RuntimeError as e:
        if "symmetry" in str(e) or "ncommensurate" in str(e):
            raise Skip(str(e)[:60])
        raise
    tc = p3.thermal_conductivity
    reducible = bool(opt.get("is_reducible_collision_matrix"))
    gv = velocities(tc)
    gps = np.array(grid.grg2bzg if reducible else tc.grid_points)
    if gv is None:
        raise Skip("no velocities kept")
    what = f"{kind} {'gonze' if gonze else 'wang' if wang else 'none'} dq={c['dq']} {c['gps']}"
    det = f"{c['name']} {what} mesh={c['mesh']} ms={c['ms']}"
    mon.check("shape", gv.shape == (len(gps), len(bi), 3), f"{det} {gv.shape}")
    step = c["dq"]
    if step is None and gonze:
        step = 1e-5
    if step is not None:
        mon.events["fd"] += 1
    if nacp is not None:
        mon.events["gonze" if gonze else "wang"] += 1
    if len(bi) < nb:
        mon.events["subset"] += 1
    if lbte:
        mon.events["lbte"] += 1
    dv = Deriv(own, prim.cell, step)
    A = np.array(prim.cell)
    B = np.linalg.inv(A)
    pgr = G.point_group(G.dataset(prim), tr=True)
    cart = [B @ np.array(r) @ A for r in pgr]  # acting on reciprocal vectors B q
    cart = [x for x in cart]
    addr = np.array(grid.addresses)
    QDinv = np.array(grid.QDinv)
    qs = [QDinv @ addr[g] for g in gps]
    dmax = max([1e-6] + [np.abs(dv.D(q)).max() for q in qs[:4] if np.abs(q).max() > 1e-9])
    L = 10.0
    tol = 3e-5 if step is not None or kind in ("wigner", "wlbte") else 1e-7
    oper = None
    if kind in ("wigner", "wlbte") and not reducible:
        oper = np.array(tc.velocity_operator)
    imaginary = False
    total_star = np.zeros(6)
    for k, (g, q) in enumerate(zip(gps, qs)):
        gamma = not addr[g].any()
        D = own(q, None, gamma)
        w, e = np.linalg.eigh(D)
        f = np.sign(w) * np.sqrt(np.abs(w)) * fac
        imaginary |= f[0] < -1e-3
        # order of bands
        if not reducible:
            fr = np.array(tc.frequencies)[k]
            mon.close("order", fr, f[bi] if len(fr) == len(bi) else f, rtol=0,
                      atol=1e-5 * np.sqrt(dmax) * fac + 2e-3 * gamma, key="order", detail=det)
        # time-reversal invariant points have no velocity
        trim = np.abs(2 * q - np.rint(2 * q)).max() < 1e-9
        zero = np.abs(2 * (q - np.rint(q))).max() < 1e-9
        if kind in ("rta", "lbte") and zero:
            mon.close("trim", gv[k], 0 * gv[k], rtol=0, atol=1e-5, key="trim", detail=f"{det} q {q}")
        for n, b in enumerate(bi):
            if f[b] < 5e-5 and kind in ("rta", "lbte") and not gamma:
                mon.check("cutoff", not gv[k, n].any(), f"{det} velocity of imaginary mode {gv[k, n]}")
        if gamma or (wang and (trim or np.abs(np.rint(q)).any() or len(addr) > 0 and
                               np.abs(q).max() > 0.5 - 1e-6)):
            continue
        d = dv(q)
        if kind in ("wigner", "wlbte"):
            if f[0] < 0.05:
                continue
            h = c["dq"] or 5e-6
            S = dv.dsqrt(q, h) * fac
            V = np.array([e.conj().T @ x @ e for x in S])
        sets = clusters(f)
        for s in sets:
            if f[s[0]] < 0.05 or not set(s) <= set(bi.tolist()):
                continue
            idx = [int(np.where(bi == x)[0][0]) for x in s]
            if kind in ("wigner", "wlbte"):
                want = np.array([np.trace(x[np.ix_(s, s)]).real for x in V])
                got = gv[k, idx].sum(axis=0)
                scale = dmax * L * fac ** 2 / f[s].mean()
            else:
                P = e[:, s]
                want = np.array([np.trace(P.conj().T @ x @ P).real for x in d]) * fac ** 2 / 2
                got = (gv[k, idx] * f[s][:, None]).sum(axis=0)
                scale = dmax * L * fac ** 2
            # modes that are close but not degenerate mix within the finite precision
            t = tol if f[s[-1]] - f[s[0]] < 1e-5 else max(tol, 1e-3 / f[s].mean())
            mon.close("gradient", got, want, rtol=t, scale=scale, key=f"gradient:{kind}",
                      detail=f"{det} gp {g} q {q} modes {s}")
        O = None
        if oper is not None:
            O = oper[k]
        elif kind == "kubo" and f[0] > 0.05 and getattr(tc, "_gv_mat", None) is not None:
            O = np.array(tc._gv_mat)[k]
            V = np.array([e.conj().T @ x @ e for x in d]) * fac ** 2 / 2
            V = V / np.sqrt(np.outer(f, f))
        if O is not None:
            for s, t_ in itertools.product(sets, sets):
                if not set(s) <= set(bi.tolist()):
                    continue
                idx = [int(np.where(bi == x)[0][0]) for x in s]
                if f[s[-1]] - f[s[0]] > 1e-5 or f[t_[-1]] - f[t_[0]] > 1e-5:
                    continue
                Vs = V[:, s][:, :, t_]
                Os = O[idx][:, t_].transpose(2, 0, 1)
                scale = (dmax * L * fac ** 2 / (f[s].mean() + f[t_].mean())) ** 2
                mon.close("operator", np.einsum("aij,bij->ab", Os, Os.conj()),
                          np.einsum("aij,bij->ab", Vs, Vs.conj()), rtol=tol, scale=scale,
                          key=f"operator:{kind}", detail=f"{det} gp {g} modes {s} {t_}")
    # ------------------------------------------------- outer products over the star
    full = opt.get("is_kappa_star", True)
    for k, (g, q) in enumerate(zip(gps, qs)):
        if reducible:
            break
        if not full:
            rot, order = [np.eye(3)], 1
        else:
            ops = pgr
            arms = {}
            for r in ops:
                x = np.array(r) @ q
                arms.setdefault(tuple((np.rint((x - np.floor(x + 1e-9)) * 1e6).astype(int) % 1000000)
                                      .tolist()), r)
            order = len(arms)
            rot = [B @ np.array(r) @ A for r in ops]
        if kind in ("rta", "lbte"):
            want = np.zeros((len(bi), 3, 3))
            for r in rot:
                v = gv[k] @ r.T
                want += v[:, :, None] * v[:, None]
            want *= order / len(rot)
            got = np.array(tc.gv_by_gv)[k]
            for n, (a, b) in enumerate(PAIRS):
                mon.close("gvgv", got[:, n], want[:, a, b], rtol=1e-8, scale=max(1e-12, np.abs(want).max()),
                          key="gvgv", detail=f"{det} gp {g} component {n}")
            if full:
                t = np.zeros((len(bi), 3, 3))
                for n, (a, b) in enumerate(PAIRS):
                    t[:, a, b] = t[:, b, a] = got[:, n]
                for r in rot:
                    mon.close("invariant", r @ t @ r.T, t, rtol=1e-7, scale=max(1e-12, np.abs(t).max()),
                              key="invariant", detail=f"{det} gp {g}")
            total_star += got.sum(axis=0)
        elif oper is not None:
            O = oper[k]
            want = np.zeros((len(bi), nb, 3, 3), complex)
            for r in rot:
                v = O @ r.T
                want += v[..., :, None] * v[..., None, :].conj()
            want *= order / len(rot)
            got = np.array(tc.gv_by_gv_operator)[k]
            for n, (a, b) in enumerate(PAIRS):
                mon.close("operator-gvgv", got[..., n], want[..., a, b], rtol=1e-8,
                          scale=max(1e-12, np.abs(want).max()), key="operator-gvgv",
                          detail=f"{det} gp {g} component {n}")
            sq = O[:, bi] if len(bi) == nb else None
            if sq is not None:
                mon.close("hermitian", sq, sq.transpose(1, 0, 2).conj(), rtol=1e-10,
                          scale=max(1e-12, np.abs(sq).max()), key="hermitian", detail=det)
        elif kind == "kubo":
            gm = np.array(tc._gv_mat)[k] if hasattr(tc, "_gv_mat") else None
            if gm is not None:
                mon.close("kubo", np.array([gm[n, b].real for n, b in enumerate(bi)]), gv[k], rtol=1e-10,
                          scale=1.0, key="kubo:diag", detail=det)
                g2 = getattr(tc, "_gv_mat_sum2", None)
                w = np.linalg.eigvalsh(own(q, None, not addr[g].any()))
                f = np.sign(w) * np.sqrt(np.abs(w)) * fac
                if g2 is not None and len(bi) == nb and f[0] > 0.05 and not wang:
                    sets = clusters(f)
                    for s, t_ in itertools.product(sets, sets):
                        if f[s[-1]] - f[s[0]] > 1e-5 or f[t_[-1]] - f[t_[0]] > 1e-5:
                            continue
                        blk = np.einsum("ija,ijb->ab", gm[s][:, t_], gm[s][:, t_].conj())
                        want = sum(r @ blk @ r.T for r in rot) * order / len(rot)
                        got = np.array(g2)[k][s][:, t_].sum(axis=(0, 1))
                        for n, (a, b) in enumerate(PAIRS):
                            mon.close("kubo", got[n].real, want[a, b].real,
                                      rtol=2e-2 if c["dq"] == 1e-3 else 1e-4,
                                      scale=max(1e-3, np.abs(gm).max() ** 2), key="kubo:gvgv",
                                      detail=f"{det} gp {g} modes {s} {t_} component {n}")
                if len(bi) == nb:
                    mon.close("hermitian", gm, gm.transpose(1, 0, 2).conj(), rtol=1e-10,
                              scale=max(1e-12, np.abs(gm).max()), key="hermitian", detail=det)
    # ------------------------------------- sum over all points equals sum over stars
    if kind == "rta" and c["gps"] == "ir" and nbz < 150 and not wang:
        p3.run_thermal_conductivity(temperatures=[300], gv_delta_q=c["dq"], is_kappa_star=False)
        t2 = p3.thermal_conductivity
        # degenerate modes are resolved along a fixed direction: only separate bands are compared
        sums = []
        for t in (tc, t2):
            fr = np.array(t.frequencies)
            gap = np.diff(fr, axis=1) > 5e-3
            one = np.ones((len(fr), 1), bool)
            sep = np.hstack([one, gap]) & np.hstack([gap, one])
            sums.append((np.array(t.gv_by_gv) * sep[:, :, None]).sum(axis=(0, 1)))
        mon.close("star", sums[0], sums[1], rtol=1e-4,
                  scale=max(1e-6, np.abs(np.array(t2.gv_by_gv)).max()), key="star", detail=det)
        gv2 = np.array(t2.group_velocities)
        # the reversed mode travels in the opposite direction
        mon.close("balance", gv2.sum(axis=(0, 1)), np.zeros(3), rtol=0,
                  atol=1e-4 * max(1e-5, np.abs(gv2).max()) * len(gv2), key="balance", detail=det)
    mon.sig(c["name"], tuple(np.array(p3.mesh_numbers).tolist()), what, c["ms"], c["set"], c["compact"])
