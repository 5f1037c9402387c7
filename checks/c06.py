"""C06: interaction strength vs. brute-force Fourier transform of fc3."""

import numpy as np

from harness import ph
from harness.core import Skip

PROP = "C06"
RULE = (
    "random crystal, supercell, mesh (regular or generalized-regular), NAC, full/compact fc3, "
    "r0 average, fc3q symmetrisation, work distribution, frequency cutoff; the strengths of "
    "sampled triplets are compared element by element with a brute-force Fourier transform; "
    "distinct by (crystal, supercell, mesh, options, number of triplets)"
)
REQUIRED = {"strength": 20000, "umklapp": 40, "cutoff-zero": 100, "compact": 5000,
            "distribution": 5000, "gzero": 2000, "sym": 5000, "python": 500, "average": 100}


def cases(tier, rng):
    n = 90 if tier == "quick" else 900
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4 if tier == "quick" else 6, max_atoms=4 if i % 8 else 6)
        c["sym"] = bool(rng.random() < 0.4)
        c["cutf"] = [1e-4, 1e-4, 1.5, 4.0][int(rng.integers(4))]
        c["ms"] = bool(rng.integers(2))
        if rng.random() < 0.2:
            c["phdim"] = "big"
        c["py"] = i % 6 == 0
        if c["py"]:  # a configuration the Python route supports
            c = {**ph.gen(rng, max_mesh=3, max_atoms=2, grg=0, min_mesh=2), "sym": False,
                 "cutf": c["cutf"], "ms": True, "py": True}
            c["r0"] = c["compact"] = False
        out.append(c)
    return out


def run(c, mon):
    from harness import models as M

    rng = np.random.default_rng(c["seed"])
    if c.get("phdim") == "big":
        d = M.DIMS[c["name"]][c["set"]][1]
        if np.prod(d) > 8 or M.NATOM[c["name"]] > 2:
            c.pop("phdim")
        else:
            c["phdim"] = [x + 1 for x in d]
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    p3.init_phph_interaction(symmetrize_fc3q=c["sym"])
    itr = p3.phph_interaction
    ng = ph.ngrid(p3)
    N = len(p3.grid.addresses)
    gps = {int(rng.choice(ph.ir_gps(p3)))}
    if c["ms"]:
        gps.add(int(rng.integers(N)))
    else:
        gps.add(int(np.array(p3.grid.grg2bzg)[rng.integers(ng)]))
    gps = [g for g in gps if not (c["ms"] and g not in set(np.array(p3.grid.grg2bzg).tolist()))]
    ora = ph.Oracle(p3)
    cut = c["cutf"]
    # natural magnitude of a strength (values vanishing by symmetry are rounding noise)
    nat = ph.unit(ng) * (max(np.abs(p3.fc3).max(), 1.0) / ora.masses.min() ** 1.5) ** 2
    for gp in gps:
        itr.set_grid_point(gp)
        itr.run()
        f, e, _ = itr.get_phonons()
        v = np.array(itr.interaction_strength)
        t, w = itr.get_triplets_at_q()[:2]
        nb = v.shape[-1]
        mon.check("finite", np.isfinite(v).all() and (v >= 0).all(), f"{v.min()}", n=v.size)
        pick = rng.choice(len(t), size=min(len(t), 8), replace=False)
        adr = np.array(p3.grid.addresses)
        um = [k for k in range(len(t)) if adr[t[k]].sum(axis=0).any()][:4]
        mon.events["umklapp"] += len(um)
        scale = max(v.max(), nat * 1e-12)
        for k in sorted(set(pick.tolist()) | set(um)):
            tr = t[k]
            q = [ph.qpoint(p3, g) for g in tr]
            want = ora.phi2(q, [f[g] for g in tr], [e[g] for g in tr], cut, ng, sym=c["sym"])
            mon.close("strength", v[k], want, rtol=2e-6, atol=1e-9 * scale,
                      detail=f"gp {gp} triplet {tr} {adr[tr].tolist()}",
                      key="sym-strength" if c["sym"] else "strength")
            low = ~((f[tr[0]] > cut)[:, None, None] & (f[tr[1]] > cut)[:, None]
                    & (f[tr[2]] > cut))
            mon.check("cutoff-zero", (v[k][low] == 0).all(), f"{v[k][low].max() if low.any() else 0}",
                      n=int(low.sum()))
            if c["sym"]:
                mon.events["sym"] += v[k].size
        # averaged interaction
        av = itr.averaged_interaction
        mon.close("average", av, np.einsum("t,tijk->i", w, v) / nb**2, rtol=1e-10)
        # work distribution, compact/full
        for key, kw, other in (
                ("distribution", {"openmp_per_triplets": True}, None),
                ("distribution", {"openmp_per_triplets": False}, None),
                ("compact", {}, not c["compact"])):
            pp = p3 if other is None else ph.build({**c, "compact": other})
            pp.init_phph_interaction(symmetrize_fc3q=c["sym"], **kw)
            i2 = pp.phph_interaction
            i2.set_phonon_data(f, e, p3.grid.addresses)
            i2.set_grid_point(gp)
            if (i2.get_phonons()[2] == 0).any() or (adr[gp] == 0).all():
                # Gamma was solved again by set_grid_point; keep the same gauge
                i2.get_phonons()[1][:] = e
                i2.get_phonons()[0][:] = f
            i2.run()
            mon.close(key, i2.interaction_strength, v, rtol=1e-9, detail=f"gp {gp} {kw}")
        # positions that need not be computed
        if not c["sym"]:
            gz = (rng.random(v.shape) < 0.5).astype("byte")
            itr.run(g_zero=gz)
            v2 = np.array(itr.interaction_strength)
            mon.check("gzero", (v2[gz == 1] == 0).all(), "value at skipped position", n=int(gz.sum()))
            mon.close("gzero", v2[gz == 0], v[gz == 0], rtol=1e-12, scale=scale)
            if c["py"]:
                itr.run(lang="Python")
                v3 = np.array(itr.interaction_strength)
                ok = range(len(t))
                mon.close("python", v3[ok], v[ok], rtol=1e-7, scale=scale)
        mon.sig(c["name"], c["set"], tuple(np.array(p3.mesh_numbers).tolist()), c["compact"],
                c["r0"], c["sym"], c["nac"], c["cutf"], len(t))
    ph.older_names(mon, itr)
    const = float(rng.uniform(1e-12, 1e-8))
    p3.init_phph_interaction(constant_averaged_interaction=const)
    p3.phph_interaction.set_grid_point(gps[0])
    p3.phph_interaction.run()
    mon.close("average", p3.phph_interaction.interaction_strength, const / ng, rtol=1e-12)
