"""C27: cumulative properties end at their totals and match their derivatives."""

import numpy as np

from harness import cli
from harness import ph, refs
from harness.core import Skip

PROP = "C27"
RULE = (
    "kappa, phonon and Grueneisen files of random crystals, meshes and generalized grids, with and "
    "without symmetry of the grid points; phono3py-kaccum runs for every property, axis, format, "
    "temperature and number of points, and the library functions at random sampling points; "
    "totals, linear tetrahedron values at every printed point, derivative against cumulative; "
    "distinct by (crystal, grid, option)"
)
REQUIRED = {"total": 200, "tensor": 1000, "scalar": 1000, "mfp": 300, "derivative": 200,
            "monotone": 50, "smearing": 100, "phonon-file": 5, "gruneisen": 3, "columns": 100,
            "temperature": 30, "nosym": 10}


def cases(tier, rng):
    n = 180 if tier == "quick" else 1200
    out = []
    for i in range(n):
        c = ph.gen(rng, max_mesh=4, max_atoms=3, nac=0.3, min_mesh=2, grg=0.3)
        c["snf"] = "reciprocal"
        c["kstar"] = bool(rng.random() < 0.7)
        c["lbte"] = bool(rng.random() < 0.15)
        c["T"] = [[300.0], [100.0, 300.0], [77.0, 500.0, 1000.0]][int(rng.integers(3))]
        out.append(c)
    return out


def parse(text):
    """[(label, rows)] blocks of numbers."""
    blocks = []
    cur, label = [], None
    for line in text.splitlines():
        if line.startswith("# "):
            if line.endswith(" K"):
                label = line[2:-2]
            continue
        w = line.split()
        if not w:
            if cur:
                blocks.append((label, np.array(cur)))
            cur = []
            continue
        try:
            cur.append([float(x) for x in w])
        except ValueError:
            continue
    if cur:
        blocks.append((label, np.array(cur)))
    return blocks


TG = {}


def load_cell(name):
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    y = Phono3pyYaml()
    y.read(name)
    return np.array(y.primitive.cell)


class Sums:
    """Linear tetrahedron sums over representatives."""

    def __init__(self, grid, values, prop, irgr, irmap):
        """values [ir, band], prop [ir, band, ...] (star sums included), irmap GR -> ir index."""
        self.N = int(np.prod(np.array(grid.D_diag)))
        tet = ph.Tetra(TG["x"])
        addr = np.array(grid.addresses)[np.array(grid.grg2bzg)[irgr]]
        full = values[irmap]
        v = full[tet.G.gr_index(addr[:, None, None] + tet.rel, tet.D)]  # ir, 24, 4, band
        self.v = np.moveaxis(v, -1, 1)
        self.kn = np.sort(np.concatenate([self.v[..., :1], self.v], axis=-1), axis=-1)
        self.prop = prop

    def at(self, x, function, eps=1e-6):
        """(lo, hi) including ties."""
        fun = refs.bspline_M if function == "I" else refs.bspline_C
        a = np.array([fun(y, self.kn) for y in (x - eps, x, x + eps)])
        tie = (np.abs(self.v - x) < 2 * eps).any(axis=-1)
        lo = np.where(tie, 0, a.min(axis=0)).mean(axis=-1)[..., None] * self.prop
        hi = a.max(axis=0).mean(axis=-1)[..., None] * self.prop
        return (np.minimum(lo, hi).sum(axis=(0, 1)) / self.N, np.maximum(lo, hi).sum(axis=(0, 1)) / self.N)


def run(c, mon):
    import h5py

    from phono3py.file_IO import write_phonon_to_hdf5
    from phono3py.other.kaccum import GammaDOSsmearing, KappaDOSTHM, get_mfp
    from phono3py.phonon.grid import BZGrid, get_ir_grid_points
    from phono3py.phonon3.gruneisen import run_gruneisen_parameters

    rng = np.random.default_rng(c["seed"])
    p = ph.build(c)
    if p is None:
        raise Skip("mesh refused")
    nb = 3 * len(p.primitive)
    N = ph.ngrid(p)
    if N * nb**3 > 12000 * (0.3 if c["lbte"] else 1):
        raise Skip("large")
    det = f"{c['name']} {c['mesh']} kstar={c['kstar']}"
    p.sigmas = [0.4]
    p.init_phph_interaction()
    p.save("phono3py.yaml")
    T = c["T"]
    kw = {}
    if c["lbte"]:
        kw = dict(is_LBTE=True)
    p.run_thermal_conductivity(temperatures=T, write_kappa=True, is_full_pp=True, is_kappa_star=c["kstar"], **kw)
    import glob

    name = glob.glob("kappa-m*.hdf5")
    mon.check("file", len(name) == 1, f"{det} {name}")
    name = name[0]
    grid = p.grid
    gr2bz = np.array(grid.grg2bzg)
    with h5py.File(name) as h:
        K = {k: h[k][()] for k in h.keys()}
    f, w = K["frequency"], K["weight"]
    if (f < -0.01).any():
        mon.events["imaginary"] += 1
    # the division into tetrahedra may depend on the last digits of the lattice read from the file
    cell = load_cell("phono3py.yaml")
    tg = BZGrid(K["grid_matrix"] if "grid_matrix" in K else K["mesh"], lattice=cell,
                symmetry_dataset=p.primitive_symmetry.dataset, store_dense_gp_map=True)
    mon.check("file", np.array_equal(tg.addresses, grid.addresses) and np.array_equal(tg.Q, grid.Q),
              f"{det} grid rebuilt from the file differs")
    TG["x"] = tg
    irgr = np.array(grid.bzg2grg)[K["grid_point"]]
    mon.equal("file", irgr, np.array(grid.bzg2grg)[np.array(p.thermal_conductivity.grid_points)])
    if (w == 1).all():
        irmap = np.zeros(N, dtype=int)
        irmap[irgr] = np.arange(len(irgr))
        mon.events["nosym"] += 1
    else:
        m = get_ir_grid_points(grid)[2]
        pos = {int(g): k for k, g in enumerate(irgr)}
        irmap = np.array([pos[int(x)] for x in m])
    ff = np.where(f > 0, f, 0) if (f <= 0).sum() > 3 else f
    nT = len(T)

    def kaccum(*a, file=name):
        code, out = cli.call(*a, file, script="phono3py-kaccum")
        mon.check("run", code == 0, f"{det} {a} exit {code}")
        return parse(out)

    def points(v, n):
        return np.linspace(v.min(), v.max() + 1e-8, n)

    def compare(clause, rows, cum, der, S, prec, key, rel=0.0):
        """rows: x, cumulative columns, derivative columns."""
        nel = (rows.shape[1] - 1) // 2
        tot = S.prop.sum(axis=(0, 1)) / S.N
        big = max(np.abs(S.prop).sum() / S.N, 1e-12)
        for r in rows:
            x = r[0]
            for fn, got, prj in (("J", r[1:1 + nel], cum), ("I", r[1 + nel:], der)):
                # printed abscissa is rounded
                lo, hi = S.at(x, fn, max(prec, 1e-6))
                lo, hi = prj(lo), prj(hi)
                slack = 1.01 * prec + 2e-6 * big + rel * np.maximum(np.abs(lo), np.abs(hi))
                if fn == "I":
                    slack = slack + 2e-6 * np.abs(hi).max()
                    if np.abs(hi).max() > 1e3 * max(big, 1e-9):
                        continue
                bad = (got < lo - slack) | (got > hi + slack)
                mon.check(clause, not bad.any(), lambda: f"{det} {key} {fn} at {x}: {got} want {lo}..{hi}",
                          n=len(got), key=f"{clause}:{key}:{fn}")
        got = rows[-1, 1:1 + nel]
        want = cum(tot)
        mon.check("total", (np.abs(got - want) <= 1.01 * prec + 1e-6 * big + rel * np.abs(want)).all(),
                  lambda: f"{det} {key} ends at {got}, total {want}", n=nel, key=f"total:{key}")

    def same(x):
        return x

    def trace(x):
        return np.array([x[:3].sum()])

    def third(x):
        return trace(x) / 3

    kap = K["kappa"].reshape(nT, 6)
    nsp = int(rng.integers(3, 9))
    # ----- tensors
    mk = K["mode_kappa"].reshape(nT, len(f), nb, 6)
    opts, prj, prec = [([], same, 1e-6), (["--average"], third, 1e-5), (["--trace"], trace, 1e-5)][
        int(rng.integers(3))]
    for sub in ((None, T[int(rng.integers(nT))]) if nT > 1 else (None,)):
        a = list(opts) + ["--nsp", nsp]
        tt = list(range(nT))
        if sub is not None:
            a += ["--temperature", sub]
            tt = [T.index(sub)]
        b = kaccum(*a)
        mon.check("temperature", [x[0] for x in b] == ["%d" % T[t] for t in tt], f"{det} {a} {[x[0] for x in b]}")
        for (lab, rows), t in zip(b, tt):
            mon.check("columns", rows.shape == (nsp, 13 if not opts else 3), f"{det} {a} {rows.shape}")
            mon.close("columns", rows[:, 0], points(ff, nsp), rtol=0, atol=1.01 * prec, key="points", detail=det)
            S = Sums(grid, ff, mk[t], irgr, irmap)
            compare("tensor", rows, prj, prj, S, prec, "kappa" + "".join(opts))
            if not c["lbte"]:
                mon.check("total", np.allclose(rows[-1, 1:1 + (rows.shape[1] - 1) // 2], prj(kap[t]), rtol=1e-5,
                          atol=2 * prec + 1e-6 * np.abs(kap[t]).max()), f"{det} kappa {kap[t]} {rows[-1]}",
                          key="total:kappa-value")
        if sub is None and nT > 1 and rng.random() < 0.5:
            continue
    b = kaccum("--gv", "--nsp", nsp)
    g2 = K["gv_by_gv"] / p.primitive.volume
    S = Sums(grid, ff, g2, irgr, irmap)
    compare("tensor", b[0][1], same, same, S, 1e-6, "gv")
    # ----- mean free path
    if rng.random() < 0.6:
        g = K["gamma"].reshape(nT, len(f), nb)
        gv = K["group_velocity"]
        mfp = np.where(g > 0, np.linalg.norm(gv, axis=2) / (4 * np.pi * np.where(g > 0, g, 1)), 0)
        # linewidths may underflow
        fin = (g == 0) | (g > 1e-250)
        mon.close("mfp", np.array([get_mfp(x, gv) for x in g])[fin], mfp[fin], rtol=1e-10,
                  scale=max(mfp[fin].max(), 1e-9), key="mfp:function")
        if "mean_free_path" in K:
            mfp = np.linalg.norm(K["mean_free_path"].reshape(nT, len(f), nb, 3), axis=3)
        if mfp.max() < 1e9:
            b = kaccum("--mfp", *opts, "--nsp", nsp)
            for t, (lab, rows) in enumerate(b):
                S = Sums(grid, mfp[t], mk[t], irgr, irmap)
                pr = prec
                x = points(mfp[t], nsp)
                mon.close("columns", rows[:, 0], x, rtol=1e-9, atol=1.01 * prec, key="points:mfp", detail=det)
                # values cover many magnitudes: use the exact abscissa where the printed one is coarse
                rows = np.c_[x, rows[:, 1:]]
                compare("mfp", rows, prj, prj, S, pr, "mfp", rel=1e-5)
    # ----- scalars
    gam = K["gamma"].reshape(nT, len(f), nb)
    sc = {"--gamma": gam, "--tau": np.where(gam > 0, 1 / (4 * np.pi * np.where(gam > 0, gam, 1)), 0),
          "--dos": np.ones((1,) + f.shape), "--gv-norm": np.linalg.norm(K["group_velocity"], axis=2)[None]}
    if "heat_capacity" in K:
        sc["--cv"] = K["heat_capacity"].reshape(nT, len(f), nb)
    if "ave_pp" in K:
        sc["--pqj"] = K["ave_pp"].reshape((1,) + f.shape)
    keys = sorted(sc)
    for key in [keys[i] for i in rng.permutation(len(keys))[:4]]:
        v = sc[key]
        e = key in ("--pqj", "--gv-norm")
        n = int(rng.integers(3, 8))
        if v.max() > 1e8:
            continue
        b = kaccum(key, "--nsp", n)
        mon.check("columns", len(b) == len(v), f"{det} {key} {len(b)} blocks")
        for t, (lab, rows) in enumerate(b):
            mon.check("columns", rows.shape == (n, 3), f"{det} {key} {rows.shape}")
            mon.close("columns", rows[:, 0], points(ff, n), rtol=0, atol=1.01e-6, key="points:scalar")
            rows = np.c_[points(ff, n), rows[:, 1:]]
            S = Sums(grid, ff, v[t][:, :, None] * w[:, None, None], irgr, irmap)
            compare("scalar", rows, same, same, S, 1e-12 if e else 1e-6, key, rel=2e-6)
            mon.check("monotone", (np.diff(rows[:, 1]) >= -2e-6 - 1e-6 * abs(rows[-1, 1])).all(), f"{det} {key} {rows[:, 1]}",
                      n=n)
            if key == "--dos":
                mon.check("total", abs(rows[-1, 1] - nb) < 1e-5, f"{det} number of modes {rows[-1, 1]}", key="total:dos")
        if not e and rng.random() < 0.5:
            n = 5
            b = kaccum(key, "--smearing", "--nsp", n)
            x = points(ff, n)
            s = (x.max() - x.min()) / 100
            for t, (lab, rows) in enumerate(b):
                want = np.array([(refs.gauss(ff - y, s) * v[t] * w[:, None]).sum() for y in x]) / N
                mon.close("smearing", rows[:, 2], want, rtol=1e-5, atol=1.1e-6, scale=max(want.max(), 1e-9),
                          key="smearing", detail=f"{det} {key}")
    # ----- library: arbitrary points, derivative, sigma
    if c["kstar"] and not (w == 1).all():
        ig, iw, im = get_ir_grid_points(grid)
        kwl = dict(ir_grid_points=ig, ir_grid_map=im)
    else:
        iw = np.ones(len(f), dtype="int64")
        kwl = {}
    if len(f) == len(iw) and ((np.array(iw) == w).all()):
        prop = rng.random((1, len(f), nb, 2))
        xs = np.sort(rng.uniform(ff.min() - 0.5, ff.max() + 0.5, size=6))
        h = 1e-5
        x3 = np.r_[xs - h, xs, xs + h]
        k = KappaDOSTHM(prop, ff, grid, ir_grid_weights=iw, frequency_points=x3, **kwl)
        y, d = k.get_kdos()
        mon.equal("derivative", np.array(y), x3)
        d = np.array(d)[0].reshape(3, 6, 2, 2)
        TG["x"] = grid
        S = Sums(grid, ff, prop[0] * w[:, None, None], irgr, irmap)
        TG["x"] = tg
        for i, x in enumerate(xs):
            lo, hi = S.at(x, "J")
            mon.check("scalar", ((d[1, i, 0] >= lo - 1e-8) & (d[1, i, 0] <= hi + 1e-8)).all(),
                      f"{det} {d[1, i, 0]} {lo} {hi}", n=2, key="scalar:library")
            num = (d[2, i, 0] - d[0, i, 0]) / (2 * h)
            # the derivative varies between the points used for the difference
            a = np.array([d[j, i, 1] for j in range(3)])
            lo, hi = a.min(axis=0), a.max(axis=0)
            gap = (hi - lo) * 1.5 + 1e-4 * (1 + hi)
            if np.abs(ff - x).min() < 1e-3 or hi.max() > 1e3:
                continue
            mon.check("derivative", ((num >= lo - gap) & (num <= hi + gap)).all(),
                      f"{det} x {x} derivative {a} difference {num}", n=2, key="derivative")
        sg = float(rng.uniform(0.1, 0.6))
        o = GammaDOSsmearing(prop[:, :, :, 0], ff, w, sigma=sg, num_sampling_points=6)
        x, y = o.get_gdos()
        want = np.array([(refs.gauss(ff - z, sg) * prop[0, :, :, 0] * w[:, None]).sum() for z in x]) / N
        mon.close("smearing", np.array(y)[0, :, 1], want, rtol=1e-6, scale=want.max(), key="smearing:sigma", detail=det)
    # ----- phonon file
    if rng.random() < 0.5:
        p.run_phonon_solver()
        fr, ev, ga = p.get_phonon_data()
        ig, iw, im = get_ir_grid_points(grid)
        fn = write_phonon_to_hdf5(fr, ev, ga, p.mesh_numbers, bz_grid=grid, ir_grid_points=gr2bz[ig],
                                  ir_grid_weights=iw)
        fr = np.array(fr)
        for opt in ([], ["--no-gridsym"]):
            v = fr[gr2bz[ig]] if not opt else fr[gr2bz]
            ww = iw if not opt else np.ones(N)
            v = np.where(v > 0, v, 0) if (v <= 0).sum() > 3 else v
            n = 5
            x = points(v, n)
            b = kaccum("--dos", *opt, "--nsp", n, file=fn)
            mon.events["phonon-file"] += 1
            if opt:
                S = Sums(grid, v, np.ones(v.shape + (1,)), np.arange(N), np.arange(N))
            else:
                pos = {int(g): k for k, g in enumerate(ig)}
                S = Sums(grid, v, np.ones(v.shape + (1,)) * np.array(ww)[:, None, None], np.array(ig),
                         np.array([pos[int(q)] for q in im]))
            compare("scalar", np.c_[x, b[0][1][:, 1:]], same, same, S, 1e-6, "phonon" + "".join(opt), rel=1e-6)
            b = kaccum("--dos", "--smearing", *opt, "--nsp", n, file=fn)
            s = (x.max() - x.min()) / 100
            want = np.array([(refs.gauss(v - y, s) * np.array(ww)[:, None]).sum() for y in x]) / N
            mon.close("smearing", b[0][1][:, 2], want, rtol=1e-5, atol=1.1e-6, scale=want.max(), key="smearing:phonon",
                      detail=f"{det} {opt}")
    # ----- Grueneisen file
    if not c["grg"] and rng.random() < 0.4 and not c["soft"] and len(p.primitive) * len(p.supercell) < 70:
        run_gruneisen_parameters(p.fc2, p.fc3, p.supercell, p.primitive, None, c["mesh"],
                                 p.primitive_symmetry.pointgroup_operations, None, ion_clamped=True,
                                 factor=15.633302, log_level=0)
        with h5py.File("gruneisen.hdf5") as h:
            gg, gf, gw = h["gruneisen"][()], h["frequency"][()], h["weight"][()]
        ig, iw, im = get_ir_grid_points(grid)
        if len(iw) == len(gw) and (iw == gw).all() and np.abs(gg).max() < 1e6:
            b = kaccum("--gruneisen", "--nsp", 5, file="gruneisen.hdf5")
            fz = np.where(gf > 0, gf, 0) if (gf <= 0).sum() > 3 else gf
            pos = {int(g): k for k, g in enumerate(ig)}
            S = Sums(grid, fz, (gg**2)[:, :, None] * gw[:, None, None], np.array(ig),
                     np.array([pos[int(q)] for q in im]))
            compare("scalar", np.c_[points(fz, 5), b[0][1][:, 1:]], same, same, S, 1e-12, "gruneisen", rel=2e-6)
            mon.events["gruneisen"] += 1
    mon.sig(c["name"], str(c["mesh"]), c["kstar"], nT, c["lbte"], c["set"])
