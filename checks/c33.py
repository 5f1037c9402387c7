"""C33: a potential is trained on the given data of its supercell and its forces stay with their displacements."""

import os
import warnings

import numpy as np

from harness import cli
from harness import models as M
from harness.core import Skip
from checks.c15 import pair_displacements

PROP = "C33"
RULE = (
    "random crystal and supercells, one-by-one or random displacements with and without minus "
    "displacements, training sets of random size; an exactly cubic potential stands in for the "
    "machine-learning library at its boundary and records what it is asked; a part of the cases trains "
    "real polynomial potentials through the API and through phono3py-load; distinct by (kind, crystal, "
    "supercells, displacement options)"
)
REQUIRED = {"train": 60, "forces": 1000, "energies": 100, "fc": 300, "phonon": 150, "which": 60,
            "refuse": 150, "file": 20, "helper": 40, "real": 300, "cli": 300}
ASSUMPTIONS = ["phonopy's wrapper of the machine-learning library is called as phonopy.interface.mlp.PhonopyMLP"]
NAMES = [n for n in M.NAMES if M.NATOM[n] <= 4]


def cases(tier, rng):
    n = 70 if tier == "quick" else 700
    out = []
    for i in range(n):
        name = NAMES[int(rng.integers(len(NAMES)))]
        out.append(dict(kind=["stub", "stub", "helper", "stub", "real", "stub", "helper", "cli", "stub", "stub"][i % 10],
                        name=name, set=int(rng.integers(len(M.DIMS[name]))), two=bool(rng.integers(2)),
                        dist=float(rng.choice([0.01, 0.03, 0.1])), snaps=[None, 3, 7][int(rng.integers(3))],
                        pm=[True, False, "auto"][int(rng.integers(3))], o=int(rng.integers(10 ** 6))))
        if out[-1]["kind"] in ("real", "cli"):
            out[-1]["name"] = ["cscl", "rocksalt", "zincblende", "bct"][int(rng.integers(4))]
            if out[-1]["name"] not in M.DIMS:
                out[-1]["name"] = "cscl"
            out[-1]["set"] = int(rng.integers(len(M.DIMS[out[-1]["name"]])))
    return out


def project(c):
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    prim = s.get("primitive", "auto")
    cell = s.get("cell") or M.unitcell(c["name"])
    two = [int(x) + 1 for x in s["dim"]]
    if not c["two"] or len(cell) * np.prod(two) > 40:
        two = None
    p = Phono3py(cell, supercell_matrix=np.diag(s["dim"]),
                 phonon_supercell_matrix=None if two is None else np.diag(two),
                 primitive_matrix=M.centring(c["name"]) if prim == "auto" else prim)
    if len(p.supercell) > 32:
        raise Skip("large")
    return p


def offset(cell, base):
    d = cell.scaled_positions - base.scaled_positions
    d -= np.rint(d)
    return d @ base.cell


class Stand:
    """Exactly cubic potential in place of the machine-learning library."""

    def __init__(self, c):
        self.c = c
        self.trained = []
        self.asked = []
        self.saved = {}

    def lattice(self, cell):
        return M.lattice(self.c["name"], cell)

    def __enter__(self):
        from phonopy.interface import mlp

        self.mod = mlp
        self.old = {k: getattr(mlp, k) for k in ("develop_mlp_by_pypolymlp", "evalulate_pypolymlp",
                                                 "load_pypolymlp", "save_pypolymlp")}
        mlp.develop_mlp_by_pypolymlp = self.develop
        mlp.evalulate_pypolymlp = self.evaluate
        mlp.load_pypolymlp = self.load
        mlp.save_pypolymlp = self.save
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)

    def develop(self, mlp_dataset, supercell, params=None, test_size=0.1, log_level=0):
        tok = ("trained", len(self.trained))
        self.trained.append(dict(data={k: np.array(mlp_dataset[k]) for k in
                                       ("displacements", "forces", "supercell_energies")},
                                 cell=supercell.copy(), params=params, test_size=test_size))
        return tok

    def evaluate(self, tok, cells):
        out = []
        base = min((p for p in self.bases if len(p) == len(cells[0])), key=lambda b: np.abs(b.cell - cells[0].cell).max())
        lat = self.lattice(base)
        for x in cells:
            u = offset(x, base)
            out.append((lat.energy(u), lat.forces(u)))
        self.asked.append((tok, [x.copy() for x in cells], base))
        return (np.array([a for a, _ in out]), np.array([b for _, b in out]), np.zeros((len(cells), 6)))

    def save(self, tok, filename):
        open(filename, "w").write(f"{tok}\n")
        self.saved[str(filename)] = tok

    def load(self, filename):
        import bz2
        import gzip
        import lzma

        op = {".xz": lzma.open, ".gz": gzip.open, ".bz2": bz2.open, ".lzma": lzma.open}.get(
            os.path.splitext(str(filename))[1], open)
        return ("loaded", op(filename, "rt").read().strip())


def train_set(rng, lat, n, amp=0.05):
    u = rng.normal(scale=amp, size=(n, len(lat.sc), 3))
    return {"displacements": u, "forces": np.array([lat.forces(x) for x in u]),
            "supercell_energies": np.array([lat.energy(x) for x in u])}


def refused(mon, what, f, types=(RuntimeError, TypeError)):
    try:
        f()
    except types:
        mon.check("refuse", True, key=f"refuse:{what}")
    except Exception as e:
        mon.check("refuse", False, f"{what}: {type(e).__name__} {e}", key=f"refuse:{what}")
    else:
        mon.check("refuse", False, f"{what} was accepted", key=f"refuse:{what}")


def displacements(d):
    return np.array(d["displacements"]) if "displacements" in d else pair_displacements(d)[0]


def stored(mon, st, p, lat, phonon, det):
    """Forces and energies of the dataset belong to its displacements."""
    d = p.phonon_dataset if phonon else p.dataset
    F = np.array(p.phonon_forces if phonon else p.forces)
    E = np.array(p.phonon_supercell_energies if phonon else p.supercell_energies)
    if phonon and "first_atoms" in d:
        u = np.zeros((len(d["first_atoms"]), len(lat.sc), 3))
        for x, a in zip(u, d["first_atoms"]):
            x[a["number"]] = a["displacement"]
    else:
        u = displacements(d)
    cl = "phonon" if phonon else "forces"
    if not mon.check(cl, len(F) == len(u) == len(E), f"{det} {len(F)} {len(u)} {len(E)}", key=f"{cl}:number"):
        return
    inc = np.ones(len(u), dtype=bool)
    if not phonon and "first_atoms" in d:
        n1 = len(d["first_atoms"])
        inc[n1:] = [x.get("included", True) for a in d["first_atoms"] for x in a["second_atoms"]]
    F, E, u = F[inc], E[inc], u[inc]
    want = np.array([lat.forces(x) for x in u])
    s = np.abs(want).max()
    mon.close(cl, F, want, rtol=1e-9, scale=s, key=cl, detail=det)
    we = np.array([lat.energy(x) for x in u])
    mon.close("energies", E, we, rtol=1e-9, scale=np.abs(we).max(), key=f"energies:{cl}", detail=det)
    tok, cells, base = st.asked[-1]
    mon.check(cl, len(cells) == len(u), f"{det} {len(cells)} structures", key=f"{cl}:asked")
    ref = p.phonon_supercell if phonon else p.supercell
    for x in cells[:3]:
        mon.check(cl, list(x.symbols) == list(ref.symbols) and np.allclose(x.cell, ref.cell), det, key=f"{cl}:cell")


def stub(c, mon, rng):
    with Stand(c) as st:
        p = project(c)
        st.bases = [p.supercell] + ([p.phonon_supercell] if p.phonon_supercell_matrix is not None else [])
        lat = M.lattice(c["name"], p.supercell)
        two = p.phonon_supercell_matrix is not None
        latp = M.lattice(c["name"], p.phonon_supercell) if two else None
        det = f"{c['name']} {c['set']} two={two} {c['snaps']} {c['pm']}"
        refused(mon, "evaluate:undeveloped", p.evaluate_mlp)
        refused(mon, "evaluate-phonon:undeveloped", p.evaluate_phonon_mlp)
        refused(mon, "save:undeveloped", p.save_mlp)
        refused(mon, "save-phonon:undeveloped", p.save_phonon_mlp)
        refused(mon, "develop:no data", p.develop_mlp)
        refused(mon, "develop-phonon:no data", p.develop_phonon_mlp)
        n = int(rng.integers(3, 25))
        data = train_set(rng, lat, n)
        order = ["mlp", "phonon"] if two else ["mlp"]
        if rng.integers(2):
            order = order[::-1]
        if two and rng.random() < 0.3:
            order = [order[0]]
        tok = {}
        for w in order:
            ph = w == "phonon"
            d = train_set(rng, latp, n) if ph else data
            name = "phonon_mlp_dataset" if ph else "mlp_dataset"
            for k in d:
                bad = {a: b for a, b in d.items() if a != k}
                refused(mon, f"{name}:without {k}", lambda: setattr(p, name, bad))
                bad = dict(d)
                bad[k] = d[k][:-1]
                refused(mon, f"{name}:short {k}", lambda: setattr(p, name, bad))
            refused(mon, f"{name}:not a dict", lambda: setattr(p, name, list(d.values())))
            mon.check("refuse", getattr(p, name) is None, f"{det} {name} set by a refused value", key="refuse:kept")
            setattr(p, name, d)
            pars = [None, "cutoff = 5.0", {"max_p": 1}][int(rng.integers(3))]
            ts = float(rng.choice([0.1, 0.25, 0.5]))
            (p.develop_phonon_mlp if ph else p.develop_mlp)(params=pars, test_size=ts)
            t = st.trained[-1]
            tok[w] = ("trained", len(st.trained) - 1)
            for k in d:
                mon.equal("train", t["data"][k], d[k], key=f"train:{k}", detail=det)
            ref = p.phonon_supercell if ph else p.supercell
            mon.check("train", np.array_equal(t["cell"].cell, ref.cell) and
                      np.allclose(t["cell"].scaled_positions, ref.scaled_positions) and
                      list(t["cell"].symbols) == list(ref.symbols), f"{det} {len(t['cell'])} atoms", key="train:cell")
            mon.check("train", t["params"] == pars and abs(t["test_size"] - ts) < 1e-12,
                      f"{det} {t['params']} {t['test_size']}", key="train:options")
            fn = f"{w}.yaml"
            (p.save_phonon_mlp if ph else p.save_mlp)(fn)
            mon.check("file", st.saved.get(fn) == tok[w], f"{det} {st.saved}", key=f"file:save:{w}")
            if rng.integers(2):
                (p.load_phonon_mlp if ph else p.load_mlp)(fn)
                tok[w] = ("loaded", str(tok[w]))
        if "mlp" in tok:
            refused(mon, "evaluate:no displacements", p.evaluate_mlp)
            gen = dict(distance=c["dist"])
            if c["snaps"]:
                gen.update(number_of_snapshots=c["snaps"], random_seed=int(rng.integers(1000)),
                           is_plusminus=bool(c["pm"] is True))
            else:
                gen.update(is_plusminus=c["pm"])
            p.generate_displacements(**gen)
            if len(p.supercells_with_displacements) * len(p.supercell) ** 2 > 4e6:
                raise Skip("large")
            for rep in range(int(rng.integers(1, 3))):
                p.evaluate_mlp()
                mon.check("which", st.asked[-1][0] == tok["mlp"], f"{det} {st.asked[-1][0]} {tok}", key="which:mlp")
                stored(mon, st, p, lat, False, det)
            if c["snaps"] is None and c["pm"] is not False and (len(p.supercells_with_displacements) *
                                                               len(p.supercell) ** 3 < 6e6):
                p.produce_fc3(symmetrize_fc3r=False)
                t3 = (np.abs(lat.fc2).max() * c["dist"] * 3 + np.abs(lat.fc3).max() * c["dist"] ** 2 * 4)
                mon.close("fc", p.fc3, lat.fc3, rtol=1e-8, atol=t3 * 4e-13 / c["dist"] ** 2, key="fc:fc3", detail=det)
        if two:
            if rng.integers(2):
                p.generate_fc2_displacements(distance=c["dist"], is_plusminus=c["pm"])
            else:
                p.generate_fc2_displacements(distance=c["dist"], number_of_snapshots=int(rng.integers(2, 6)),
                                             is_plusminus=bool(c["pm"] is True), random_seed=3)
            p.evaluate_phonon_mlp()
            w = "phonon" if "phonon" in tok else "mlp"
            mon.check("which", st.asked[-1][0] == tok[w], f"{det} {st.asked[-1][0]} {tok}", key="which:phonon")
            stored(mon, st, p, latp, True, det)
        if "mlp" not in tok:
            refused(mon, "evaluate:only the other", p.evaluate_mlp)
            refused(mon, "save:only the other", p.save_mlp)
        if "phonon" not in tok:
            refused(mon, "save-phonon:only the other", p.save_phonon_mlp)
    mon.sig("stub", c["name"], c["set"], two, str(order), c["snaps"], c["pm"], c["dist"])


def same_dataset(mon, a, b, det, key):
    ua, ub = displacements(a), displacements(b)
    if mon.check("helper", ua.shape == ub.shape, f"{det} {ua.shape} {ub.shape}", key=f"{key}:shape"):
        mon.close("helper", ua, ub, rtol=0, atol=1e-12, key=key, detail=det)


def helper(c, mon, rng):
    """The steps that the scripts take."""
    import bz2
    import gzip
    import lzma

    from phono3py.cui.create_force_constants import (run_pypolymlp_to_compute_forces,
                                                     run_pypolymlp_to_compute_phonon_forces)

    with Stand(c) as st:
        p = project(c)
        two = p.phonon_supercell_matrix is not None
        st.bases = [p.supercell] + ([p.phonon_supercell] if two else [])
        lat = M.lattice(c["name"], p.supercell)
        det = f"{c['name']} {c['set']} two={two} {c['snaps']}"
        refused(mon, "helper:nothing", lambda: run_pypolymlp_to_compute_forces(p, None))
        have = ["develop", "yaml", ".xz", ".gz", ".bz2", "both", "pmlp"][int(rng.integers(7))]
        text = "potential"
        if have == "both":
            open("polymlp.yaml.orig", "w").write("junk")
            open("polymlp.yaml~", "w").write("junk")
        if have in ("yaml", "both"):
            open("polymlp.yaml", "w").write(text)
        elif have == "pmlp":
            open("phono3py.pmlp", "w").write(text)
        elif have != "develop":
            {".xz": lzma, ".gz": gzip, ".bz2": bz2}[have].open("polymlp.yaml" + have, "wt").write(text)
        data = train_set(rng, lat, 8)
        if have == "develop" or rng.integers(2):
            p.mlp_dataset = data
        kw = dict(displacement_distance=[None, c["dist"]][int(rng.integers(2))],
                  number_of_snapshots=c["snaps"], random_seed=int(rng.integers(1000)))
        if c["snaps"] is None:
            kw.pop("random_seed")
        pair = None
        if rng.random() < 0.3 and c["snaps"] is None:
            dist = np.linalg.norm(p.supercell.cell, axis=1).min() * float(rng.uniform(0.3, 0.7))
            pair = dist
        prep = bool(rng.random() < 0.85)
        run_pypolymlp_to_compute_forces(p, mlp_params=[None, "max_p = 1"][int(rng.integers(2))], prepare_dataset=prep,
                                        cutoff_pair_distance=pair, log_level=0, **kw)
        if have == "develop":
            want = ("trained", 0)
            mon.check("helper", len(st.trained) == 1 and st.saved.get("polymlp.yaml") == want,
                      f"{det} {st.saved} {len(st.trained)}", key="helper:develop")
        else:
            want = ("loaded", text)
            mon.check("helper", not st.trained, f"{det} {have} trained again", key="helper:trained")
        if not prep:
            mon.check("helper", p.dataset is None and not st.asked, det, key="helper:no-dataset")
        else:
            mon.check("which", st.asked[-1][0] == want, f"{det} {have} {st.asked[-1][0]}", key="which:helper")
            stored(mon, st, p, lat, False, det)
            r = project(c)
            gen = dict(distance=kw["displacement_distance"] or 0.01, is_plusminus=True, cutoff_pair_distance=pair)
            if c["snaps"]:
                gen.update(number_of_snapshots=c["snaps"], random_seed=kw["random_seed"])
            r.generate_displacements(**gen)
            same_dataset(mon, p.dataset, r.dataset, det, "helper:displacements")
            if c["snaps"]:
                mon.check("helper", len(p.displacements) == 2 * c["snaps"], det, key="helper:number")
        if two:
            latp = M.lattice(c["name"], p.phonon_supercell)
            if rng.integers(2):
                p.phonon_mlp_dataset = train_set(rng, latp, 5)
                want = ("trained", len(st.trained))
            run_pypolymlp_to_compute_phonon_forces(p, log_level=0, **kw)
            mon.check("which", st.asked[-1][0] == want, f"{det} {st.asked[-1][0]} {want}", key="which:helper-phonon")
            stored(mon, st, p, latp, True, det)
            r = project(c)
            gen = dict(distance=kw["displacement_distance"] or 0.01, is_plusminus=True)
            if c["snaps"]:
                gen.update(number_of_snapshots=c["snaps"], random_seed=kw["random_seed"])
            r.generate_fc2_displacements(**gen)
            if c["snaps"]:
                same_dataset(mon, p.phonon_dataset, r.phonon_dataset, det, "helper:phonon-displacements")
    mon.sig("helper", c["name"], c["set"], two, have, c["snaps"], prep, str(pair), str(kw))


PARS = {"cutoff": 4.0, "gtinv_maxl": (4, 4), "max_p": 1, "gaussian_params2": (0.0, 3.0, 4)}
PARS_STR = "cutoff = 4.0, gtinv_maxl = 4 4, max_p = 1, gaussian_params2 = 0.0 3.0 4"


def real(c, mon, rng):
    """Polynomial potentials trained from exact forces."""
    p = project(dict(c, two=False))
    if len(p.supercell) > 20:
        raise Skip("large")
    lat = M.lattice(c["name"], p.supercell)
    det = f"{c['name']} {c['set']}"
    data = train_set(rng, lat, 20, amp=0.03)
    p.mlp_dataset = data
    p.develop_mlp(params=PARS if rng.integers(2) else PARS_STR)
    p.generate_displacements(distance=0.01, number_of_snapshots=4, random_seed=int(rng.integers(1000)))
    p.evaluate_mlp()
    F, E = np.array(p.forces), np.array(p.supercell_energies)
    u = np.array(p.displacements)
    p.save_mlp("a.yaml")
    q = project(dict(c, two=False))
    q.load_mlp("a.yaml")
    q.dataset = {"displacements": u[::-1].copy()}
    q.evaluate_mlp()
    s = np.abs(F).max()
    mon.close("real", np.array(q.forces)[::-1], F, rtol=1e-7, scale=s, key="real:load:forces", detail=det)
    mon.close("real", np.array(q.supercell_energies)[::-1], E, rtol=1e-9, scale=np.abs(E).max(), key="real:load:energies",
              detail=det)
    # forces of the whole supercell vanish in sum, energies change along them
    mon.close("real", F.sum(axis=1), 0, rtol=1e-6, scale=s, key="real:sum", detail=det)
    h = 1e-4
    d = rng.normal(size=u.shape)
    q.dataset = {"displacements": np.concatenate([u + h * d, u - h * d])}
    q.evaluate_mlp()
    e = np.array(q.supercell_energies)
    got = (e[: len(u)] - e[len(u):]) / (2 * h)
    want = -(F * d).sum(axis=(1, 2))
    mon.close("real", got, want, rtol=1e-3, scale=max(np.abs(want).max(), s), key="real:gradient", detail=det)
    mon.sig("real", c["name"], c["set"], c["o"])


def cli_run(c, mon, rng):
    """phono3py-load --pypolymlp against the same steps through the API."""
    import h5py
    import phono3py

    p = project(dict(c, two=False))
    if len(p.supercell) > 20:
        raise Skip("large")
    lat = M.lattice(c["name"], p.supercell)
    det = f"{c['name']} {c['set']}"
    n = 20
    data = train_set(rng, lat, n, amp=0.03)
    p.dataset = {k: v for k, v in data.items()}
    p.save("phono3py_params.yaml", settings={"force_sets": True, "displacements": True})
    gen = rng.random() < 0.6
    dist = float(rng.choice([0.01, 0.02]))
    argv = ["phono3py_params.yaml", "--pypolymlp", "--mlp-params", PARS_STR]
    seed = int(rng.integers(1000))
    snap = 6
    disp = ["--rd", str(snap), "--random-seed", str(seed)] if gen else ["-d"]
    disp += ["--amplitude", str(dist)]
    twice = bool(rng.integers(2))
    if twice:  # training first, displacements in a second run
        code, out = cli.call(*argv, script="phono3py-load")
        if not mon.check("cli", code == 0 and os.path.exists("polymlp.yaml"), f"{det} exit {code} {out[-400:]}",
                         key="cli:train"):
            return
        mon.check("cli", not os.path.exists("fc3.hdf5"), det, key="cli:train-only")
        stamp = open("polymlp.yaml", "rb").read()
        if rng.integers(2):
            import lzma

            with lzma.open("polymlp.yaml.xz", "wb") as w:
                w.write(stamp)
            os.remove("polymlp.yaml")
    try:
        code, out = cli.call(*argv, *disp, *(["--fc-calc", "symfc"] if gen else []), script="phono3py-load")
    except ValueError as e:
        import traceback

        if "/symfc/" in traceback.format_tb(e.__traceback__)[-1]:
            raise Skip("no third-order force constants by symmetry")
        raise
    if not mon.check("cli", code == 0, f"{det} {disp} exit {code} {out[-600:]}", key="cli:exit"):
        return
    if twice and os.path.exists("polymlp.yaml"):
        mon.check("cli", open("polymlp.yaml", "rb").read() == stamp, f"{det} trained again", key="cli:kept")
    q = project(dict(c, two=False))
    q.load_mlp("polymlp.yaml" if os.path.exists("polymlp.yaml") else "polymlp.yaml.xz")
    kw = dict(distance=dist, is_plusminus=True)
    if gen:
        kw.update(number_of_snapshots=snap, random_seed=seed)
    q.generate_displacements(**kw)
    q.evaluate_mlp()
    if mon.check("cli", os.path.exists("phono3py_mlp_eval_dataset.yaml"), det, key="cli:eval"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = phono3py.load("phono3py_mlp_eval_dataset.yaml", produce_fc=False, log_level=0)
        mon.close(
            "cli", displacements(r.dataset), displacements(q.dataset), rtol=0, atol=2e-8, key="cli:displacements",
            detail=f"{det} {disp}")
        s = np.abs(q.forces).max()
        mon.close("cli", np.array(r.forces), np.array(q.forces), rtol=0, atol=2e-8 + 1e-6 * s, key="cli:forces",
                  detail=det)
        mon.close("cli", np.array(r.supercell_energies), np.array(q.supercell_energies), rtol=0, atol=2e-6,
                  key="cli:energies", detail=det)
    with h5py.File("fc3.hdf5") as h:
        fc3 = h["fc3"][()]
    with h5py.File("fc2.hdf5") as h:
        fc2 = h[[k for k in h if k in ("force_constants", "fc2")][0]][()]
    q.produce_fc3(symmetrize_fc3r=True, is_compact_fc=len(fc3) != len(q.supercell), **(dict(fc_calculator="symfc") if gen else {}))
    q.produce_fc2(symmetrize_fc2=True, is_compact_fc=len(fc2) != len(q.supercell), **(dict(fc_calculator="symfc") if gen else {}))
    mon.close("cli", fc3, q.fc3, rtol=1e-6, atol=1e-11 * np.abs(fc2).max() / dist, scale=np.abs(q.fc3).max(),
              key="cli:fc3", detail=f"{det} {disp}")
    mon.close("cli", fc2, q.fc2, rtol=1e-6, scale=np.abs(q.fc2).max(), key="cli:fc2", detail=f"{det} {disp}")
    # the potential of the script is the one developed through the API
    t = project(dict(c, two=False))
    t.mlp_dataset = phono3py.load("phono3py_params.yaml", produce_fc=False, log_level=0).dataset
    t.develop_mlp(params=PARS)
    t.dataset = {"displacements": displacements(q.dataset)}
    t.evaluate_mlp()
    have = np.array(q.forces)
    mon.close("cli", have, np.array(t.forces), rtol=1e-4, scale=np.abs(have).max(), key="cli:trained", detail=det)
    # the Python loader trains in the same way
    for f in ("polymlp.yaml", "polymlp.yaml.xz", "fc3.hdf5", "fc2.hdf5"):
        if os.path.exists(f):
            os.remove(f)
    u = phono3py.load("phono3py_params.yaml", use_pypolymlp=True, mlp_params=PARS, log_level=0)
    mon.check("cli", u.mlp is not None and u.dataset is None and u.fc3 is None, det, key="cli:load")
    u.dataset = {"displacements": displacements(q.dataset)}
    u.evaluate_mlp()
    mon.close("cli", np.array(u.forces), np.array(t.forces), rtol=1e-6, scale=np.abs(have).max(), key="cli:load-forces",
              detail=det)
    mon.sig("cli", c["name"], c["set"], gen, twice, dist)


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    {"stub": stub, "helper": helper, "real": real, "cli": cli_run}[c["kind"]](c, mon, rng)
