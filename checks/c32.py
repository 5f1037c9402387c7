"""C32: command-line runs give the results of the API."""

import glob
import os
import re
import shutil

import h5py
import numpy as np

from harness import cli, ph
from harness import models as M
from harness.core import Skip

PROP = "C32"
RULE = "distinct (program, mode, crystal, source of force constants, set of options)"
JOBS = 8
BUDGET = {"quick": 420, "thorough": 1500}


def REQUIRED(tier):
    return {"cli-file": 60, "cli-value": 300, "conf-value": 60, "restart": 20, "disp": 10,
            "mode:rta": 3, "mode:lbte": 2, "mode:ise": 2, "mode:rse": 1, "mode:spf": 1,
            "mode:jdos": 2, "mode:isotope": 1, "fc": 20, "grid-info": 40, "gruneisen": 20, "force-sets": 6,
            "printed": 20}


MODES = ["rta", "rta", "rta", "lbte", "ise", "ise", "rse", "spf", "jdos", "isotope", "fc", "fc"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    out = []
    for i in range(96 * n):
        mode = MODES[i % len(MODES)]
        c = ph.gen(rng, max_mesh=3 if mode == "lbte" else 4, max_atoms=2, min_mesh=2, nac=0.4)
        c.update(kind="run", mode=mode, load=bool(rng.integers(2)), pick=int(rng.integers(1 << 30)),
                 src=["params", "forces", "fc"][int(rng.integers(3))], two=bool(rng.random() < 0.3))
        out.append(c)
    for i in range(24 * n):
        c = ph.gen(rng, max_atoms=3)
        c.update(kind="disp", pick=int(rng.integers(1 << 30)))
        out.append(c)
    for i in range(24 * n):
        c = ph.gen(rng, max_atoms=2, nac=0.5)
        what = ["grid", "grun", "grid", "cfs", "grun", "grid"][i % 6]
        c.update(kind="info", what=what, pick=int(rng.integers(1 << 30)), load=bool(rng.integers(2)),
                 two=what == "cfs" and bool(i % 4))
        out.append(c)
    return out


# ---------------------------------------------------------------------------
class Plan:
    """Options of one run, in the three forms: command line, configuration file, API."""

    def __init__(self):
        self.argv, self.conf = [], []
        self.load, self.init, self.attr, self.pp, self.call = {}, {}, {}, {}, {}
        self.names = []
        self.cutfc3 = None

    def add(self, name, argv, conf, **kw):
        self.names.append(name)
        self.argv += argv
        if conf is not None:
            self.conf += [conf] if isinstance(conf, str) else conf
        for k, v in kw.items():
            where, key = k.split("__", 1)
            getattr(self, where)[key] = v


def fmt(x):
    return f"{x:.6g}"


def plan(c, rng, n3):
    """Choose options; every one is stated for the command line, the file and the API."""
    p = Plan()
    mode = c["mode"]
    if mode in ("rta", "lbte"):
        p.call["boundary_mfp"] = 1e6  # documented default of the programs, 1 m

    def maybe(q):
        return rng.random() < q

    load = c["load"]
    # --- crystal and force constants
    p.load = {"is_nac": load, "symmetrize_fc": load, "is_compact_fc": False}
    if load and maybe(0.3):
        p.add("no-sym-fc", ["--no-sym-fc"], "FC_SYMMETRY = .FALSE.", load__symmetrize_fc=False)
    if not load and maybe(0.6):
        p.add("sym-fc", ["--sym-fc"], "FC_SYMMETRY = .TRUE.", load__symmetrize_fc=True)
    if load and maybe(0.3):
        p.add("nonac", ["--nonac"], "NAC = .FALSE.", load__is_nac=False)
    if not load and c["nac"] and maybe(0.6):
        p.add("nac", ["--nac"], "NAC = .TRUE.", load__is_nac=True)
    if maybe(0.4):
        p.add("cfc", ["--cfc"], "COMPACT_FC = .TRUE.", load__is_compact_fc=True)
    if maybe(0.2):
        p.add("v2", ["--v2"], None, load__make_r0_average=False)
        p.conf = None  # has no tag
    conf = p.conf
    p.conf = p.conf if conf is not None else []
    if maybe(0.15):
        p.cutfc3 = float(rng.uniform(2, 8))
        p.add("cutoff-fc3", ["--cutoff-fc3", fmt(p.cutfc3)], f"CUTOFF_FC3_DISTANCE = {fmt(p.cutfc3)}")
        p.cutfc3 = float(fmt(p.cutfc3))
    if mode == "fc":
        p.noconf = conf is None
        return p
    # --- mesh
    if c["grg"] and maybe(0.4):
        m = c["mesh"]
        p.add("mesh-length", ["--mesh", fmt(m), "--grg"], [f"MESH = {fmt(m)}", "USE_GRG = .TRUE."],
              attr__mesh_numbers=float(fmt(m)), load__use_grg=True)
    elif np.ndim(c["mesh"]) == 1:
        m = c["mesh"]
        t = " ".join(str(x) for x in m)
        p.add("mesh", ["--mesh", t] if maybe(0.5) else ["--mesh", *t.split()], f"MESH = {t}",
              attr__mesh_numbers=m)
    else:
        m = float(rng.uniform(6, 12))
        p.add("mesh-length", ["--mesh", fmt(m)], f"MESH = {fmt(m)}", attr__mesh_numbers=float(fmt(m)))
    # --- integration
    if mode != "spf" and maybe(0.4) or mode == "spf" and maybe(0.3):
        s = sorted(float(fmt(x)) for x in rng.uniform(0.05, 0.5, 1 + (mode != "spf" and maybe(0.4))))
        t = " ".join(fmt(x) for x in s)
        p.add("sigma", ["--sigma", t] if maybe(0.5) else ["--sigma", *t.split()], f"SIGMA = {t}",
              attr__sigmas=s)
        if maybe(0.4):
            p.add("thm", ["--thm"], "TETRAHEDRON = .TRUE.", attr__sigmas=[None] + s)
        if maybe(0.4) and mode not in ("jdos", "isotope"):
            w = float(fmt(rng.uniform(2, 5)))
            p.add("sigma-cutoff", ["--sigma-cutoff", fmt(w)], f"SIGMA_CUTOFF_WIDTH = {fmt(w)}",
                  attr__sigma_cutoff=w)
    if maybe(0.3):
        x = float(fmt(rng.uniform(0.01, 0.5)))
        p.add("cutoff-freq", ["--cutoff-freq", fmt(x)], f"CUTOFF_FREQUENCY = {fmt(x)}",
              init__cutoff_frequency=x)
    if maybe(0.25):
        x = float(fmt(rng.uniform(0.7, 1.3)))
        p.add("freq-scale", ["--freq-scale", fmt(x)], f"FREQUENCY_SCALE_FACTOR = {fmt(x)}",
              pp__frequency_scale_factor=x)
    if maybe(0.2) and mode not in ("isotope",):
        p.add("nomeshsym", ["--nomeshsym"], "MESH_SYMMETRY = .FALSE.", load__is_mesh_symmetry=False)
    if maybe(0.2) and not c.get("nomass"):
        ms = [float(fmt(x)) for x in c["masses"] * rng.uniform(0.5, 2)]
        t = " ".join(fmt(x) for x in ms)
        p.add("mass", ["--mass", *t.split()], f"MASS = {t}", attr__masses=ms)
    if mode != "isotope" and maybe(0.2) and mode != "jdos":
        p.add("uplo", ["--uplo", "U"], "LAPACK_ZHEEV_UPLO = u", pp__lapack_zheev_uplo="U")
    if mode not in ("jdos", "isotope") and maybe(0.25):
        p.add("sym-fc3q", ["--sym-fc3q"], "SYMMETRIZE_FC3_Q = .TRUE.", pp__symmetrize_fc3q=True,
              call__is_full_pp=True)
        if mode not in ("rta", "lbte"):
            del p.call["is_full_pp"]
    # --- temperatures
    if mode != "isotope":
        if mode in ("rta", "lbte") and maybe(0.3):
            lo, st = int(rng.integers(0, 200)), int(rng.integers(50, 200))
            hi = lo + st * int(rng.integers(1, 3))
            p.add("tmin", ["--tmin", str(lo), "--tmax", str(hi), "--tstep", str(st)],
                  [f"TMIN = {lo}", f"TMAX = {hi}", f"TSTEP = {st}"],
                  call__temperatures=np.arange(lo, hi + 1e-3, st).tolist())
        elif maybe(0.8) or mode in ("rta", "lbte"):
            T = sorted({float(fmt(x)) for x in rng.uniform(20, 800, int(rng.integers(1, 4)))})
            t = " ".join(fmt(x) for x in T)
            p.add("ts", ["--ts", t] if maybe(0.5) else ["--ts", *t.split()], f"TEMPERATURES = {t}",
                  call__temperatures=T)
        else:
            p.call["temperatures"] = None if mode == "jdos" else [0.0, 300.0]
    # --- bands
    if mode in ("ise", "rse", "spf") and maybe(0.6):
        order = rng.permutation(n3)
        k = int(rng.integers(1, n3 + 1))
        sets, cur = [], []
        for b in sorted(int(x) for x in order[:k]):
            cur.append(b)
            if maybe(0.4):
                sets.append(cur)
                cur = []
        if cur:
            sets.append(cur)
        t = ", ".join(" ".join(str(b + 1) for b in s) for s in sets)
        p.add("bi", ["--bi", *t.split()], f"BAND_INDICES = {t}", attr__band_indices=sets)
    if mode == "isotope" and maybe(0.3):
        b = sorted(int(x) for x in rng.choice(n3, int(rng.integers(1, n3 + 1)), replace=False))
        t = " ".join(str(x + 1) for x in b)
        p.add("bi", ["--bi", *t.split()], f"BAND_INDICES = {t}", call__band_indices=b)
    # --- mode
    tags = {"rta": ("--br", "BTERTA"), "lbte": ("--lbte", "LBTE"), "ise": ("--ise", "IMAG_SELF_ENERGY"),
            "rse": ("--rse", "REAL_SELF_ENERGY"), "spf": ("--spf", "SPECTRAL_FUNCTION"),
            "jdos": ("--jdos", "JOINT_DOS"), "isotope": ("--isotope", "ISOTOPE")}
    p.add(mode, [tags[mode][0]], f"{tags[mode][1]} = .TRUE.")
    if mode in ("ise", "rse", "spf", "jdos"):
        if maybe(0.6):
            n = int(rng.integers(3, 30))
            p.add("num-freq-points", ["--num-freq-points", str(n)], f"NUM_FREQUENCY_POINTS = {n}",
                  call__num_frequency_points=n)
        elif maybe(0.5):
            x = float(fmt(rng.uniform(0.2, 1)))
            p.add("freq-pitch", ["--freq-pitch", fmt(x)], f"FPITCH = {fmt(x)}", call__frequency_step=x,
                  call__num_frequency_points=None)
        p.call.setdefault("num_frequency_points", 201)
        p.call.setdefault("frequency_step", None)
        if mode in ("ise", "spf", "jdos") and maybe(0.3):
            n = int(rng.integers(1, 20))
            p.add("batch", ["--num-points-in-batch", str(n)], f"NUM_POINTS_IN_BATCH = {n}",
                  call__num_points_in_batch=n)
    if mode in ("ise", "rse", "spf", "jdos", "isotope"):
        if maybe(0.3) and mode != "isotope":
            d = [float(x) for x in rng.integers(-1, 2, 3)]
            if any(d):
                t = " ".join(fmt(x) for x in d)
                p.add("q-direction", ["--q-direction", t], f"Q_DIRECTION = {t}",
                      pp__nac_q_direction=d)
        p.gp = [float(x) for x in rng.random(int(rng.integers(1, 3)))]
        if p.pp.get("nac_q_direction"):  # one point, mostly Gamma
            p.gp = [0.0] if mode != "jdos" or maybe(0.7) else p.gp[:1]
        p.ga = maybe(0.35)
    if mode == "ise":
        if maybe(0.3):
            k = int(rng.integers(1, 3))
            p.add("event", ["--scattering-event-class", str(k)], f"SCATTERING_EVENT_CLASS = {k}",
                  call__scattering_event_class=k)
        if maybe(0.3):
            p.add("detail", ["--write-gamma-detail"], "WRITE_GAMMA_DETAIL = .TRUE.",
                  call__write_gamma_detail=True)
    if mode in ("rta", "lbte"):
        if maybe(0.3):
            p.add("isotope", ["--isotope"], "ISOTOPE = .TRUE.", call__is_isotope=True)
            if maybe(0.5):
                mv = [float(fmt(x)) for x in c["mv"]]
                t = " ".join(fmt(x) for x in mv)
                p.add("mv", ["--mv", *t.split()], f"MASS_VARIANCES = {t}", call__mass_variances=mv)
        if maybe(0.3):
            x = float(fmt(10 ** rng.uniform(-1, 3)))
            p.add("bmfp", ["--bmfp", fmt(x)], f"BOUNDARY_MFP = {fmt(x)}", call__boundary_mfp=x)
        if maybe(0.2):
            p.add("noks", ["--noks"], "KAPPA_STAR = .FALSE.", call__is_kappa_star=False)
        if maybe(0.2):
            p.add("wigner", ["--wigner"], "CONDUCTIVITY_TYPE = wigner", call__conductivity_type="wigner")
        if maybe(0.15):
            x = float(fmt(10 ** rng.uniform(-5, -3)))
            p.add("gv-delta-q", ["--gv-delta-q", fmt(x)], f"GV_DELTA_Q = {fmt(x)}", call__gv_delta_q=x)
        if maybe(0.15):
            x = float(fmt(10 ** rng.uniform(-12, -8)))
            p.add("const-ave-pp", ["--const-ave-pp", fmt(x)], f"CONST_AVE_PP = {fmt(x)}",
                  pp__constant_averaged_interaction=x)
    if mode == "rta":
        if maybe(0.3):
            p.add("nu", ["--nu"], "N_U = .TRUE.", call__is_N_U=True)
        if maybe(0.3):
            p.add("full-pp", ["--full-pp"], "FULL_PP = .TRUE.", call__is_full_pp=True)
        if maybe(0.3):
            p.add("write-gamma", ["--write-gamma"], "WRITE_GAMMA = .TRUE.", call__write_gamma=True)
        if maybe(0.15) and not p.call.get("is_N_U"):
            p.add("detail", ["--write-gamma-detail"], "WRITE_GAMMA_DETAIL = .TRUE.",
                  call__write_gamma_detail=True)
        if maybe(0.15):
            p.add("write-pp", ["--write-pp"], "WRITE_PP = .TRUE.", call__write_pp=True)
    if mode == "lbte":
        if maybe(0.4):
            p.add("reducible", ["--reducible-colmat"], "REDUCIBLE_COLLISION_MATRIX = .TRUE.",
                  call__is_reducible_collision_matrix=True)
        if maybe(0.3):
            x = float(fmt(10 ** rng.uniform(-12, -3)))
            p.add("pinv-cutoff", ["--pinv-cutoff", fmt(x)], f"PINV_CUTOFF = {fmt(x)}",
                  call__pinv_cutoff=x)
        if maybe(0.3):
            k = int(rng.integers(0, 2))
            p.add("pinv-method", ["--pinv-method", str(k)], f"PINV_METHOD = {k}", call__pinv_method=k)
        if maybe(0.3):
            p.add("pinv-solver", ["--pinv-solver", "4"], "PINV_SOLVER = 4", call__pinv_solver=4)
        if maybe(0.3):
            p.add("write-collision", ["--write-collision"], "WRITE_COLLISION = .TRUE.",
                  call__write_collision=True)
    if maybe(0.25) and mode in ("rta", "lbte"):
        p.add("compression", ["--hdf5-compression", "lzf"], "HDF5_COMPRESSION = lzf",
              call__compression="lzf")
    p.noconf = conf is None
    return p


# ---------------------------------------------------------------------------
def project(c):
    """Files of a calculation in the current directory; returns the yaml filename."""
    from phono3py import Phono3py

    s = M.setting(c["name"], c["set"])
    prim = s.get("primitive", "auto")
    cell = s.get("cell") or M.unitcell(c["name"])
    two = [int(x) + 1 for x in s["dim"]]
    if not c.get("two") or len(cell) * np.prod(two) > 128:
        two = None
    p = Phono3py(cell, supercell_matrix=np.diag(s["dim"]),
                 phonon_supercell_matrix=None if two is None else np.diag(two),
                 primitive_matrix=M.centring(c["name"]) if prim == "auto" else prim)
    M.set_fc(p, c["name"], compact=False, soft=c.get("soft", 0.0), pin=c.get("pin", 0.0))
    fc2, fc3 = np.array(p.fc2), np.array(p.fc3)
    p.generate_displacements(distance=0.03)
    lat = M.lattice(c["name"], p.supercell, anh=1.0, soft=c.get("soft", 0.0), pin=c.get("pin", 0.0))
    forces = []
    for sc in p.supercells_with_displacements:
        d = sc.scaled_positions - p.supercell.scaled_positions
        d -= np.rint(d)
        forces.append(lat.forces(d @ p.supercell.cell))
    p.forces = np.array(forces)
    if two is not None:
        p.generate_fc2_displacements(distance=0.03)
        lat = M.lattice(c["name"], p.phonon_supercell, anh=0.0, soft=c.get("soft", 0.0),
                        pin=c.get("pin", 0.0))
        forces = []
        for sc in p.phonon_supercells_with_displacements:
            d = sc.scaled_positions - p.phonon_supercell.scaled_positions
            d -= np.rint(d)
            forces.append(lat.forces(d @ p.phonon_supercell.cell))
        p.phonon_forces = np.array(forces)
    nac = M.nac_params(c["name"], p.primitive)
    c["nac"] = nac is not None and c["nac"]
    if c["nac"]:
        p.nac_params = nac
    return p, fc2, fc3


def write(c, p, fc2, fc3):
    from phono3py.file_IO import (write_fc2_to_hdf5, write_fc3_to_hdf5, write_FORCES_FC2, write_FORCES_FC3)

    if c["src"] == "params":
        p.save("phono3py_params.yaml", settings={"force_sets": True, "displacements": True})
        return "phono3py_params.yaml"
    p.save("phono3py_disp.yaml", settings={"force_sets": False, "displacements": True})
    if c["src"] == "forces":
        write_FORCES_FC3(p.dataset, forces_fc3=p.forces)
        if p.phonon_supercell_matrix is not None:
            write_FORCES_FC2(p.phonon_dataset, forces_fc2=p.phonon_forces)
    else:
        write_fc2_to_hdf5(fc2, p2s_map=p.phonon_primitive.p2s_map)
        write_fc3_to_hdf5(fc3, p2s_map=p.primitive.p2s_map)
    return "phono3py_disp.yaml"


def api(c, pl, yaml):
    """The same calculation through the API; files are written in the current directory."""
    import phono3py
    from phono3py import Phono3pyIsotope, Phono3pyJointDos

    kw = dict(pl.load)
    if c["src"] == "params" or c["src"] == "forces":
        ph3 = phono3py.load(yaml, log_level=0, **kw)
    else:
        ph3 = phono3py.load(yaml, log_level=0, fc2_filename="fc2.hdf5", fc3_filename="fc3.hdf5", **kw)
        if not c["load"] and pl.load["symmetrize_fc"]:
            sym(ph3)
    if pl.cutfc3:
        ph3.cutoff_fc3_by_zero(pl.cutfc3)
    if c["mode"] == "fc":
        return ph3
    ph3._cutoff_frequency = pl.init.get("cutoff_frequency", 1e-2)  # default of the programs
    a = dict(pl.attr)
    if "masses" in a:
        ph3.masses = a["masses"]
    mode = c["mode"]
    call = {k: v for k, v in pl.call.items()}
    if mode in ("jdos", "isotope"):
        com = dict(cutoff_frequency=pl.init.get("cutoff_frequency", 1e-2), use_grg=kw.get("use_grg", False))
        if mode == "jdos":
            if "is_mesh_symmetry" in kw:
                com["is_mesh_symmetry"] = False
            j = Phono3pyJointDos(
                ph3.phonon_supercell, ph3.phonon_primitive, ph3.fc2, mesh=a["mesh_numbers"],
                nac_params=ph3.nac_params, nac_q_direction=pl.pp.get("nac_q_direction"),
                sigmas=a.get("sigmas", [None]), temperatures=call["temperatures"],
                frequency_step=call["frequency_step"],
                num_frequency_points=call["num_frequency_points"],
                num_points_in_batch=call.get("num_points_in_batch", 10),
                frequency_scale_factor=pl.pp.get("frequency_scale_factor"), log_level=0, **com)
            j.run(points(pl, j.grid), write_jdos=True)
            return j
        com["cutoff_frequency"] = pl.init.get("cutoff_frequency")
        i = Phono3pyIsotope(a["mesh_numbers"], ph3.phonon_primitive,
                            band_indices=call.get("band_indices"),
                            sigmas=a.get("sigmas", [None]), **com)
        i.init_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive,
                                nac_params=ph3.nac_params,
                                frequency_scale_factor=pl.pp.get("frequency_scale_factor"))
        i.run(points(pl, i.grid))
        return i
    ph3.sigmas = a.get("sigmas", [None])
    if "sigma_cutoff" in a:
        ph3.sigma_cutoff = a["sigma_cutoff"]
    ph3.mesh_numbers = a["mesh_numbers"]
    if "band_indices" in a:
        ph3.band_indices = a["band_indices"]
    ph3.init_phph_interaction(**pl.pp)
    if mode in ("rta", "lbte"):
        ph3.run_thermal_conductivity(is_LBTE=mode == "lbte", write_kappa=True, **call)
        return ph3
    gps = points(pl, ph3.grid)
    T = call.pop("temperatures")
    if mode == "ise":
        call.setdefault("num_points_in_batch", 10)
        ph3.run_imag_self_energy(gps, T, write_txt=True, **call)
    elif mode == "rse":
        ph3.run_real_self_energy(gps, T, write_txt=True, write_hdf5=True, **call)
    else:
        call.setdefault("num_points_in_batch", 10)
        ph3.run_spectral_function(gps, T, write_txt=True, write_hdf5=True, **call)
    return ph3


def sym(ph3):
    """--sym-fc of the phono3py script is applied to force constants read from files."""
    from phonopy.harmonic.force_constants import (symmetrize_compact_force_constants,
                                                  symmetrize_force_constants)

    from phono3py.phonon3.fc3 import (set_permutation_symmetry_compact_fc3,
                                      set_permutation_symmetry_fc3,
                                      set_translational_invariance_compact_fc3,
                                      set_translational_invariance_fc3)

    fc3, fc2 = ph3.fc3, ph3.fc2
    if fc3.shape[0] == fc3.shape[1]:
        set_translational_invariance_fc3(fc3)
        set_permutation_symmetry_fc3(fc3)
    else:
        set_translational_invariance_compact_fc3(fc3, ph3.primitive)
        set_permutation_symmetry_compact_fc3(fc3, ph3.primitive)
    if fc2.shape[0] == fc2.shape[1]:
        symmetrize_force_constants(fc2)
    else:
        symmetrize_compact_force_constants(fc2, ph3.phonon_primitive)
    ph3.fc3, ph3.fc2 = fc3, fc2


def points(pl, grid):
    """Grid points (BZ indices) at fractions of the list of reducible points."""
    n = len(grid.grg2bzg)
    return [int(grid.grg2bzg[int(f * n)]) for f in pl.gp]


PATTERNS = ("kappa-*", "gamma*", "pp-*", "collision*", "coleigs*", "jdos-*", "linewidth*",
            "frequency_shift*", "shift*", "imag_*", "real_*", "spectral*", "self*", "delta*",
            "fc2.hdf5", "fc3.hdf5", "phonon-*", "gruneisen*")


def produced(before=()):
    out = set()
    for x in os.listdir("."):
        if x.endswith((".hdf5", ".dat", ".txt")) and x not in before:
            out.add(x)
    return out


def content(fn):
    """{dataset: array} of a result file."""
    if fn.endswith(".hdf5"):
        with h5py.File(fn, "r") as f:
            return {k: np.array(f[k]) for k in f}
    out, rows = {}, []
    for line in open(fn):
        x = line.replace("#", " ").split()
        try:
            rows.append([float(v) for v in x])
        except ValueError:
            out.setdefault("text", []).append(re.sub(r"[-+.\deE]+", "N", line))
    width = {len(r) for r in rows}
    for w in width:
        out[f"col{w}"] = np.array([r for r in rows if len(r) == w])
    if "text" in out:
        out["text"] = np.array(out["text"])
    return out


def compare(mon, clause, a, b, names, what):
    """Files `names` in directories a and b."""
    for n in sorted(names):
        x, y = content(os.path.join(a, n)), content(os.path.join(b, n))
        if not mon.check(clause, set(x) == set(y), f"{what}: {n} datasets {sorted(set(x) ^ set(y))}",
                         key=f"{clause}:datasets"):
            continue
        for k in x:
            u, v = x[k], y[k]
            if u.dtype.kind in "OSU" or v.dtype.kind in "OSU":
                if k not in ("version", "physical_unit", "date"):
                    mon.check(clause, np.array_equal(u, v), f"{what}: {n}/{k}", key=f"{clause}:{k}")
                continue
            if not mon.check(clause, u.shape == v.shape, f"{what}: {n}/{k} shapes {u.shape} {v.shape}",
                             key=f"{clause}:shape"):
                continue
            nan = np.isnan(u) | np.isnan(v) if u.dtype.kind in "fc" else np.zeros(u.shape, bool)
            if nan.any():
                mon.check(clause, np.array_equal(np.isnan(u), np.isnan(v)), f"{what}: {n}/{k} NaN",
                          key=f"{clause}:nan")
                u, v = np.where(nan, 0, u), np.where(nan, 0, v)
            s = float(np.abs(v).max()) if v.size else 0.0
            mon.close(clause, u, v, 1e-9, 1e-12, s, f"{what}: {n}/{k}", key=f"{clause}:{stem(n)}/{k}")


def stem(n):
    return re.split(r"[-.]", n)[0]


def fresh(d, files):
    os.mkdir(d)
    for f in files:
        shutil.copy(f, d)


def run_cli(c, mon, argv, what):
    code, out = cli.call(*argv, script="phono3py-load" if c["load"] else "phono3py")
    if code != 0:
        low = out[-700:]
        raise Refused(f"{what}: {argv}: exit {code}\n{low}")
    return out


TABLE = {"": "kappa", "(RTA)": "kappa_RTA", "K_P": "kappa_P_RTA", "K_C": "kappa_C",
         "K_T": "kappa_TOT_RTA", "K_P_exact": "kappa_P_exact", "(K_P_RTA)": "kappa_P_RTA",
         "K_TOT=K_P_exact+K_C": "kappa_TOT_exact"}


def printed(mon, out, names, sigmas, what):
    """The table of conductivities on the screen against the file of the same run."""
    names = [n for n in names if n.startswith("kappa-") and n.endswith(".hdf5")
             and not re.search(r"-g\d", n)]
    if not names:  # a part of a calculation
        return
    secs = out.split("----------- Thermal conductivity (W/m-k) ")[1:]
    if not mon.check("printed", len(secs) == len(sigmas), f"{what}: {len(secs)} tables {sigmas}",
                     key="printed:tables"):
        return
    for sigma, sec in zip(sigmas, secs):
        fn = None
        for n in names:
            m = re.search(r"-s(\d[\d.]*\d|\d)", n)
            if (m is None) == (sigma is None) and (m is None or abs(float(m[1]) - sigma) < 6e-6):
                fn = n
        if fn is None:
            mon.check("printed", False, f"{what}: no file of sigma {sigma}", key="printed:file")
            continue
        x = content(fn)
        T = x["temperature"]
        seen, last = {}, None
        for line in sec.splitlines()[1:]:
            k = line.split()
            label = ""
            if k and k[0] in TABLE:
                label = k.pop(0)
            if k and re.fullmatch(r"\d+/\d+", k[-1]):
                k.pop()
            try:
                v = [float(y) for y in k]
            except ValueError:
                continue
            if label == "(RTA)" and len(v) == 6:
                v = [last, *v]
            if len(v) != 7:
                continue
            last = v[0]
            seen.setdefault(label, []).append(v)
        want = {k for k, d in TABLE.items() if k in seen}
        mon.check("printed", len(want) > 0, f"{what}: empty table", key="printed:empty")
        for label in want:
            d = x.get(TABLE[label])
            if d is None:
                continue
            rows = np.array(seen[label])
            pos = [t for t in range(len(T)) if T[t] > 0 or len(rows) == len(T)]
            if mon.check("printed", len(rows) == len(pos), f"{what}: {len(rows)} rows, T {T}",
                         key="printed:rows"):
                mon.check("printed", np.allclose(rows[:, 0], T[pos], rtol=0, atol=0.0501),
                          f"{what}: {rows[:, 0]} {T}", key="printed:T")
                w = np.real(np.array(d)[pos])
                mon.check("printed", np.allclose(rows[:, 1:], w, rtol=1e-9, atol=5.1e-4, equal_nan=True),
                          lambda: f"{what}: {label or 'kappa'} {rows[:, 1:]} / {fn} {w}",
                          n=w.size, key=f"printed:{TABLE[label]}")


class Refused(Exception):
    pass


def runs(c, mon):
    rng = np.random.default_rng(c["pick"])
    c = dict(c)
    p, fc2, fc3 = project(c)
    n3 = 3 * len(p.primitive)
    sup = p.primitive
    c["masses"] = np.array([round(float(x), 3) for x in p.primitive.masses])
    by = {s: float(fmt(rng.uniform(1e-4, 1e-2))) for s in dict.fromkeys(sup.symbols)}
    c["mv"] = [by[s] for s in sup.symbols]
    pl = plan(c, rng, n3)
    yaml = write(c, p, fc2, fc3)
    inputs = sorted(os.listdir("."))
    mode = c["mode"]
    argv = list(pl.argv)
    conf = list(pl.conf)
    if c["src"] == "fc" and not c["load"]:
        argv += ["--fc2", "--fc3"]
        conf += ["READ_FC2 = .TRUE.", "READ_FC3 = .TRUE."]
    top = os.getcwd()
    fresh("api", inputs)
    fresh("cli", inputs)
    os.chdir("api")
    try:
        ref = api(c, pl, yaml)
    except RuntimeError as e:
        if "Grid symmetry" in str(e) or "mesh" in str(e).lower() or "ncommensurate" in str(e) or "onsistent" in str(e):
            raise Skip(f"mesh refused: {e}")
        raise
    files = produced(inputs)
    os.chdir(top)
    # grid points are given as indices or addresses
    if mode in ("ise", "rse", "spf", "jdos", "isotope"):
        grid = ref.grid
        gp = points(pl, grid)
        if pl.ga:
            ad = []
            for g in gp:
                # address of the point in the generalized regular grid
                x = np.array(grid.addresses[g]) % np.array(grid.D_diag)
                ad += [int(v) for v in x]
            t = " ".join(str(x) for x in ad)
            opt, tag = ["--ga", t], f"GRID_ADDRESSES = {t}"
        else:
            t = " ".join(str(x) for x in gp)
            opt, tag = ["--gp", *t.split()], f"GRID_POINTS = {t}"
        argv += opt
        conf.append(tag)
    what = " ".join(str(x) for x in argv)

    def isotope_run(fn):
        """`--isotope` alone prints its result: watch the object that computes it."""
        import phono3py.cui.phono3py_script as scr

        seen = []
        old = scr.Phono3pyIsotope

        class Watch(old):
            def run(self, *a, **k):
                r = super().run(*a, **k)
                seen.append(self)
                return r

        scr.Phono3pyIsotope = Watch
        try:
            fn()
        finally:
            scr.Phono3pyIsotope = old
        return seen[0] if seen else None

    def go(d, args, extra=()):
        os.chdir(os.path.join(top, d))
        try:
            before = produced()
            if mode == "isotope":
                res = isotope_run(lambda: run_cli(c, mon, args, what))
                return res, produced() - set(before)
            out = run_cli(c, mon, args, what)
            if mode in ("rta", "lbte") and "-q" not in args:
                printed(mon, out, [x for x in produced(set(inputs))],
                        pl.attr.get("sigmas") or [None], what)
            return None, produced(set(inputs)) - set(extra)
        finally:
            os.chdir(top)

    mon.sig(c["load"], mode, c["name"], c["src"], tuple(sorted(pl.names)))
    mon.events[f"mode:{mode}"] += 1
    try:
        # whatever is reported on the screen, the results are the same
        loud = {0: ["-v"], 1: ["-q"]}.get(int(rng.integers(5)), [])
        res, got = go("cli", [yaml, *argv, *loud])
    except Refused as e:
        mon.check("cli-run", False, f"{e}", key=f"cli-exit:{mode}")
        return
    out_fc = {"fc2.hdf5", "fc3.hdf5"}
    mon.check("cli-file", got - out_fc == files - out_fc,
              f"{what}: files {sorted(got - out_fc)} / API {sorted(files - out_fc)}", key="cli-files")
    compare(mon, "cli-value", "cli", "api", (got & files) - out_fc, what)
    if mode == "isotope":
        mon.close("cli-value", np.array(res.gamma), np.array(ref.gamma), 1e-9, 1e-14,
                  float(np.abs(ref.gamma).max()) + 1e-30, what, key="isotope-gamma")
    # force constants written by the program
    if c["src"] != "fc" and mode in ("fc", "rta", "lbte"):
        for n, want, pm in (("fc2.hdf5", ref.fc2, ref.phonon_primitive.p2s_map),
                            ("fc3.hdf5", ref.fc3, ref.primitive.p2s_map)):
            if not os.path.exists(f"cli/{n}"):
                mon.check("fc", mode != "fc", f"{what}: {n} not written", key="fc-missing")
                continue
            x = content(f"cli/{n}")
            y = x.get("fc3" if n == "fc3.hdf5" else "force_constants", x.get("fc2"))
            s = float(np.abs(want).max())
            mon.close("fc", y, want, 1e-9, 1e-10, s, f"{what}: {n}", key=f"fc:{n}")
            mon.check("fc", np.array_equal(x["p2s_map"], pm), f"{what}: {n}/p2s_map", key="fc:p2s_map")
    # the same options from a configuration file
    if not pl.noconf:
        fresh("conf", inputs)
        keep = int(rng.integers(2))  # everything in the file, or a mixture
        lines, rest = conf, []
        with open("conf/run.conf", "w") as w:
            for x in lines:
                k, v = x.split(" = ")
                w.write(f"{k if keep else k.lower()} = {v}\n")
            if not c["load"]:
                w.write(f"CELL_FILENAME = {yaml}\n")
        args = [yaml, "--config", "run.conf"] if c["load"] else ["run.conf", *rest]
        try:
            res2, got2 = go("conf", args)
        except Refused as e:
            mon.check("conf-run", False, f"{e}\n{lines}", key=f"conf-exit:{mode}")
            return
        mon.check("conf-value", got2 == got, f"{lines}: files {sorted(got2)} / {sorted(got)}",
                  key="conf-files")
        compare(mon, "conf-value", "conf", "cli", got2 & got, str(lines))
        if mode == "isotope":
            mon.close("conf-value", np.array(res2.gamma), np.array(res.gamma), 1e-9, 1e-14,
                      float(np.abs(res.gamma).max()) + 1e-30, str(lines), key="isotope-gamma")
    # results written by one run and read by another one
    if mode != "fc" and mode != "isotope" and rng.random() < 0.7:
        stages(c, mon, pl, rng, argv, yaml, inputs, go, got - out_fc, what, top)
    # a second run, from the force constants the first one has written
    if c["src"] != "fc" and os.path.exists("cli/fc2.hdf5") and os.path.exists("cli/fc3.hdf5") \
            and mode not in ("isotope",):
        fresh("again", [yaml])
        for n in out_fc:
            shutil.copy(f"cli/{n}", "again")
        args = [x for x in argv]
        if not c["load"]:
            args += ["--fc2", "--fc3"]
        if "symmetrize_fc" in pl.load and pl.load["symmetrize_fc"] and not c["load"]:
            args = [x for x in args if x != "--sym-fc"]
        os.chdir("again")
        inp = inputs[:]
        os.chdir(top)
        try:
            _, got3 = go("again", [yaml, *args])
        except Refused as e:
            mon.check("restart", False, f"{e}", key="restart-exit")
            return
        for n, k in (("fc2.hdf5", "force_constants"), ("fc3.hdf5", "fc3")):
            mon.check("restart", np.array_equal(content(f"cli/{n}")[k], content(f"again/{n}")[k]),
                      f"{what}: {n} that was read is overwritten", key=f"restart-overwrite:{n}")
        names = (got & got3) - out_fc
        mon.check("restart", got - out_fc <= got3, f"{what}: {sorted(got)} / {sorted(got3)} {inp}",
                  key="restart-files")
        for n in names:
            x, y = content(f"cli/{n}"), content(f"again/{n}")
            for k in x:
                if x[k].dtype.kind in "OSU" or k not in y or x[k].shape != y[k].shape:
                    continue
                u, v = np.nan_to_num(x[k]), np.nan_to_num(y[k])
                s = float(np.abs(v).max()) if v.size else 0.0
                mon.close("restart", v, u, 1e-7, 1e-10, s, f"{what}: {n}/{k}",
                          key=f"restart:{stem(n)}/{k}")


def stages(c, mon, pl, rng, argv, yaml, inputs, go, files, what, top):
    """--write-X then --read-X gives what one run gives."""
    mode = c["mode"]
    one = len(pl.attr.get("sigmas", [None])) == 1
    ways = []
    if mode in ("rta", "lbte"):
        ways += ["gamma"] * 3 if mode == "rta" else ["collision"] * 2
        if mode == "rta" and "write-pp" not in pl.names and one and "const-ave-pp" not in pl.names \
                and "full-pp" in pl.names:
            ways += ["pp"] * 3
    if mode in ("rta", "lbte", "ise", "rse", "spf"):
        ways.append("phonon")
    if not ways:
        return
    way = ways[int(rng.integers(len(ways)))]
    fresh("stage", [yaml, *[x for x in inputs if x != yaml]])
    write, read = [f"--write-{way}"], [f"--read-{way}"]
    if way == "collision":
        read.append("all")
    runs_ = [write]
    a = [x for x in argv if x != write[0]]
    if way == "gamma" and rng.random() < 0.6 or way == "collision" and rng.random() < 0.4:
        # one run for each group of grid points
        import phono3py

        q = phono3py.load(os.path.join("cli", yaml), produce_fc=False, log_level=0,
                          **{k: v for k, v in pl.load.items() if k in ("use_grg", "is_mesh_symmetry")})
        q.mesh_numbers = pl.attr["mesh_numbers"]
        from phono3py.phonon.grid import get_ir_grid_points

        ir = q.grid.grg2bzg[get_ir_grid_points(q.grid)[0]]
        n = len(ir)
        if "noks" not in pl.names and n > 1:
            order = [int(x) for x in rng.permutation(ir)]
            cut = int(rng.integers(1, n))
            runs_ = [[*write, "--gp", *map(str, order[:cut])], [*write, "--gp", *map(str, order[cut:])]]
    mon.events[f"stage:{way}:{len(runs_)}"] += 1
    for r in runs_:
        go("stage", [yaml, *a, *r])
    for x in sorted(os.listdir("stage")):
        if x.startswith("kappa") and len(runs_) == 1 and way != "collision":
            # gamma is read from files of all grid points
            if way != "gamma":
                os.remove(os.path.join("stage", x))
    try:
        drop = ("--write-gamma", "--write-gamma-detail") if way == "gamma" else ()
        _, new = go("stage", [yaml, *[x for x in a if x not in drop], *read])
    except Refused as e:
        mon.check("restart", False, f"{runs_} {read}: {e}", key=f"restart-exit:{way}")
        return
    skip = {"gamma_N", "gamma_U"}
    for n in sorted(files & new):
        if n.startswith("kappa") and n.count("-g"):
            continue
        x, y = content(f"cli/{n}"), content(f"stage/{n}")
        for k in x:
            if x[k].dtype.kind in "OSU" or k not in y or k in skip or x[k].shape != y[k].shape:
                continue
            u, v = np.nan_to_num(x[k]), np.nan_to_num(y[k])
            s = float(np.abs(u).max()) if v.size else 0.0
            mon.close("restart", v, u, 1e-7, 1e-10, s, f"{what} {runs_} {read}: {n}/{k}",
                      key=f"restart:{way}:{stem(n)}/{k}")


# ---------------------------------------------------------------------------
def disp(c, mon):
    """-d, --rd: displacement datasets and supercells."""
    from phonopy.interface.vasp import read_vasp, write_vasp

    import phono3py
    from phono3py import Phono3py

    rng = np.random.default_rng(c["pick"])
    s = M.setting(c["name"], c["set"])
    cell = s.get("cell") or M.unitcell(c["name"])
    write_vasp("POSCAR", cell)
    cell = read_vasp("POSCAR")
    dim = list(s["dim"])
    args = ["--dim", *dim] if rng.integers(2) else ["--dim", " ".join(str(x) for x in dim)]
    conf = ["DIM = " + " ".join(str(x) for x in dim)]
    kw = {}
    pm = M.centring(c["name"])
    pa = pm if pm == "auto" or isinstance(pm, str) else None
    if pa and "cell" not in s and s.get("primitive", "auto") == "auto" and rng.integers(2):
        args += ["--pa", pa]
        conf.append(f"PRIMITIVE_AXES = {pa}")
        kw["primitive_matrix"] = pa
    else:
        kw["primitive_matrix"] = None
    gk, fk = {}, {}
    mode = int(rng.integers(3))
    two = None
    if rng.random() < 0.4:
        two = [d + int(x) for d, x in zip(dim, rng.integers(0, 2, 3))]
        if len(cell) * np.prod(two) > 64:
            two = dim
        if M.DIMS[c["name"]][c["set"]][0]:
            two = dim
        args += ["--dim-fc2", *two]
        conf.append("DIM_FC2 = " + " ".join(str(x) for x in two))
        kw["phonon_supercell_matrix"] = np.diag(two)
    if rng.random() < 0.6:
        x = float(fmt(rng.uniform(0.005, 0.1)))
        args += ["--amplitude", x]
        conf.append(f"DISPLACEMENT_DISTANCE = {x}")
        gk["distance"] = fk["distance"] = x
    else:
        gk["distance"] = fk["distance"] = 0.03
    if mode < 2:
        args.append("-d")
        conf.append("CREATE_DISPLACEMENTS = .TRUE.")
        if rng.random() < 0.4:
            args.append("--pm")
            conf.append("PM = .TRUE.")
            gk["is_plusminus"] = True
        if rng.random() < 0.4 and two:
            args.append("--pm-fc2")
            conf.append("PM_FC2 = .TRUE.")
            fk["is_plusminus"] = True
        if rng.random() < 0.3:
            args.append("--nodiag")
            conf.append("DIAG = .FALSE.")
            gk["is_diagonal"] = False
        else:
            gk["is_diagonal"] = True
        if rng.random() < 0.4:
            x = float(fmt(rng.uniform(1.5, 6)))
            args += ["--cutoff-pair", x]
            conf.append(f"CUTOFF_PAIR_DISTANCE = {x}")
            gk["cutoff_pair_distance"] = x
    else:
        n, seed = int(rng.integers(1, 6)), int(rng.integers(1, 1000))
        args += ["--rd", n, "--random-seed", seed]
        conf += [f"RANDOM_DISPLACEMENTS = {n}", f"RANDOM_SEED = {seed}"]
        gk.update(number_of_snapshots=n, random_seed=seed)
        fk.update(random_seed=seed)
        if two:
            m = int(rng.integers(1, 6))
            args += ["--rd-fc2", m]
            conf.append(f"RANDOM_DISPLACEMENTS_FC2 = {m}")
            fk.update(number_of_snapshots=m)
    what = " ".join(str(x) for x in args)
    p = Phono3py(cell, supercell_matrix=np.diag(dim), **kw)
    p.generate_displacements(**gk)
    if two:
        p.generate_fc2_displacements(**fk)
    top = os.getcwd()
    with open("disp.conf", "w") as w:
        w.write("\n".join(conf + ["CELL_FILENAME = POSCAR"]) + "\n")
    for d, argv in (("a", [*args, "-c", "POSCAR"]), ("b", ["disp.conf"])):
        os.mkdir(d)
        shutil.copy("POSCAR", d)
        shutil.copy("disp.conf", d)
        os.chdir(d)
        code, out = cli.call(*argv)
        if not mon.check("disp", code == 0, f"{argv}: exit {code}\n{out[-500:]}", key="disp-exit"):
            os.chdir(top)
            return
        q = phono3py.load("phono3py_disp.yaml", produce_fc=False)
        mon.check("disp", np.array_equal(q.supercell_matrix, p.supercell_matrix), what, key="disp:dim")
        mon.close("disp", q.primitive.cell, p.primitive.cell, 0, 1e-10, 1.0, what, key="disp:primitive")
        pairs(mon, q.dataset, p.dataset, what, "dataset")
        n = 0
        for i, x in enumerate(p.supercells_with_displacements):
            fn = f"POSCAR-{i + 1:05d}"
            if x is None:
                mon.check("disp", not os.path.exists(fn), f"{what}: {fn} beyond the cutoff is written",
                          key="disp:cutoff-file")
                continue
            n += 1
            if i in (0, 1) or rng.random() < 0.1:
                if mon.check("disp", os.path.exists(fn), f"{what}: {fn} missing", key="disp:file"):
                    y = read_vasp(fn)
                    dd = y.scaled_positions - x.scaled_positions
                    mon.close("disp", dd - np.rint(dd), 0 * dd, 0, 1e-12, 1.0, f"{what}: {fn}",
                              key="disp:supercell")
        mon.check("disp", len(glob.glob("POSCAR-*")) == n, f"{what}: number of supercells", key="disp:files")
        if two:
            mon.check("disp", np.array_equal(q.phonon_supercell_matrix, np.diag(two)), what,
                      key="disp:dim_fc2")
            pairs(mon, q.phonon_dataset, p.phonon_dataset, what, "phonon dataset")
        os.chdir(top)
    mon.sig("disp", c["name"], tuple(re.findall(r"--?[a-z][\w-]*", what)))


def pairs(mon, a, b, what, name):
    """Two displacement datasets are the same."""
    if not mon.check("disp", ("first_atoms" in a) == ("first_atoms" in b), f"{what}: {name} type",
                     key="disp:type"):
        return
    if "first_atoms" not in a:
        mon.close("disp", a["displacements"], b["displacements"], 0, 1e-12, 1.0, f"{what}: {name}",
                  key="disp:random")
        return
    if not mon.check("disp", len(a["first_atoms"]) == len(b["first_atoms"]), f"{what}: {name}",
                     key="disp:first"):
        return
    if "cutoff_distance" in b or "cutoff_distance" in a:
        mon.check("disp", abs(a.get("cutoff_distance", -1) - b.get("cutoff_distance", -1)) < 1e-9,
                  f"{what}: cutoff distance", key="disp:cutoff")
    for x, y in zip(a["first_atoms"], b["first_atoms"]):
        mon.check("disp", x["number"] == y["number"] and
                  np.allclose(x["displacement"], y["displacement"], rtol=0, atol=1e-12),
                  f"{what}: {name} first atom", key="disp:first")
        u, v = x.get("second_atoms", []), y.get("second_atoms", [])
        ok = len(u) == len(v) and all(
            s["number"] == t["number"] and s.get("included", True) == t.get("included", True)
            and np.allclose(s["displacement"], t["displacement"], rtol=0, atol=1e-12)
            for s, t in zip(u, v))
        mon.check("disp", ok, f"{what}: {name} second atoms", key="disp:second")


def grid_info(c, mon, rng, p, yaml):
    """--wgp, --stp: grids and numbers of triplets."""
    import yaml as Y

    from harness import gridgen as G
    from phono3py.phonon3.triplets import get_triplets_at_q

    grg = bool(rng.random() < 0.4)
    m = float(fmt(rng.uniform(6, 14))) if grg else [int(x) for x in rng.integers(1, 5, size=3)]
    noks = bool(rng.random() < 0.3)
    base = [yaml, "--mesh", *([fmt(m), "--grg"] if grg else m)] + ["--noks"] * noks
    import phono3py

    ph3 = phono3py.load(yaml, log_level=0, produce_fc=False, use_grg=grg)
    ok = True
    try:
        ph3.mesh_numbers = m
    except RuntimeError:
        ok = False
    if not ok:
        code, out = quiet(c, *base, "--wgp")
        mon.check("grid-info", code != 0, f"{base}: refused mesh accepted", key="grid-refused")
        return
    g = ph3.grid
    code, out = quiet(c, *base, "--wgp")
    if not mon.check("grid-info", code == 0, f"{base} --wgp: {out[-300:]}", key="wgp"):
        return
    d = Y.safe_load(open("ir_grid_points.yaml"))
    N = int(np.prod(g.D_diag))
    rows = d["ir_grid_points"]
    mon.equal("grid-info", np.array(d["mesh"]), np.array(g.D_diag), key="wgp:mesh")
    gp = np.array([r["grid_point"] for r in rows])
    w = np.array([r["weight"] for r in rows])
    ad = np.array([r["grid_address"] for r in rows])
    mon.equal("grid-info", ad, np.array(g.addresses)[gp], key="wgp:address")
    q = ad @ np.array(g.QDinv).T
    mon.close("grid-info", np.array([r["q-point"] for r in rows]), q, atol=1e-6, key="wgp:q")
    mon.close("grid-info", np.array(d["reciprocal_lattice"]) @ ph3.primitive.cell.T, np.eye(3),
              atol=1e-6, key="wgp:lattice")
    W = [np.eye(3, dtype=int)] if noks else G.point_group(G.dataset(ph3.primitive))

    def label(v):
        x = np.mod(np.array([r @ v for r in W]) + 1e-7, 1)
        return min(map(tuple, (np.rint(x * 1e6).astype(int) % 10**6).tolist()))

    allq = np.array(g.addresses)[np.array(g.grg2bzg)] @ np.array(g.QDinv).T
    cnt = {}
    for v in allq:
        k = label(v)
        cnt[k] = cnt.get(k, 0) + 1
    lab = [label(v) for v in q]
    mon.check("grid-info", len(set(lab)) == len(lab) == len(cnt) == d["num_reduced_ir_grid_points"],
              f"{len(lab)} points, {len(set(lab))} stars of {len(cnt)}", key="wgp:stars")
    mon.equal("grid-info", w, np.array([cnt[k] for k in lab]), key="wgp:weight")
    fn = [x for x in os.listdir(".") if x.startswith("grid_address-m")]
    mon.check("grid-info", fn == ["grid_address-m%d%d%d.hdf5" % tuple(g.D_diag)] or
              max(g.D_diag) > 9, str(fn), key="wgp:file")
    with h5py.File(fn[0]) as h:
        mon.equal("grid-info", h["grid_address"][:], np.array(g.addresses), key="wgp:hdf5")
        mon.equal("grid-info", h["grid_mapping_table"][:], np.array(g.gp_map), key="wgp:map")
    # triplets
    k = int(rng.integers(4))
    some = None if k == 0 else sorted(int(x) for x in rng.integers(len(g.addresses), size=k))
    opt = []
    if some is not None and rng.random() < 0.5:
        a = [np.array(g.addresses[x]) % np.array(g.D_diag) for x in some]
        some = [int(g.grg2bzg[np.array(g.bzg2grg)[x]]) for x in some]
        opt = ["--ga", " ".join(str(int(v)) for x in a for v in x)]
    elif some is not None:
        opt = ["--gp", *some]
    code, out = quiet(c, *base, "--stp", *opt)
    if not mon.check("grid-info", code == 0, f"{base} --stp {opt}: {out[-300:]}", key="stp"):
        return
    got = re.findall(r"(?m)^ +(\d+) +\( *(-?[\d.]+) +(-?[\d.]+) +(-?[\d.]+)\) +(\d+) ", out)
    want = gp.tolist() if some is None else some
    mon.check("grid-info", [int(x[0]) for x in got] == want, f"{opt}: points {got} not {want}",
              key="stp:points")
    for x in got:
        i = int(x[0])
        mon.close("grid-info", np.array([float(v) for v in x[1:4]]),
                  np.array(g.addresses[i]) @ np.array(g.QDinv).T, atol=0.0051, key="stp:q")
        t = get_triplets_at_q(i, g)[1]
        mon.check("grid-info", len(t) == int(x[4]) and t.sum() == N,
                  f"{x[4]} triplets of {len(t)} at {i}", key="stp:number")


def gruneisen(c, mon, rng, p, yaml):
    """--gruneisen on meshes, paths and points."""
    import phono3py
    import yaml as Y

    from phono3py.phonon3.gruneisen import Gruneisen

    kw = {"is_nac": c["load"], "symmetrize_fc": c["load"], "is_compact_fc": False}
    opt = []
    if c["load"] and rng.random() < 0.4:
        opt, kw["is_nac"] = ["--nonac"], False
    elif not c["load"] and c["nac"] and rng.random() < 0.6:
        opt, kw["is_nac"] = ["--nac"], True
    if rng.random() < 0.3:
        opt.append("--cfc")
        kw["is_compact_fc"] = True
    clamp = bool(rng.random() < 0.3)
    opt += ["--ion-clamped"] * clamp
    ph3 = phono3py.load(yaml, log_level=0, **kw)
    kind = ["mesh", "band", "qpoints"][int(rng.integers(3))]
    o = Gruneisen(ph3.fc2, ph3.fc3, ph3.supercell, ph3.primitive, nac_params=ph3.nac_params,
                  ion_clamped=clamp)
    if kind == "mesh":
        m = [int(x) for x in rng.integers(1, 4, size=3)]
        opt += ["--mesh", *m]
    else:
        q = rng.uniform(-0.5, 0.5, size=(3, 3)).round(4)
        t = " ".join(f"{x:.4f}" for x in q.ravel())
        if kind == "band":
            np_ = int(rng.integers(2, 6))
            opt += ["--band=" + t] + (["--band-points", np_] if rng.random() < 0.7 else [])
            np_ = np_ if "--band-points" in opt else 51
            paths = [np.array([a + (b - a) * i / (np_ - 1) for i in range(np_)])
                     for a, b in zip(q, q[1:])]
        else:
            opt += ["--qpoints=" + t]
    code, out = quiet(c, yaml, "--gruneisen", *opt)
    if not mon.check("gruneisen", code == 0, f"--gruneisen {opt}: {out[-300:]}", key="grun"):
        return

    def same(gt, fr, q, what):
        o.set_qpoints(np.array(q))
        o.run()
        f0, g0 = np.array(o._frequencies), np.array(o.get_gruneisen_parameters())
        mon.close("gruneisen", np.array(fr), f0, atol=2e-6, key=f"grun:{what}:freq")
        # modes that are degenerate or soft are compared by their sums only
        for a, b, f in zip(np.array(gt), g0, f0):
            if np.abs(f).min() < 0.05:
                continue
            lo = 0
            for hi in range(1, len(f) + 1):
                if hi == len(f) or f[hi] - f[hi - 1] > 1e-3:
                    x, y = a[lo:hi].sum(0), b[lo:hi].sum(0)
                    mon.close("gruneisen", x, y, rtol=1e-4, atol=1e-6 * (hi - lo) + 2e-5,
                              key=f"grun:{what}")
                    lo = hi

    if kind == "mesh":
        with h5py.File("gruneisen.hdf5") as h:
            mon.equal("gruneisen", h["mesh"][:], np.array(m), key="grun:mesh")
            w = h["weight"][:]
            mon.check("gruneisen", w.sum() == np.prod(m), f"{w.sum()} of {np.prod(m)}",
                      key="grun:weights")
            gt = h["gruneisen_tensor"][:]
            mon.close("gruneisen", h["gruneisen"][:], np.trace(gt, axis1=2, axis2=3) / 3, rtol=1e-9,
                      atol=1e-12, key="grun:trace")
            x = h["qpoint"][:] * np.array(m)
            mon.check("gruneisen", np.abs(x - np.rint(x)).max() < 1e-8, f"{x}", key="grun:gamma-centre")
            same(gt, h["frequency"][:], h["qpoint"][:], "mesh")
    else:
        d = Y.safe_load(open("gruneisen.yaml"))
        if kind == "band":
            seg = d["path"]
            mon.check("gruneisen", [x["nqpoint"] for x in seg] == [np_] * 2, str(len(seg)),
                      key="grun:segments")
            dist = 0
            for pth, sg in zip(paths, seg):
                ph_ = sg["phonon"]
                mon.close("gruneisen", np.array([x["q-position"] for x in ph_]), pth, atol=2e-7,
                          key="grun:path")
                r = (pth - pth[0]) @ np.linalg.inv(ph3.primitive.cell).T
                mon.close("gruneisen", np.array([x["distance"] for x in ph_]),
                          np.linalg.norm(r, axis=1), atol=2e-7, key="grun:distance")
                same([[b["gruneisen_tensor"] for b in x["band"]] for x in ph_],
                     [[b["frequency"] for b in x["band"]] for x in ph_], pth, "band")
        else:
            ph_ = d["phonon"]
            mon.close("gruneisen", np.array([x["q-position"] for x in ph_]), q, atol=2e-7,
                      key="grun:qpoints")
            same([[b["gruneisen_tensor"] for b in x["band"]] for x in ph_],
                 [[b["frequency"] for b in x["band"]] for x in ph_], q, "qpoints")


def force_sets(c, mon, rng, p, yaml):
    """--cfs: FORCES_FC3 or FORCES_FC2 to FORCE_SETS of phonopy."""
    from phonopy.file_IO import parse_FORCE_SETS

    opt, ds = [], p.dataset
    if p.phonon_supercell_matrix is not None and rng.random() < 0.6:
        opt = ["--dim-fc2", *np.diag(p.phonon_supercell_matrix)]
        ds = p.phonon_dataset
    code, out = cli.call("--cfs", *opt)
    if not mon.check("force-sets", code == 0 and os.path.exists("FORCE_SETS"),
                     f"--cfs {opt}: {out[-300:]}", key="cfs"):
        return
    d = parse_FORCE_SETS()
    mon.check("force-sets", len(d["first_atoms"]) == len(ds["first_atoms"]), "number", key="cfs:number")
    for a, b in zip(d["first_atoms"], ds["first_atoms"]):
        mon.check("force-sets", a["number"] == b["number"], "atom", key="cfs:atom")
        mon.close("force-sets", np.array(a["displacement"]), np.array(b["displacement"]), atol=1e-9,
                  key="cfs:displacement")
        mon.close("force-sets", np.array(a["forces"]), np.array(b["forces"]), atol=1e-9,
                  key="cfs:forces")


def quiet(c, *argv):
    try:
        return cli.call(*argv, script="phono3py-load" if c["load"] else "phono3py")
    except Exception as e:  # an escaping exception is a failing program
        return 99, f"{type(e).__name__}: {e}"


def info(c, mon):
    rng = np.random.default_rng(c["pick"])
    c = dict(c)
    p, fc2, fc3 = project(c)
    what = c["what"]
    c["src"] = "forces" if what == "cfs" else "params"
    yaml = write(c, p, fc2, fc3)
    {"grid": grid_info, "grun": gruneisen, "cfs": force_sets}[what](c, mon, rng, p, yaml)
    mon.sig("info", what, c["name"], c["load"], c["pick"])


def run(c, mon):
    {"disp": disp, "run": runs, "info": info}[c["kind"]](c, mon)
