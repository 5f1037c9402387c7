"""C31: results are independent of the number of threads and their scheduling.

Workloads are the cases of the behavioural checks (judgements ignored).
  * threads: every call into the extensions is repeated on the same inputs with 1 thread and with
    several teams of threads under a substitute OpenMP runtime (harness/gompshim.c) that starts
    threads in random order, delays them and cuts loops at random places; also under libgomp.
  * race: extensions compiled with ThreadSanitizer, on the same substitute runtime (made of
    pthreads that the detector understands); a report kills the process and is the violation.
  * branch: calculations with work distributed over triplets, over bands, or as the code chooses.
"""

import ctypes

import numpy as np

from harness import native, ph, workload
from harness.core import Skip

PROP = "C31"
RULE = "distinct (native function, condition, argument shapes, number of parallel regions run)"
LATE = "skip"
JOBS = 8
BUDGET = {"quick": 420, "thorough": 1500}
CASE_TIMEOUT = {"quick": 100, "thorough": 600}
ASSUMPTIONS = [
    "ThreadSanitizer sees the accesses of the extension modules, not those inside BLAS/LAPACK",
    "races are observed under the schedules of the substitute OpenMP runtime",
]
RTOL = 1e-10
SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C17",
           "C20", "C21", "C22", "C23", "C24", "C26", "C28"]
LAP = ["C04", "C07", "C08", "C12", "C13"]


def REQUIRED(tier):
    return {"shim:compared": 300, "shim:parallel": 100, "gomp:compared": 100, "tsan:calls": 300,
            "tsan:regions": 100, "branch": 3, "shimlap:parallel": 3, "tsanlap:regions": 3}


def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = []
    for variant, k in (("tsan", 30), ("shim", 30), ("gomp", 8), ("tsanlap", 6), ("shimlap", 6)):
        for it in workload.sample(tier, rng, LAP if variant.endswith("lap") else SOURCES, k * n):
            out.append(dict(it, kind="work", variant=variant))
    for variant in ("tsan", "shim", "gomp"):
        for _ in range(4 * n):
            c = ph.gen(rng, max_mesh=4, max_atoms=4, min_mesh=2)
            c.update(sigma=bool(rng.integers(2)), ci=bool(rng.integers(2)),
                     gp=float(rng.random()))
            out.append(dict(kind="branch", variant=variant, prop="branch", case=c))
    return out


class Runtime:
    """The OpenMP runtime of this process."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            self.shim = bool(lib.vf_seed)
        except AttributeError:
            self.shim = False
            lib = ctypes.CDLL("libgomp.so.1")
        self.lib = lib
        if self.shim:
            lib.vf_regions.restype = lib.vf_chunks.restype = ctypes.c_ulong
            lib.vf_seed.argtypes = [ctypes.c_ulong]

    def set(self, n, seed=0):
        self.lib.omp_set_num_threads(ctypes.c_int(n))
        if self.shim:
            self.lib.vf_seed(seed)

    def regions(self):
        return int(self.lib.vf_regions()) if self.shim else 0


class Threads:
    """Repeat every native call with other teams of threads."""

    def __init__(self, mon, rng, rt, tag):
        self.mon, self.rng, self.rt, self.tag = mon, rng, rt, tag

    def __call__(self, name, f, a, k):
        m, rt = self.mon, self.rt
        if name in ("omp_max_threads", "include_lapacke", "default_colmat_solver"):
            return f(*a, **k)
        r0 = rt.regions()
        team = [(1, 0)] + [(int(self.rng.choice([2, 3, 5, 8])), int(self.rng.integers(1, 2**40)))
                           for _ in range(2 if rt.shim else 1)]
        cond = [(t, lambda t=t: rt.set(*t), lambda: None) for t in team]
        ret, res = native.repeat(f, a, k, cond)
        rt.set(1)
        if not res:
            return ret
        m.events[f"{self.tag}:compared"] += 1
        reg = rt.regions() - r0
        if reg:
            m.events[f"{self.tag}:parallel"] += 1
            m.events[f"{self.tag}:fn:{name}"] += 1
            m.sig(self.tag, name, [x.shape for x in res[0][2]], reg)
        for label, r, arr in res[1:]:
            for what, xs, ys in (("returned", res[0][1], r), ("argument", res[0][2], arr)):
                for i, (x, y) in enumerate(zip(xs, ys)):
                    d = native.same(x, y, RTOL)
                    if d is not None:
                        m.violation(f"threads:{name}",
                                    f"{name}: {what} {i} with 1 thread and with {label[0]} "
                                    f"(schedule seed {label[1]}): {d}")
        return ret


class Race:
    def __init__(self, mon, rng, rt, tag):
        self.mon, self.rng, self.rt, self.tag = mon, rng, rt, tag

    def __call__(self, name, f, a, k):
        self.rt.set(int(self.rng.choice([2, 3, 4])), int(self.rng.integers(1, 2**40)))
        r0 = self.rt.regions()
        ret = f(*a, **k)
        reg = self.rt.regions() - r0
        m = self.mon
        m.events[f"{self.tag}:calls"] += 1
        m.events[f"{self.tag}:regions"] += reg
        if reg:
            m.events[f"{self.tag}:fn:{name}"] += 1
            m.sig(self.tag, name, [x.shape for x in native.arrays(a, k)], reg)
        return ret


def results(c, flag):
    """Public results with a given distribution of work."""
    ph3 = ph.build(c, mesh=True)
    if ph3 is None:
        raise Skip("mesh refused")
    ph3.sigmas = [0.3] if c["sigma"] else [None]
    ph3.init_phph_interaction(openmp_per_triplets=flag)
    gp = ph.ir_gps(ph3)
    gp = int(gp[int(c["gp"] * len(gp))])
    out = {}
    pp = ph3.phph_interaction
    g, d = ph3.run_imag_self_energy([gp], [0.0, 300.0], frequency_points=[0.5, 2.0, 4.0])[:2]
    out["strength"] = np.array(pp.interaction_strength)
    out["im"] = np.array(d)
    ph3.run_thermal_conductivity(temperatures=[50.0, 300.0], is_N_U=c["ci"],
                                 is_full_pp=not c["ci"], is_isotope=True)
    tc = ph3.thermal_conductivity
    out["kappa"], out["gamma"] = np.array(tc.kappa), np.array(tc.gamma)
    out["iso"] = np.array(tc.gamma_isotope)
    out["freq"] = np.array(ph3.get_phonon_data()[0])
    ph3.run_real_self_energy([gp], [300.0], frequency_points=[1.0, 3.0], epsilons=[0.1])
    out["re"] = np.array(ph3._real_self_energies if hasattr(ph3, "_real_self_energies") else 0)
    return out


def branch(c, mon, rt, tag, rng):
    seen = []
    for flag, t in ((True, 1), (False, 1), (None, 4), (True, 4), (False, 3)):
        rt.set(t, int(rng.integers(1, 2**40)))
        seen.append(results(c, flag))
    for x in seen[1:]:
        for k in x:
            a, b = seen[0][k], x[k]
            if k == "kappa":
                mon.close(f"branch-{k}", b, a, 1e-8, 1e-10, float(np.abs(a).max()) + 1e-30,
                          "work distribution or number of threads")
            else:
                mon.close(f"branch-{k}", b, a, 1e-9, 1e-9, float(np.abs(a).max()) + 1e-30,
                          "work distribution or number of threads")
    mon.events["branch"] += 1
    mon.sig("branch", tag, c["name"], c["mesh"])


def run(c, mon):
    rt = Runtime()
    rng = np.random.default_rng(c["seed"])
    tag = c["variant"]
    if c["kind"] == "branch":
        return branch(c["case"], mon, rt, tag, rng)
    watch = (Race if tag.startswith("tsan") else Threads)(mon, rng, rt, tag)
    with native.Calls(watch):
        r = workload.run({"prop": c["prop"], "case": c["case"]})
        mon.events[f"workload:{r}"] += 1
