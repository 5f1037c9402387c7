"""C30: native code is free of memory errors and undefined behaviour.

Workloads are the cases of the behavioural checks (their judgements are ignored here) and public
API calls with extreme sizes.  They run
  * with the extensions compiled with AddressSanitizer and UndefinedBehaviorSanitizer
    (with and without LAPACKE), one report kills the process and becomes the violation;
  * with every native call repeated under three different contents of heap and stack: whatever
    it returns or leaves in its arguments must be bit-for-bit the same.
"""

import ctypes

import numpy as np

from harness import build as bld
from harness import models as M
from harness import native, ph, workload
from harness.core import Skip

PROP = "C30"
RULE = "distinct (native function, condition, argument shapes)"
LATE = "skip"
JOBS = 8
BUDGET = {"quick": 420, "thorough": 1500}
CASE_TIMEOUT = {"quick": 120, "thorough": 600}
ASSUMPTIONS = [
    "the sanitizers instrument the three extension modules, not numpy, BLAS and Python",
    "reads of uninitialised memory are visible only if a result of the call depends on them",
]
SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
           "C13", "C16", "C17", "C20", "C21", "C22", "C23", "C24", "C26", "C28", "C29"]
FILLS = (0x00, 0x40, 0x7F)


def REQUIRED(tier):
    return {"asan:calls": 300, "asan:functions": 15, "poison:compared": 300,
            "asanlap:calls": 5, "edge": 6}


def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = []
    for variant, k in (("asan", 34), ("poison", 30), ("asanlap", 5), ("poisonlap", 5)):
        src = SOURCES if not variant.endswith("lap") else ["C04", "C08", "C12", "C13"]
        for it in workload.sample(tier, rng, src, k * n):
            out.append(dict(it, kind="work", variant=variant))
    import checks.c16 as c16

    fd = [x for x in c16.cases("quick", rng) if x["kind"] != "fit" and not x.get("variant")]
    for variant in ("asan", "poison") * (2 * n):
        out.append(dict(kind="work", prop="C16", variant=variant,
                        case=dict(fd[int(rng.integers(len(fd)))], seed=int(rng.integers(1 << 31)))))
    for variant in ("asan", "asanlap", "poison"):
        for _ in range((5 if variant == "asan" else 3) * n):
            out.append(dict(kind="edge", variant=variant, case=edge_case(rng), prop="edge"))
    return out


def edge_case(rng):
    c = ph.gen(rng, max_mesh=3, max_atoms=4, min_mesh=1)
    c["temps"] = [[], [0.0], [300.0], [0.0, 1e-3, 1e5]][int(rng.integers(4))]
    c["fpts"] = int(rng.choice([0, 1, 2, 7]))
    c["nsigma"] = int(rng.integers(3))
    c["sym"] = bool(rng.integers(2))
    c["sel"] = int(rng.integers(1 << 30))
    return c


# ---------------------------------------------------------------------------
def edge(c, mon):
    """Sizes at the borders of what the API takes."""
    rng = np.random.default_rng(c["sel"])
    ph3 = ph.build(c, is_mesh_symmetry=c["sym"])
    if ph3 is None:
        raise Skip("mesh refused")
    ph3.sigmas = [None, 0.2, 1e-3][: 1 + c["nsigma"]]
    n3 = len(ph3.primitive) * 3
    k = int(rng.integers(1, n3 + 1))
    bands = [sorted(int(i) for i in rng.choice(n3, k, replace=False))]
    if rng.integers(2):
        bands = [[i] for i in bands[0]]
    ph3.band_indices = bands
    mon.events["edge"] += 1

    def attempt(f):
        try:
            f()
            mon.events["edge:returned"] += 1
        except Exception as e:  # refusing is fine
            mon.events[f"edge:{type(e).__name__}"] += 1

    gps = [0, int(ph3.grid.grg2bzg[-1])]
    t = c["temps"]
    fp = np.linspace(0, 5, c["fpts"])
    attempt(lambda: ph3.init_phph_interaction())
    attempt(lambda: ph3.run_imag_self_energy(gps, t, frequency_points=fp,
                                             num_points_in_batch=int(rng.integers(1, 5))))
    attempt(lambda: ph3.run_imag_self_energy([], [300.0], frequency_points=fp))
    attempt(lambda: ph3.run_imag_self_energy(gps, [300.0], frequency_points_at_bands=True))
    attempt(lambda: ph3.run_real_self_energy(gps, t, epsilons=[0.1], frequency_points=fp))
    attempt(lambda: ph3.run_spectral_function(gps, t or [300.0], num_frequency_points=3))
    attempt(lambda: ph3.run_phonon_solver(np.array([], dtype="int64")))
    attempt(lambda: ph3.run_thermal_conductivity(temperatures=t, is_isotope=bool(rng.integers(2)),
                                                 is_N_U=bool(rng.integers(2))))
    attempt(lambda: ph3.run_thermal_conductivity(is_LBTE=True, temperatures=t or [300.0]))


class Poison:
    """Repeat every native call with other heap and stack contents."""

    def __init__(self, mon):
        lib = ctypes.CDLL(str(bld.helper("poison")))
        self.fill = lib.vf_poison
        self.fill.argtypes = [ctypes.c_int]
        self.fill.restype = None
        self.mon = mon
        self.cost = 0

    def __call__(self, name, f, a, k):
        m = self.mon
        if name in ("omp_max_threads", "include_lapacke", "use_openmp"):
            return f(*a, **k)
        cond = [(x, lambda x=x: self.fill(x), lambda: self.fill(-1)) for x in FILLS]
        ret, res = native.repeat(f, a, k, cond)
        m.events["poison:calls"] += 1
        if not res:
            return ret
        m.events["poison:compared"] += 1
        m.sig("poison", name, [x.shape for x in res[0][2]])
        for label, r, arr in res[1:]:
            for what, xs, ys in (("returned", res[0][1], r), ("argument", res[0][2], arr)):
                for i, (x, y) in enumerate(zip(xs, ys)):
                    d = native.same(x, y, 0)
                    if d is not None:
                        m.violation(f"heap-content:{name}",
                                    f"{name}: {what} {i} depends on the contents of fresh memory "
                                    f"(fill {FILLS[0]:#x} / {label:#x}): {d}")
        return ret


def run(c, mon):
    variant = c["variant"]

    def count(name, f, a, k):
        mon.events[f"{variant}:calls"] += 1
        key = f"{variant}:fn:{name}"
        if mon.events[key] == 0 and variant == "asan":
            mon.events["asan:functions"] += 1
        mon.events[key] += 1
        mon.sig(variant, name, [x.shape for x in native.arrays(a, k)])
        return f(*a, **k)

    watch = count if variant.startswith("asan") else Poison(mon)
    with native.Calls(watch):
        if c["kind"] == "edge":
            edge(c["case"], mon)
        else:
            r = workload.run({"prop": c["prop"], "case": c["case"]})
            mon.events[f"workload:{r}"] += 1
