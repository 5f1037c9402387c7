"""C20: results depend only on the current settings."""

import numpy as np

from harness import models as M
from harness import ph
from harness.core import Skip

PROP = "C20"
RULE = (
    "one object lives through a random history of setting changes (mesh, force constants, compact "
    "or full, masses, NAC parameters and direction, band selection, smearings, smearing cutoff, "
    "interaction options, foreign phonons) and calculations (linewidths, frequency-resolved "
    "linewidths, frequency shifts, spectral functions, RTA and direct conductivities, interaction "
    "strengths, grid phonons, joint DOS, isotope rates, Grueneisen parameters); after every "
    "calculation a fresh object is built with the current settings and makes the same calculation, "
    "both results are compared, the caller's arrays are compared with copies, and some "
    "calculations are repeated; distinct by (kind, crystal, sequence of operations)"
)
REQUIRED = {"same": 300, "repeat": 40, "inputs": 300, "ise": 30, "rta": 20, "real": 10,
            "spec": 5, "strength": 10, "phon": 10, "low-ise": 30, "low-real": 15, "low-jdos": 15,
            "low-iso": 15, "jdos-api": 5, "grun": 5}


def cases(tier, rng):
    n = 80 if tier == "quick" else 1000
    out = []
    for i in range(n):
        kind = ["api", "api", "ise", "api", "real", "jdos", "api", "iso", "pp", "pp"][i % 10]
        nac = 0.6 if kind in ("api", "jdos", "iso", "pp") else 0.2
        names = None
        if kind != "ise" and rng.random() < 0.5:
            names = [x for x in M.POLAR if M.NATOM[x] <= 4]
        c = ph.gen(rng, max_mesh=3, max_atoms=4, nac=nac, names=names, min_mesh=1 + (i % 3 > 0))
        c["kind"] = kind
        c["gamma"] = kind == "pp" and i % 10 == 9  # phonons at Gamma with and without direction
        if c["gamma"]:
            c = ph.gen(rng, max_mesh=3, max_atoms=4, nac=1.0, min_mesh=1 + (i % 3 > 0),
                       names=[x for x in M.POLAR if M.NATOM[x] <= 4]) | {"kind": kind, "gamma": True}
        c["ms"] = bool(rng.random() < 0.85)
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 0.5]))
        c["len"] = int(rng.integers(6, 14))
        out.append(c)
    return out


# ---------------------------------------------------------------------------
class Guard:
    """Copies of the arrays handed to the code."""

    def __init__(self, mon):
        self.mon = mon
        self.kept = []

    def __call__(self, name, a):
        if isinstance(a, np.ndarray):
            self.kept.append((name, a, a.copy()))
        elif isinstance(a, dict):
            for k, v in a.items():
                self(f"{name}.{k}", v)
        elif isinstance(a, list):
            self.kept.append((name, a, repr(a)))
        return a

    def verify(self, where):
        for name, a, b in self.kept:
            same = repr(a) == b if isinstance(a, list) else (
                a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes())
            self.mon.check("inputs", same, f"{name} modified by {where}", key=f"inputs:{name}")
        del self.kept[:-40]


def deg_average(v, freqs, axis):
    """Average v over degenerate modes of freqs along axis."""
    v = np.moveaxis(np.array(v), axis, 0)
    order = np.argsort(freqs)
    f = np.asarray(freqs)[order]
    start = 0
    for i in range(1, len(f) + 1):
        if i == len(f) or f[i] - f[i - 1] > 1e-3:
            idx = order[start:i]
            v[idx] = v[idx].mean(axis=0)
            start = i
    return np.moveaxis(v, 0, axis)


def strength(pp, gp):
    v = np.array(pp.interaction_strength)
    f = pp.get_phonons()[0]
    t = np.array(pp.get_triplets_at_q()[0])
    bi = np.array(pp.band_indices)
    if len(bi) < 3 * len(pp.primitive):
        return v.sum(axis=1), t
    for i, tr in enumerate(t):
        for k in range(3):
            v[i] = deg_average(v[i], f[tr[k]], k)
    return v, t


def compare(mon, what, got, want, ctx, clause="same", rtol=1e-8):
    mon.check(clause, sorted(got) == sorted(want), f"{ctx}: results {sorted(got)} != {sorted(want)}",
              key=f"{clause}:{what}:items")
    for k in sorted(set(got) & set(want)):
        a, b = got[k], want[k]
        if isinstance(b, str) or isinstance(a, str) or b is None or a is None:
            mon.check(clause, (a is None) == (b is None) and (a is None or a == b),
                      f"{ctx}: {k} {a!r} != {b!r}", key=f"{clause}:{what}:{k}")
            continue
        a, b = np.array(a), np.array(b)
        if a.shape != b.shape:
            mon.violation(f"{clause}:{what}:{k}", f"{ctx}: {k} shape {a.shape} != {b.shape}")
            continue
        if a.dtype.kind in "fc":
            na, nb = np.isfinite(a), np.isfinite(b)
            mon.check(clause, np.array_equal(na, nb), f"{ctx}: {k} finite values differ",
                      key=f"{clause}:{what}:{k}:finite")
            a, b = np.where(na & nb, a, 0), np.where(na & nb, b, 0)
            mon.close(clause, a, b, rtol=rtol, atol=1e-13 if k != "strength" else 1e-19,
                      detail=f"{ctx}: {k}", key=f"{clause}:{what}:{k}")
        else:
            mon.equal(clause, a, b, detail=f"{ctx}: {k}", key=f"{clause}:{what}:{k}")


# ---------------------------------------------------------------------------
class Api:
    def __init__(self, c, mon, rng):
        self.c, self.mon, self.rng = c, mon, rng
        self.s = {"mesh": c["mesh"], "fc": 0, "compact": c["compact"], "mass": 0,
                  "nac": c["nac"], "bands": None, "sigmas": [None], "cut": None, "init": {},
                  "phonons": False}
        self.p3 = self.fresh_cell()
        self.guard = Guard(mon)
        self.masses = np.array(self.p3.primitive.masses)
        self.cache = {}
        self.hist = []
        self.set_fc(self.p3)
        self.p3.mesh_numbers = self.s["mesh"]

    def fresh_cell(self):
        c = dict(self.c, nac=False, compact=False)
        return ph.build(c, mesh=False)

    def fcs(self):
        k = (self.s["fc"], self.s["compact"])
        if k not in self.cache:
            i, compact = k
            p = self.fresh_cell()
            M.set_fc(p, self.c["name"], compact=compact, anh=[1.0, -0.6, 1.7][i],
                     soft=[self.c["soft"], self.c["soft"], 1.5 if self.c["name"] != "p1" else 0.5][i])
            self.cache[k] = (p.fc2, p.fc3)
        return self.cache[k]

    def set_fc(self, p3, hist=None):
        f2, f3 = self.fcs()
        shared = hist is not None or p3 is self.p3
        if not shared:
            f2, f3 = f2.copy(), f3.copy()
        else:
            self.guard("fc2", f2)
            self.guard("fc3", f3)
        p3.fc2, p3.fc3 = f2, f3

    def nac(self):
        if not self.s["nac"]:
            return None
        d = M.nac_params(self.c["name"], self.p3.primitive)
        k = 1.0 if self.s["nac"] is True else float(self.s["nac"])
        d["born"] = np.array(d["born"]) * k
        return d

    def mass(self):
        return self.masses * [1.0, 1.3, 0.8][self.s["mass"]] if self.s["mass"] else self.masses.copy()

    def fresh(self, init=True):
        p = self.fresh_cell()
        p.masses = self.mass()
        self.set_fc(p)
        p.mesh_numbers = self.s["mesh"]
        if self.s["nac"]:
            p.nac_params = self.nac()
        p.sigmas = self.s["sigmas"]
        p.sigma_cutoff = self.s["cut"]
        p.band_indices = self.s["bands"]
        if init:
            p.init_phph_interaction(**self.init_args())
            self.apply_phonons(p)
        return p

    def init_args(self):
        a = dict(self.s["init"])
        if "nac_q_direction" in a:
            a["nac_q_direction"] = np.array(a["nac_q_direction"], float)
        return a

    def apply_phonons(self, p):
        if self.s["phonons"]:
            g = p.grid
            f, e, _ = self.foreign(p)
            p.set_phonon_data(f, e, g.addresses)

    def foreign(self, p):
        """Phonons of a scaled crystal."""
        k = (tuple(np.ravel(p.mesh_numbers)), str(self.s["mesh"]))
        if k not in self.cache:
            q = self.fresh_cell()
            M.set_fc(q, self.c["name"], soft=self.c["soft"])
            q.masses = self.masses * 1.21
            q.mesh_numbers = self.s["mesh"]
            q.init_phph_interaction()
            q.run_phonon_solver()
            self.cache[k] = tuple(np.array(x) for x in q.get_phonon_data())
        return self.cache[k]

    # --- operations --------------------------------------------------------
    def change(self):
        """Random changes followed by what makes them effective."""
        rng, s, p = self.rng, self.s, self.p3
        ops = ["mesh", "fc", "mass", "nac", "bands", "sigmas", "cut", "init", "sigmas", "nac-live"]
        if rng.random() < 0.4:
            ops.append("phonons")
        for _ in range(int(rng.integers(1, 4))):
            op = ops[int(rng.integers(len(ops)))]
            self.hist.append(op)
            if op == "mesh":
                if isinstance(s["mesh"], list):
                    fam = ph.FAMILY[self.c["name"]]
                    r = [int(x) for x in rng.integers(1, 4, size=3)]
                    s["mesh"] = ([r[0]] * 3 if fam in ("cubic", "bct") else
                                 [r[0], r[0], r[2]] if fam == "uniax" else r)
                else:
                    s["mesh"] = float(s["mesh"] + rng.uniform(-2, 2))
                p.mesh_numbers = s["mesh"]
                s["need"] = True
                if s["phonons"]:
                    s["phonons"] = False
            elif op == "fc":
                s["fc"] = int(rng.integers(3))
                s["compact"] = bool(rng.integers(2))
                self.set_fc(p, hist=1)
                s["need"] = True
            elif op == "mass":
                s["mass"] = int(rng.integers(3))
                p.masses = self.guard("masses", self.mass())
                s["need"] = True
            elif op in ("nac", "nac-live"):
                if self.c["name"] not in M.POLAR:
                    continue
                s["nac"] = [False, True, 0.7][int(rng.integers(3))]
                if s["phonons"]:
                    s["phonons"] = False
                    s["need"] = True
                d = self.nac()
                self.guard("nac_params", d)
                p.nac_params = d
                if op == "nac":
                    s["need"] = True
            elif op == "bands":
                nb = 3 * len(p.primitive)
                if rng.random() < 0.4:
                    s["bands"] = None
                else:
                    b = sorted(int(x) for x in rng.choice(nb, size=int(rng.integers(1, nb + 1)),
                                                          replace=False))
                    k = int(rng.integers(1, len(b) + 1))
                    s["bands"] = [b[:k]] + ([b[k:]] if b[k:] else [])
                p.band_indices = s["bands"] if s["bands"] is None else self.guard(
                    "band_indices", [list(x) for x in s["bands"]])
                s["need"] = True
            elif op == "sigmas":
                x = [None, float(rng.uniform(0.1, 0.5)), float(rng.uniform(0.5, 1.5))]
                s["sigmas"] = [x[:1], x[1:2], x, x[1:], x[::-1]][int(rng.integers(5))]
                p.sigmas = self.guard("sigmas", list(s["sigmas"]))
            elif op == "cut":
                s["cut"] = [None, 3.0, 5.0][int(rng.integers(3))]
                p.sigma_cutoff = s["cut"]
            elif op == "init":
                a = {}
                if rng.random() < 0.3:
                    a["symmetrize_fc3q"] = True
                if rng.random() < 0.3:
                    a["openmp_per_triplets"] = bool(rng.integers(2))
                if rng.random() < 0.2:
                    a["lapack_zheev_uplo"] = "U"
                if rng.random() < 0.1:
                    a["constant_averaged_interaction"] = 1e-10
                if s["nac"] and rng.random() < 0.6:
                    a["nac_q_direction"] = [[1, 0, 0], [0, 0, 1], [1, 1, 0], [0.2, -0.5, 1]][
                        int(rng.integers(4))]
                s["init"] = a
                s["need"] = True
            elif op == "phonons" and not s["nac"]:
                s["phonons"] = True
                s["set"] = True
                s["need"] = True
        if s.pop("need", False):
            a = self.init_args()
            self.guard("init", a)
            p.init_phph_interaction(**a)
            self.apply_phonons(p)

    def calculation(self):
        rng, s = self.rng, self.s
        dirn = "nac_q_direction" in s["init"]
        full = s["bands"] is None
        names = ["ise", "ise", "isef", "real", "spec", "strength", "phon", "rta", "rta"]
        if full:
            names += ["lbte", "wigner"]
        if not s["phonons"]:
            names += ["grun"]
        name = names[int(rng.integers(len(names)))]
        p = self.p3
        ng = len(p.grid.addresses)
        gps = sorted(int(x) for x in rng.choice(ng, size=min(ng, int(rng.integers(1, 4))),
                                                replace=False))
        if dirn and name not in ("rta", "lbte", "wigner", "phon", "grun"):
            gps = [int(p.grid.gp_Gamma)]
        ir = [int(x) for x in ph.ir_gps(p)]
        T = sorted(float(x) for x in rng.choice([0, 10, 100, 300, 900], size=2, replace=False))
        k = {"calc": name, "gps": gps, "T": T, "ir": ir, "opt": int(rng.integers(8)),
             "fp": sorted(float(x) for x in rng.uniform(0.3, 12, size=4))}
        return k

    def perform(self, p, k, guard=None):
        g = guard or (lambda n, a: a)
        name, o = k["calc"], k["opt"]
        T = g("temperatures", np.array(k["T"]))
        gps = g("grid_points", np.array(k["gps"], dtype="int64"))
        out = {}
        if name in ("ise", "isef"):
            kw = {"frequency_points_at_bands": True} if name == "ise" else {
                "frequency_points": g("frequency_points", np.array(k["fp"]))} if o % 2 else {
                "num_frequency_points": 5}
            r = p.run_imag_self_energy(gps, T, keep_gamma_detail=o >= 6,
                                       scattering_event_class=(o % 3 or None), **kw)
            fr, gam = r[0], r[1]
            out["gamma"] = gam
            out["points"] = fr
        elif name == "real":
            kw = {"frequency_points_at_bands": True} if o % 2 else {
                "frequency_points": g("frequency_points", np.array(k["fp"]))}
            fr, d = p.run_real_self_energy(gps, T, epsilons=[0.1, 0.3], write_hdf5=False, **kw)
            out["shift"] = d
        elif name == "spec":
            p.run_spectral_function(gps[:1], T, num_frequency_points=9, write_txt=False,
                                    write_hdf5=False)
            sf = next(v for v in vars(p).values() if type(v).__name__ == "SpectralFunction")
            out["half"] = np.array(sf.half_linewidths)
            out["shift"] = np.array(sf.shifts)
            out["spectral"] = np.array(sf.spectral_functions)
        elif name == "strength":
            pp = p.phph_interaction
            pp.set_grid_point(int(gps[0]))
            pp.run()
            out["strength"], out["triplets"] = strength(pp, int(gps[0]))
        elif name == "phon":
            p.run_phonon_solver()
            f, e, a = p.get_phonon_data()
            f = np.array(f)
            if "nac_q_direction" in self.s["init"]:
                f = np.delete(f, p.grid.gp_Gamma, axis=0)
            out["freq"] = f
        elif name in ("rta", "lbte", "wigner"):
            kw = {}
            if name == "wigner":
                kw["conductivity_type"] = "wigner"
            if o & 1:
                kw["is_isotope"] = True
            if o & 2:
                kw["boundary_mfp"] = 50.0
            if name == "lbte":
                kw["is_LBTE"] = True
            else:
                if o & 4:
                    kw["is_full_pp"] = True
                if o in (0, 5) and not kw.get("is_full_pp"):
                    kw["is_N_U"] = True
                if o == 3:
                    kw["grid_points"] = g("ir", np.array(k["ir"][-1:] if k["gps"][0] % 2 else k["gps"],
                                                         dtype="int64"))
            p.run_thermal_conductivity(temperatures=g("temperatures", np.array([t + 5 for t in T])),
                                       **kw)
            t = p.thermal_conductivity
            for nm in ("kappa", "gamma", "mode_kappa", "kappa_RTA", "kappa_TOT_RTA", "kappa_C",
                       "gamma_isotope", "frequencies", "gv_by_gv", "mode_heat_capacities"):
                v = getattr(t, nm, None)
                if v is not None:
                    out[nm] = np.array(v)
            if name == "lbte":
                out.pop("mode_kappa", None)
            if self.c["soft"] and name == "lbte":
                for nm in ("kappa", "kappa_RTA"):
                    out.pop(nm, None)
        elif name == "grun":
            from phono3py.phonon3.gruneisen import Gruneisen

            gr = Gruneisen(p.fc2, p.fc3, p.supercell, p.primitive, nac_params=p.nac_params)
            gr.set_sampling_mesh([2, 2, 2])
            gr.run()
            out["gruneisen"] = deg_list(gr)
        return out


def deg_list(gr):
    g = np.array(gr.get_gruneisen_parameters() if hasattr(gr, "get_gruneisen_parameters")
                 else gr.gruneisen_parameters)
    f = np.array(gr._frequencies)
    g = g.copy()
    for i in range(len(f)):
        g[i] = deg_average(g[i], f[i], 0)
        g[i][np.abs(f[i]) < 1e-2] = 0
    return g


def api(c, mon, rng):
    a = Api(c, mon, rng)
    a.p3.nac_params = a.nac() if a.s["nac"] else None
    a.p3.init_phph_interaction()
    for step in range(c["len"]):
        if rng.random() < 0.75:
            a.change()
            if a.p3.phph_interaction is None:
                raise Skip("no interaction")
        k = a.calculation()
        if rng.random() < 0.35:  # a part of the grid phonons computed in advance
            ng = len(a.p3.grid.addresses)
            a.hist.append("some-phonons")
            some = [k["ir"], k["gps"], [int(x) for x in rng.integers(ng, size=2)]][
                int(rng.integers(3))]
            a.p3.run_phonon_solver(grid_points=np.array(some, dtype="int64"))
        name = k["calc"]
        a.hist.append(name)
        ctx = f"{c['name']} {name} after {a.hist} with {a.s} {k}"
        got, e1 = attempt(a, a.p3, k, a.guard)
        a.guard.verify(name)
        rep = rng.random() < 0.3
        if rep and e1 is None:
            again, e2 = attempt(a, a.p3, k, a.guard)
            mon.check("repeat", e2 is None, f"{ctx}: repeated call fails {e2}")
            compare(mon, name, again, got, "repeated " + ctx, clause="repeat")
        f = a.fresh()
        want, e3 = attempt(a, f, k)
        if not mon.check("same", type(e1) is type(e3), f"{ctx}: error {e1!r} but fresh object {e3!r}",
                         key=f"same:{name}:error"):
            break
        if e1 is None:
            compare(mon, name, got, want, ctx)
            mon.events["rta" if name in ("rta", "wigner", "lbte") else
                       "ise" if name == "isef" else name] += 1
        mon.sig("api", c["name"], tuple(a.hist[-4:]))
        if mon.violations:
            break


def attempt(a, p, k, guard=None):
    try:
        return a.perform(p, k, guard), None
    except RuntimeError as e:
        if "NAC" not in str(e):
            raise
        return {}, e


# ---------------------------------------------------------------------------
def gps_of(p3, rng, n=3):
    ng = len(p3.grid.addresses)
    return [int(x) for x in rng.integers(ng, size=n)] + [int(p3.grid.gp_Gamma)]


def low_ise(c, mon, rng):
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy

    def make(detail):
        p = ph.build(c)
        p.init_phph_interaction(symmetrize_fc3q=bool(c["seed"] % 2))
        p.run_phonon_solver()
        return p, ImagSelfEnergy(p.phph_interaction, with_detail=detail)

    detail = bool(rng.integers(2))
    p3, ise = make(detail)
    gps = gps_of(p3, rng)
    s = {"gp": None, "fp": None, "sigma": None, "T": 300.0, "cls": None, "sc": None, "full": True}
    hist = []
    for _ in range(c["len"] + 4):
        ops = []
        if s["gp"] is None or rng.random() < 0.4:
            s["gp"] = gps[int(rng.integers(len(gps)))]
            ops += ["gp", "w"]
        if rng.random() < 0.4:
            s["fp"] = None if rng.random() < 0.5 else np.sort(rng.uniform(0, 10, size=3))
            ops += ["fp", "w"]
        if rng.random() < 0.4 or not hist:
            s["sigma"], s["sc"] = (None if rng.random() < 0.4 else float(rng.uniform(0.1, 1)),
                                   None if rng.random() < 0.5 else 3.0)
            ops += ["sigma", "w"]
        if rng.random() < 0.5:
            s["T"] = float(rng.choice([0, 50, 300]))
            ops += ["T"]
        if rng.random() < 0.3:
            s["cls"] = [None, 1, 2][int(rng.integers(3))]
            ops += ["w"]
        if not ops or not hist:
            ops += ["T"]
        rng.shuffle(ops)
        hist.append(tuple(ops))

        def go(x, only=None):
            if only is None or "gp" in only:
                x.set_grid_point(s["gp"])
            if only is None or "sigma" in only:
                x.set_sigma(s["sigma"], sigma_cutoff=s["sc"])
            if only is None or "fp" in only:
                x.frequency_points = s["fp"]
            if only is None or "T" in only:
                x.temperature = s["T"]
            if only is None or "w" in only:
                x.run_integration_weights(scattering_event_class=s["cls"])
                x.run_interaction(is_full_pp=s["full"])
            x.run()
            r = {"gamma": np.array(x.imag_self_energy)}
            if detail:
                n, u = x.get_imag_self_energy_N_and_U()
                r["N"], r["U"] = np.array(n), np.array(u)
                r["sum"] = np.array(x.detailed_imag_self_energy).sum(axis=(-1, -2))
                r.pop("sum")
            return r

        if "w" in ops:
            s["full"] = bool(rng.integers(2))
        only = ops if len(hist) > 1 else ["gp", "sigma", "fp", "T", "w"]
        got = go(ise, only)
        if rng.random() < 0.3:
            compare(mon, "low-ise", go(ise, []), got, f"{hist}", clause="repeat")
        _, ref = make(detail)
        want = go(ref)
        compare(mon, "low-ise", got, want, f"{c['name']} ImagSelfEnergy {hist} now {s}")
        mon.events["low-ise"] += 1
        mon.sig("ise", c["name"], hist[-1])
        if mon.violations:
            break


def low_real(c, mon, rng):
    from phono3py.phonon3.real_self_energy import RealSelfEnergy

    def make():
        p = ph.build(c)
        p.init_phph_interaction()
        p.run_phonon_solver()
        return p, RealSelfEnergy(p.phph_interaction)

    p3, x = make()
    gps = gps_of(p3, rng)
    s = {"gp": gps[0], "fp": None, "T": 300.0, "eps": None}
    hist = []
    for step in range(c["len"]):
        ops = [o for o in ("gp", "fp", "T", "eps") if rng.random() < 0.45 or step == 0]
        rng.shuffle(ops)
        if "gp" in ops:
            s["gp"] = gps[int(rng.integers(len(gps)))]
        if "fp" in ops:
            s["fp"] = None if rng.random() < 0.5 or step == 0 else np.sort(rng.uniform(0, 10, size=3))
        if "T" in ops:
            s["T"] = float(rng.choice([0, 50, 300]))
        if "eps" in ops:
            s["eps"] = None if rng.random() < 0.4 else float(rng.uniform(0.02, 0.3))
        hist.append(tuple(ops))

        def go(y, which):
            for o in which:
                if o == "gp":
                    y.grid_point = s["gp"]
                elif o == "fp":
                    y.frequency_points = s["fp"]
                elif o == "T":
                    y.temperature = s["T"]
                else:
                    y.epsilon = s["eps"]
            y.run()
            return {"shift": np.array(y.real_self_energy)}

        got = go(x, ops)
        _, ref = make()
        # at band frequencies a fresh object needs no frequency points at all
        want = go(ref, ["gp", "T", "eps"] + (["fp"] if s["fp"] is not None else []))
        compare(mon, "low-real", got, want, f"{c['name']} RealSelfEnergy {hist} now {s}")
        mon.events["low-real"] += 1
        mon.sig("real", c["name"], hist[-1])
        if mon.violations:
            break


def low_jdos(c, mon, rng):
    from phono3py.api_jointdos import Phono3pyJointDos
    from phono3py.phonon3.joint_dos import JointDos

    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    nac = p3.nac_params
    gps = gps_of(p3, rng)
    dirs = [None, [1.0, 0, 0], [0, 0.3, 1.0]] if nac else [None]

    def make():
        return JointDos(p3.phonon_primitive, p3.phonon_supercell, p3.grid, p3.fc2, nac_params=nac,
                        cutoff_frequency=c["cutf"], is_mesh_symmetry=c["ms"])

    x = make()
    s = {"gp": gps[0], "fp": np.array([1.0]), "T": None, "sigma": None, "dir": None}
    hist = []
    for step in range(c["len"]):
        ops = [o for o in ("gp", "fp", "T", "sigma") if rng.random() < 0.5 or step == 0]
        if "gp" in ops:
            s["gp"] = gps[int(rng.integers(len(gps)))]
            s["dir"] = dirs[int(rng.integers(len(dirs)))] if s["gp"] == p3.grid.gp_Gamma else None
        if "fp" in ops:
            s["fp"] = np.sort(rng.uniform(0, 15, size=3))
        if "T" in ops:
            s["T"] = [None, 0.0, 300.0][int(rng.integers(3))]
        if "sigma" in ops:
            s["sigma"] = None if rng.random() < 0.5 else float(rng.uniform(0.1, 1))
        hist.append(tuple(ops))

        def go(y, which):
            if "gp" in which:
                y.nac_q_direction = s["dir"]
                y.set_grid_point(s["gp"])
            if "fp" in which:
                y.frequency_points = s["fp"]
            if "T" in which:
                y.temperature = s["T"]
            if "sigma" in which:
                y.sigma = s["sigma"]
            y.run()
            return {"jdos": np.array(y.joint_dos), "freq": np.array(y.get_phonons()[0])}

        got = go(x, ops)
        want = go(make(), ["gp", "fp", "T", "sigma"])
        compare(mon, "low-jdos", got, want, f"{c['name']} JointDos {hist} now {s}")
        mon.equal("inputs", np.array(x.mesh_numbers), np.array(p3.mesh_numbers))
        mon.events["low-jdos"] += 1
        mon.sig("jdos", c["name"], hist[-1], s["dir"] is None)
        if mon.violations:
            return

    # user level: repeated runs, late and changed meshes
    fc2 = p3.fc2.copy()

    def user(mesh=None, d=None):
        return Phono3pyJointDos(p3.phonon_supercell, p3.phonon_primitive, fc2, mesh=mesh,
                                nac_params=nac, nac_q_direction=d, sigmas=sig,
                                cutoff_frequency=c["cutf"], num_frequency_points=7, temperatures=tt,
                                use_grg=c["grg"], is_mesh_symmetry=c["ms"],
                                SNF_coordinates=c["snf"])

    sig = [[None], [0.3], [None, 0.4]][int(rng.integers(3))]
    tt = None if rng.random() < 0.5 else [0.0, 300.0]
    d = dirs[int(rng.integers(len(dirs)))]
    m1 = c["mesh"]
    m2 = m1 + 1 if isinstance(m1, float) else [k % 3 + 1 for k in m1]
    y = user(None if rng.random() < 0.5 else m1, d)
    mesh = m1
    if y.grid is None:
        y.initialize(m1)
    for step in range(4):
        if rng.random() < 0.4:
            mesh = m2 if mesh is m1 else m1
            y.initialize(mesh)
        ng = len(y.grid.addresses)
        g = sorted({int(v) for v in rng.integers(ng, size=1)} | ({int(y.grid.gp_Gamma)}
                                                                if rng.random() < 0.6 else set()))
        g = g[:1] if rng.random() < 0.3 else g
        y.run(np.array(g))
        z = user(mesh, d)
        z.run(np.array(g))
        compare(mon, "jdos-api", {"jdos": y.joint_dos, "fp": y.frequency_points},
                {"jdos": z.joint_dos, "fp": z.frequency_points},
                f"{c['name']} Phono3pyJointDos mesh {mesh} grid points {g} dir {d}")
        mon.events["jdos-api"] += 1
        if mon.violations:
            return


def low_iso(c, mon, rng):
    from phono3py.api_isotope import Phono3pyIsotope

    c = dict(c, snf="reciprocal", nac=False)
    p3 = ph.build(c)
    if p3 is None:
        raise Skip("mesh refused")
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    fcs = []
    for i in range(2):
        q = ph.build(c, mesh=False, nac=False)
        M.set_fc(q, c["name"], soft=[c["soft"], 1.0][i])
        fcs.append(q.fc2)
    nac = M.nac_params(c["name"], prim) if c["name"] in M.POLAR else None
    mv = np.array([2e-3 + 1e-3 * k for k in range(len(prim))])
    nb = 3 * len(prim)
    bi = None if rng.random() < 0.5 else [0, nb - 1]
    sig = [None] if rng.random() < 0.5 else [None, 0.3]

    def make():
        return Phono3pyIsotope(c["mesh"], prim, mass_variances=mv.copy(), band_indices=bi,
                               sigmas=list(s["sig"]), use_grg=c["grg"], cutoff_frequency=c["cutf"])

    s = {"fc": 0, "nac": False, "sig": sig}
    x = make()
    hist = []
    for step in range(c["len"] // 2 + 2):
        ops = [o for o in ("dm", "gp", "sigma") if rng.random() < 0.5 or step == 0]
        if "dm" in ops:
            s["fc"] = int(rng.integers(2))
            s["nac"] = bool(nac is not None and rng.integers(2))
        if "gp" in ops:
            s["gp"] = [int(v) for v in rng.integers(len(x.grid.addresses), size=2)]
        hist.append(tuple(ops))

        def go(y, which):
            if "dm" in which:
                y.init_dynamical_matrix(fcs[s["fc"]], sc, prim, nac_params=nac if s["nac"] else None)
            y.run(s["gp"])
            f = np.array(y.frequencies)
            gam = np.array(y.gamma)
            if bi is None:
                for j in range(len(s["gp"])):
                    for k in range(len(gam)):
                        gam[k, j] = deg_average(gam[k, j], f[j], 0)
            else:
                gam[:, :, np.array([bad(f, b) for b in bi])] = 0
            return {"gamma": gam, "freq": f}

        if "sigma" in ops and step:
            sg = None if rng.random() < 0.5 else float(rng.uniform(0.1, 0.6))
            x.set_sigma(sg)
            s["sig"] = [sg]
        got = go(x, ops)
        want = go(make(), ["dm"])
        compare(mon, "low-iso", got, want, f"{c['name']} Phono3pyIsotope {hist} now {s}")
        mon.events["low-iso"] += 1
        mon.sig("iso", c["name"], hist[-1], s["fc"], s["nac"])
        if mon.violations:
            break


def bad(f, b):
    d = np.abs(f - f[:, b][:, None])
    d[:, b] = 1
    return bool((d < 1e-3).any())


def low_pp(c, mon, rng):
    """Interaction object: grid points, directions, re-initialised dynamical matrices."""
    def make():
        p = ph.build(c)
        p.init_phph_interaction()
        return p

    p3 = make()
    pp = p3.phph_interaction
    gps = gps_of(p3, rng, 2)
    if c["gamma"]:
        gps = [int(p3.grid.gp_Gamma)] * 3 + list(gps)
    prim, sc = p3.phonon_primitive, p3.phonon_supercell
    q = ph.build(c, mesh=False)
    M.set_fc(q, c["name"], soft=1.0, compact=c["compact"])
    f2s = [p3.fc2, q.fc2]
    nac = M.nac_params(c["name"], prim) if c["name"] in M.POLAR else None
    s = {"fc": 0, "nac": c["nac"], "dir": None, "gp": gps[0], "user": False}
    hist = []
    foreign = None
    for step in range(c["len"]):
        ops = [o for o in ("dm", "gp", "solve", "gamma", "delete", "set") if rng.random() <
               ({"gp": 0.9, "set": 0.35, "dm": 0.1} if c["gamma"] else
                                              {"gp": 0.7, "set": 0.2}).get(o, 0.3)]
        if "dm" in ops:
            s["fc"] = int(rng.integers(2))
            s["nac"] = bool(nac is not None and rng.integers(2))
            s["user"] = False
        if "gp" in ops or step == 0:
            s["gp"] = gps[int(rng.integers(len(gps)))]
            s["dir"] = None
            if s["nac"] and s["gp"] == p3.grid.gp_Gamma and rng.random() < 0.6:
                s["dir"] = [[1.0, 0, 0], [0, 0.3, 1.0]][int(rng.integers(2))]
        if not s["nac"]:
            s["dir"] = None
        if "set" in ops and s["dir"] is None:
            s["user"] = True
            if foreign is None:
                r = make()
                r.masses = np.array(prim.masses) * 1.3
                r.init_phph_interaction()
                r.run_phonon_solver()
                foreign = [np.array(v) for v in r.get_phonon_data()]
        hist.append(tuple(ops))

        def go(x, which, fresh=False):
            if "dm" in which:
                x.init_dynamical_matrix(f2s[s["fc"]], sc, prim, nac_params=nac if s["nac"] else None)
            if "set" in which and s["user"]:
                x.set_phonon_data(foreign[0], foreign[1], p3.grid.addresses)
            x.nac_q_direction = None if s["dir"] is None else np.array(s["dir"])
            if "solve" in which:
                x.run_phonon_solver(np.arange(0, len(p3.grid.addresses), 2, dtype="int64"))
            x.set_grid_point(s["gp"])
            if "delete" in which:
                x.delete_interaction_strength()
            x.run()
            v, t = strength(x, s["gp"])
            f = np.array(x.get_phonons()[0])
            return {"strength": v, "triplets": t, "freq": f}

        was = s["user"]
        got = go(pp, ops)
        ref = make().phph_interaction
        want = go(ref, ["dm", "set"] if was else ["dm"])
        compare(mon, "low-pp", got, want, f"{c['name']} Interaction {hist} now {s}")
        mon.events["low-pp"] += 1
        mon.sig("pp", c["name"], hist[-1], s["nac"], s["dir"] is None)
        if mon.violations:
            break


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    if ph.build(c) is None:
        raise Skip("mesh refused")
    {"api": api, "ise": low_ise, "real": low_real, "jdos": low_jdos, "iso": low_iso,
     "pp": low_pp}[c["kind"]](c, mon, rng)
