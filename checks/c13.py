"""C13: a run split into pieces collected through files equals the single run."""

import os
import pathlib
import shutil

import h5py
import numpy as np

from harness import ph
from harness.core import Skip

PROP = "C13"
RULE = (
    "random crystal, mesh, smearings, temperatures, isotope/boundary scattering, N/U and "
    "formulation (RTA, Wigner, Green-Kubo, direct solution); pieces (grid points, bands, "
    "smearings, random chunks and orders, fresh objects, stored interaction strengths) are "
    "written and collected and every array of the result and of the written kappa file compared "
    "with the single run; one piece is then lost, truncated, emptied or replaced by one of "
    "another temperature set or mesh and the collecting run has to refuse; distinct by "
    "(crystal, mesh, route, partition, fault)"
)
REQUIRED = {"rta": 3000, "lbte": 3000, "wigner": 500, "kubo": 200, "pp": 2000, "sigmas": 500,
            "file": 1000, "fault": 60, "bands": 200, "bands-lbte": 40, "untouched": 20}

ROUTES = ["rta", "rta", "wigner", "kubo", "lbte", "lbte", "lbte-wigner", "pp", "pp-lbte", "sigmas"]


def cases(tier, rng):
    n = 140 if tier == "quick" else 1400
    out = []
    for i in range(n):
        route = ROUTES[i % len(ROUTES)]
        big = "lbte" not in route
        c = ph.gen(rng, max_mesh=4 if big else 3, max_atoms=4 if i % 8 and big else 2, min_mesh=1)
        c["route"] = route
        c["r0"] = bool(rng.random() < 0.8)
        c["cutf"] = float(rng.choice([1e-4, 1e-4, 1.5]))
        c["ms"] = bool(rng.random() < 0.9)
        s = [None, float(rng.uniform(0.1, 0.5)), float(rng.uniform(0.5, 2))]
        c["sigmas"] = [s[:1], s[1:2], s[1:], s, s[::-1]][int(rng.integers(5))]
        c["sc"] = [None, None, 4.0][int(rng.integers(3))]
        c["T"] = [float(x) for x in rng.choice([0, 3, 20, 100, 300, 900, 3000],
                                               size=int(rng.integers(1, 4)), replace=False)]
        c["iso"] = bool(rng.integers(2))
        c["mfp"] = [None, None, 0.01, 5.0][int(rng.integers(4))]
        c["bands"] = bool(rng.random() < 0.55)
        c["red"] = bool(rng.random() < 0.4)
        c["kstar"] = bool(rng.random() < 0.85)
        if route == "lbte" and i % 20 < 10:
            c["bands"], c["red"] = True, bool(rng.random() < 0.7)
        c["fault"] = int(rng.integers(8))
        c["opt"] = int(rng.integers(4))
        c["max"] = 330 if tier == "quick" else 700
        out.append(c)
    return out


ARR = ("kappa", "mode_kappa", "gamma", "gamma_isotope", "kappa_RTA", "mode_kappa_RTA", "kappa_P_RTA",
       "kappa_C", "kappa_TOT_RTA", "mode_kappa_P_RTA", "mode_kappa_C", "kappa_P_exact",
       "kappa_TOT_exact", "mode_kappa_P_exact", "collision_eigenvalues", "temperatures",
       "frequencies", "grid_points", "mode_heat_capacities", "number_of_ignored_phonon_modes")


def result(p3):
    t = p3.thermal_conductivity
    if t is None or t is False:
        return t
    out = {}
    for k in ARR:
        v = getattr(t, k, None)
        if v is not None:
            out[k] = np.array(v)
    if hasattr(t, "get_gamma_N_U"):
        v = t.get_gamma_N_U()
        if v[0] is not None:
            out["gamma_N"], out["gamma_U"] = np.array(v[0]), np.array(v[1])
    return out


def h5(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][()] for k in f.keys()}


def run(c, mon):
    rng = np.random.default_rng(c["seed"])
    route = c["route"]

    def fresh(bands=None, sigmas=None):
        p = ph.build(c)
        if p is None:
            raise Skip("mesh refused")
        p.sigmas = c["sigmas"] if sigmas is None else sigmas
        p.sigma_cutoff = c["sc"]
        if bands is not None:
            p.band_indices = bands
        p.init_phph_interaction()
        return p

    p0 = fresh()
    nb = 3 * len(p0.primitive)
    lbte = "lbte" in route
    if lbte and (ph.ngrid(p0) * nb if c["red"] or not c["kstar"] else len(ph.ir_gps(p0)) * nb * 3
                 ) > c["max"]:
        raise Skip("large")
    kw = dict(boundary_mfp=c["mfp"], is_isotope=c["iso"], is_kappa_star=c["kstar"])
    ctype = {"wigner": "wigner", "kubo": "kubo", "lbte-wigner": "wigner"}.get(route)
    if ctype:
        kw["conductivity_type"] = ctype
    if lbte:
        if not (c["red"] and not ctype):
            kw["is_kappa_star"] = True
        kw["is_LBTE"] = True
        kw["is_reducible_collision_matrix"] = c["red"] and not ctype
        kw["pinv_solver"] = int(rng.choice([0, 3, 5]))
        c["T"] = [x for x in c["T"] if x > 0] or [300.0]
    T = c["T"]

    def solve(p, **k):
        k = {**kw, **k}
        p.run_thermal_conductivity(temperatures=k.pop("temperatures", T), **k)
        return result(p)

    def same(clause, got, want, detail=""):
        mon.check(clause, set(got) == set(want), f"{detail} {set(got) ^ set(want)}", key="results")
        for k in want:
            if k not in got:
                continue
            a, b = got[k], want[k]
            if b.dtype == object:
                continue
            if b.dtype.kind == "f" and a.shape == b.shape and not np.isfinite(b).all():
                # vanishing linewidths: the same entries have no value
                mon.equal(clause, np.isfinite(a), np.isfinite(b), detail, key=f"{clause}:{k}")
                a, b = np.where(np.isfinite(b), a, 0), np.where(np.isfinite(b), b, 0)
            if lbte and k.startswith(("mode_kappa", "kappa")):
                mon.close(clause, a, b, rtol=1e-6, key=f"{clause}:{k}", detail=detail)
            else:
                mon.close(clause, a, b, rtol=1e-9, key=f"{clause}:{k}", detail=detail)

    fin = None if rng.integers(2) else "x" + str(int(rng.integers(9)))
    name = {} if fin is None else {"output_filename": fin}
    read = {} if fin is None else {"input_filename": fin}
    comp = ["gzip", None, "lzf", 5][int(rng.integers(4))]
    if route == "sigmas":
        return sigmas(c, mon, fresh, solve, same, rng)
    if route.startswith("pp"):
        return stored_pp(c, mon, fresh, solve, same, rng, name, read, comp)

    if lbte:
        one = solve(p0)
    else:
        kw["is_N_U"] = bool(rng.integers(2)) and ctype is None
        kw["is_full_pp"] = c["opt"] == 3
        one = solve(p0, write_kappa=ctype != "kubo", output_filename="single", compression=comp)
    gps = one["grid_points"]

    # ----------------------------------------------------------------- pieces
    def groups(n):
        cut = np.sort(rng.choice(np.arange(1, n), size=int(rng.integers(0, min(n, 4))),
                                 replace=False)) if n > 1 else []
        o = rng.permutation(n)
        return [x for x in np.split(o, cut)]

    bands = None
    if c["bands"]:
        # degenerate bands are averaged within a subset: keep them together
        f = one["frequencies"]
        tie = [bool((np.abs(f[:, b + 1] - f[:, b]) < 1e-4 * 30).any()) for b in range(nb - 1)]
        sets = [[0]]
        for b in range(1, nb):
            if tie[b - 1] or rng.integers(2):
                sets[-1].append(b)
            else:
                sets.append([b])
        bands = [sets[i] for i in rng.permutation(len(sets))]
        if ctype or len(bands) == 1:
            bands = None
    wkey = "write_collision" if lbte else "write_gamma"
    rkey = "read_collision" if lbte else "read_gamma"
    whole = lbte and bands is None and c["opt"] == 2
    if whole:
        w = solve(fresh(), write_LBTE_solution=True, **name)
        same(route.split("-")[0], w, one, "writing full matrix")
        parts = []
    else:
        chunks = groups(len(gps))
        parts = [gps[x] for x in chunks]
        sig_sets = [c["sigmas"]]
        if len(c["sigmas"]) > 1 and rng.integers(2):
            sig_sets = [[s] for s in c["sigmas"]]
        wk = dict(kw)
        wk.pop("boundary_mfp")  # applied when collecting
        for sg in sig_sets:
            pieces = [(x, b) for x in parts for b in (bands or [None])]
            obj = None
            for k in rng.permutation(len(pieces)):
                x, b = pieces[k]
                if obj is None or b is not None or rng.integers(2):
                    obj = fresh([b] if b is not None else None, sg)
                if b is not None and len(b) == nb:
                    obj = fresh(None, sg)
                obj.run_thermal_conductivity(temperatures=T, grid_points=[int(v) for v in x],
                                             **{wkey: True}, **wk, **name,
                                             **({} if lbte else {"compression": comp}))
    if bands is not None:
        mon.events["bands-lbte" if lbte else "bands"] += one["gamma"].size
    files = sorted(x for x in os.listdir(".") if x.endswith(".hdf5") and ".single" not in x
                   and ".whole" not in x)
    stamp = {x: pathlib.Path(x).read_bytes() for x in files}
    rarg = {rkey: "all" if lbte else True}
    kr = {} if lbte else dict(write_kappa=ctype != "kubo", output_filename="whole", compression=comp)
    kk = {k: v for k, v in kw.items() if k not in ("is_N_U", "is_full_pp")}
    p1 = fresh()
    p1.run_thermal_conductivity(temperatures=T, **kk, **rarg, **read, **kr)
    two = result(p1)
    if mon.check("collected", isinstance(two, dict), f"collecting failed: {files[:4]} {bands}"):
        if not lbte and bands is not None and "gamma_N" not in two:
            one = {k: v for k, v in one.items() if k not in ("gamma_N", "gamma_U")}
        same(route.split("-")[0], two, one, f"{c['opt']} bands {bands} files {files[:3]}")
    mon.check("untouched", all(pathlib.Path(x).read_bytes() == y for x, y in stamp.items()),
              "reading changed the pieces", n=len(files))
    if not lbte and ctype != "kubo":
        for s in sorted(x for x in os.listdir(".") if "single" in x):
            a, b = h5(s), h5(s.replace("single", "whole"))
            for k in a:
                if k == "version" or (k not in b and k.startswith("ave_pp")):
                    continue
                if not mon.check("file", k in b, f"{k} missing in file of the collecting run"):
                    continue
                if np.asarray(a[k]).dtype.kind in "fiuc":
                    x, y = np.asarray(b[k]), np.asarray(a[k])
                    if x.shape == y.shape and not np.isfinite(y).all():
                        mon.equal("file", np.isfinite(x), np.isfinite(y), key=f"file:{k}")
                        x, y = np.where(np.isfinite(y), x, 0), np.where(np.isfinite(y), y, 0)
                    mon.close("file", x, y, rtol=1e-9, key=f"file:{k}")
    # a subset of the stored temperatures
    if lbte and len(T) > 1:
        idx = sorted(int(x) for x in rng.choice(len(T), size=int(rng.integers(1, len(T))),
                                                replace=False))
        p2 = fresh()
        p2.run_thermal_conductivity(temperatures=T, **kk, read_collision=idx, **read)
        r = result(p2)
        if mon.check("collected", isinstance(r, dict), "subset of temperatures", key="T-subset"):
            same("T-subset", {k: v for k, v in r.items() if k in ("kappa", "gamma", "temperatures")},
                 {k: (v[idx] if k == "temperatures" else v[:, idx]) for k, v in one.items()
                  if k in ("kappa", "gamma", "temperatures")}, f"indices {idx} of {len(T)}")

    # ----------------------------------------------------------------- faults
    fault = c["fault"]
    victim = files[int(rng.integers(len(files)))]
    shutil.copy(victim, "keep")

    def refused(what, temperatures=T):
        p = fresh()
        try:
            p.run_thermal_conductivity(temperatures=temperatures, **kk, **rarg, **read)
            r = result(p)
        except Exception as e:  # loud is fine
            r = None
            mon.sig(what, type(e).__name__)
        mon.check("fault", not isinstance(r, dict), lambda: f"{what} of {victim} not noticed "
                  f"({len(files)} pieces, {route}, kappa {str(r.get('kappa'))[:120]})",
                  key=f"fault:{what}:{'lbte' if lbte else 'rta'}")

    # as no other piece may stand in for a lost one: all pieces are exclusive
    if fault in (0, 1):
        os.remove(victim)
        refused("missing")
    elif fault == 2:
        b = pathlib.Path(victim).read_bytes()
        pathlib.Path(victim).write_bytes(b[: int(rng.integers(len(b)))])
        refused("truncated")
    elif fault == 3:
        with h5py.File(victim, "a") as f:
            del f["collision_matrix" if lbte and rng.integers(2) else "gamma"]
        refused("dataset-lost")
    elif fault in (4, 5):
        # the piece is one of another temperature set (of the same length or a single one)
        T2 = [x + 17 for x in T] if fault == 4 else [T[0] + 17]
        for x in files:
            os.rename(x, x + ".old")
        obj = fresh([bands[0]] if bands else None)
        wk = dict(kk)
        if whole:
            obj.run_thermal_conductivity(temperatures=T2, write_LBTE_solution=True, **wk, **name)
        elif bands:
            for b in bands:
                fresh([b]).run_thermal_conductivity(temperatures=T2, grid_points=[int(v) for v in gps],
                                                    **{wkey: True}, **wk, **name)
        else:
            obj.run_thermal_conductivity(temperatures=T2, grid_points=[int(v) for v in gps],
                                         **{wkey: True}, **wk, **name)
        if not lbte:
            for x in files:
                if x != victim:
                    os.replace(x + ".old", x)
            refused("temperatures")
        elif len(files) > 1 and not whole:
            for x in files:
                if x != victim:
                    os.replace(x + ".old", x)
            refused("temperatures")
    elif fault == 6:
        # pieces of one smearing only
        if len(c["sigmas"]) > 1:
            s = c["sigmas"][int(rng.integers(len(c["sigmas"])))]
            tag = "-s" if s is None else f"-s{s:f}".rstrip("0").rstrip(".")
            gone = [x for x in files if (("-s" not in x) if s is None else tag in x)]
            for x in gone:
                os.remove(x)
            if gone:
                refused("smearing-lost")
    elif fault == 7 and not whole:
        # temperatures other than the stored ones are requested
        if not lbte:
            refused("other-temperatures", [x + 1 for x in T])
            if len(T) > 1:
                refused("fewer-temperatures", T[:-1])
    mon.sig(c["name"], tuple(np.array(p0.mesh_numbers).tolist()), route, str(bands), fault,
            len(parts), c["opt"], str(c["sigmas"]))


def sigmas(c, mon, fresh, solve, same, rng):
    """All smearings in one run equal one run per smearing, on every internal route."""
    k = [{}, {"write_pp": True}, {"write_gamma_detail": True}, {"is_full_pp": True},
         {"is_N_U": True}][int(rng.integers(5))]
    s = c["sigmas"] if len(c["sigmas"]) > 1 else [None, c["sigmas"][0] or 0.3]
    all_ = solve(fresh(None, s), **k)
    for j, x in enumerate(s):
        one = solve(fresh(None, [x]), **k)
        for n in ("gamma", "kappa", "mode_kappa", "gamma_isotope", "gamma_N"):
            if n in one:
                mon.close("sigmas", all_[n][j], one[n][0], rtol=1e-9, key=f"sigmas:{n}",
                          detail=f"{k} sigma {x} of {s}")
    mon.sig("sigmas", c["name"], str(k), str([x is None for x in s]), c["sc"])


def stored_pp(c, mon, fresh, solve, same, rng, name, read, comp):
    s = [c["sigmas"][0]]
    full = bool(rng.integers(2))
    p = fresh(None, s)
    one = solve(p, is_full_pp=full)
    obj = None
    gps = [int(x) for x in one["grid_points"]]
    for x in rng.permutation(gps):
        obj = obj if obj is not None and rng.integers(2) else fresh(None, s)
        solve(obj, write_pp=True, is_full_pp=full, grid_points=[int(x)], compression=comp, **name)
    two = solve(fresh(None, s), read_pp=True, is_full_pp=full, **read)
    one.pop("averaged", None)
    same("pp", two, one, f"full {full} compression {comp}")
    files = sorted(x for x in os.listdir(".") if x.startswith("pp-"))
    mon.check("pp", len(files) == len(gps), f"{len(files)} files of {len(gps)}")
    if full:
        # strengths of the full run serve every temperature and smearing
        T2 = [333.0]
        s2 = [None if s[0] else 0.5]
        want = solve(fresh(None, s), temperatures=T2)
        got = solve(fresh(None, s), read_pp=True, is_full_pp=True, temperatures=T2, **read)
        same("pp", got, want, "other temperature")
        del s2
    victim = files[int(rng.integers(len(files)))]
    b = pathlib.Path(victim).read_bytes()
    what = ["missing", "truncated", "other-smearing"][c["fault"] % 3]
    s3 = s
    if what == "missing":
        os.remove(victim)
    elif what == "truncated":
        pathlib.Path(victim).write_bytes(b[: int(rng.integers(len(b)))])
    else:
        s3 = [0.123 if s[0] is None else s[0] + 0.1]
    try:
        r = solve(fresh(None, s3), read_pp=True, is_full_pp=full, **read)
    except Exception as e:
        r = None
        mon.sig(what, type(e).__name__)
    mon.check("fault", not isinstance(r, dict), f"{what} strengths not noticed",
              key=f"fault:{what}:pp")
    mon.sig("pp", c["name"], full, str(s), str(comp), what, str(read))
