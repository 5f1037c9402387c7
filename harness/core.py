"""Check runner: cases -> worker processes (real code) -> monitor -> verdict.

A check is a module checks/<id>.py with

    PROP      "C01"
    RULE      how cases are made and what makes one non-trivial
    REQUIRED  {clause: minimum number of observations}; below it the run is inconclusive
    cases(tier, rng) -> list of JSON-able dicts
    run(case, mon)   executes the real code and reports to the monitor

Optional: VARIANT ("opt"), ASSUMPTIONS (list), THREADS, CASE_TIMEOUT, main(ctx).

Verdicts are three-valued: exit 0 (held on what was observed), exit 1 with VIOLATION lines,
exit 2 (inconclusive / harness error).
"""

import hashlib
import importlib
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter, defaultdict
from multiprocessing.connection import wait as mp_wait
import multiprocessing as mp

import numpy as np

from . import linecov

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = VERIF / "evidence"
REPLAYS = VERIF / "replays"
KNOWN = VERIF / "known_findings.txt"
MAX_NEW = 6  # stop after that many distinct unlisted violations


class Skip(Exception):
    """The case is outside the property's scope (not counted as evaluated)."""


class Monitor:
    """Online oracle: every observation of a clause is counted, every miss recorded."""

    def __init__(self, prop, case):
        self.prop = prop
        self.case = case
        self.events = Counter()
        self.sigs = set()
        self.violations = []
        self.margin = {}
        self.notes = []

    # --- verdicts -------------------------------------------------------
    def violation(self, key, detail):
        if sum(1 for v in self.violations if v["key"] == key) < 2:
            self.violations.append({"key": key, "detail": str(detail)[:1500]})

    def check(self, clause, ok, detail="", n=1, key=None):
        self.events[clause] += int(n)
        if not bool(ok):
            self.violation(key or clause, detail() if callable(detail) else detail)
        return bool(ok)

    def close(self, clause, got, want, rtol=1e-8, atol=0.0, scale=None, detail="",
              key=None, n=None):
        """max|got-want| <= atol + rtol*scale; scale defaults to max|want|,|got|."""
        a = np.asarray(got)
        b = np.asarray(want)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b) if (a.ndim == 0 or b.ndim == 0) else (a, b)
            except ValueError:
                pass
        if a.shape != b.shape:
            self.events[clause] += 1
            self.violation(key or clause, f"{detail} shape {a.shape} != {b.shape}")
            return False
        self.events[clause] += int(n if n is not None else max(1, a.size))
        if a.size == 0:
            return True
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not (fa.all() and fb.all()):
            self.violation(key or clause, f"{detail} non-finite values: got "
                           f"{int((~fa).sum())}, want {int((~fb).sum())} of {a.size}")
            return False
        if scale is None:
            scale = max(np.abs(a).max(), np.abs(b).max())
        tol = atol + rtol * scale
        d = np.abs(a - b)
        m = float(d.max())
        r = m / tol if tol > 0 else (0.0 if m == 0 else np.inf)
        if r > self.margin.get(clause, -1):
            self.margin[clause] = r
        if m > tol:
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
            self.violation(
                key or clause,
                f"{detail} max dev {m:.6e} > tol {tol:.3e} at {tuple(int(x) for x in i)}: "
                f"got {a[i]!r} want {b[i]!r} (scale {scale:.4e}, {int((d > tol).sum())}"
                f"/{d.size} entries off)",
            )
            return False
        return True

    def equal(self, clause, got, want, detail="", key=None):
        a = np.asarray(got)
        b = np.asarray(want)
        ok = a.shape == b.shape and bool(np.array_equal(a, b))
        self.events[clause] += max(1, a.size)
        if not ok:
            if a.shape != b.shape:
                d = f"shape {a.shape} != {b.shape}"
            else:
                w = np.argwhere(a != b)
                i = tuple(w[0]) if len(w) else ()
                d = f"{len(w)} entries differ, first at {tuple(int(x) for x in i)}: {a[i]!r} != {b[i]!r}"
            self.violation(key or clause, f"{detail} {d}")
        return ok

    def sig(self, *parts):
        """Register a distinct behaviour (state / configuration) that was seen."""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def note(self, text):
        if len(self.notes) < 5:
            self.notes.append(str(text)[:400])

    def dump(self):
        return {
            "events": dict(self.events),
            "sigs": sorted(self.sigs),
            "violations": self.violations,
            "margin": self.margin,
            "notes": self.notes,
        }


# ---------------------------------------------------------------------------
def case_seed(seed, prop, i):
    h = hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()
    return int.from_bytes(h[:4], "little")


def repo_frame(tb):
    """Innermost /repo frame of a traceback as 'file:function', or None."""
    out = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(str(REPO) + "/"):
            out = f"{pathlib.Path(fr.filename).relative_to(REPO)}:{fr.name}"
    return out


def internal_name(e):
    """Private name of the product that the harness (not the product) misses, or None.

    Such names may change without any change of behaviour: the case decides nothing then.
    """
    last = traceback.extract_tb(e.__traceback__)[-1].filename
    if not last.startswith(str(VERIF) + "/"):
        return None
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        where = getattr(o, "__module__", None) or getattr(o, "__name__", None) or ""
        name = e.name or ""
    elif isinstance(e, ImportError):
        where = e.name or ""
        m = re.search(r"cannot import name '(\w+)'", str(e))
        name = m[1] if m else where.split(".")[-1]
    else:
        return None
    if str(where).startswith("phono3py") and name.startswith("_") and not name.startswith("__"):
        return f"{where}.{name}"
    return None


def run_case(mod, case, verbose=False):
    """Execute one case in this process; returns the result dict."""
    mon = Monitor(mod.PROP, case)
    t0 = time.time()
    res = {"status": "ok"}
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix=f"vf-{mod.PROP}-", dir=os.environ.get("TMPDIR", "/tmp"))
    os.chdir(tmp)
    random.seed(case.get("seed", 0))
    np.random.seed(case.get("seed", 0) % (2**32))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, mon)
    except Skip as e:
        res["status"] = "skip"
        res["why"] = str(e)
    except (Exception, SystemExit) as e:
        frame = repo_frame(e.__traceback__)
        internal = internal_name(e)
        text = "".join(traceback.format_exception(e))[-1400:]
        if internal:
            res["status"] = "skip"
            res["why"] = f"internal name {internal} is not there"
            mon.note(f"skipped: internal name {internal} is not there")
            res["internal"] = 1
        elif frame is not None:
            mon.violation(f"exception:{frame}:{type(e).__name__}", text)
        else:
            res["status"] = "error"
            res["why"] = text
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res.update(mon.dump())
    res["lines"] = linecov.take()
    res["t"] = time.time() - t0
    return res


def _worker(conn, modname, sodir):
    linecov.start()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(devnull, 1)
    mod = importlib.import_module(modname)
    while True:
        msg = conn.recv()
        if msg is None:
            os._exit(0)
        conn.send(run_case(mod, msg))


def death(rc, err):
    """Violation record of a process that died: the report of the sanitizer, if there is one."""
    text = err.read_text(errors="replace") if err.exists() else ""
    key = f"process-died:rc{rc}"
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+(?: race)?) (\S+?)(?::\d+)* in (\S+)", text)
    if m:
        key = f"{m[1]}Sanitizer:{m[2]}:{os.path.basename(m[3])}:{m[4]}".replace(" ", "-")
    else:
        m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", text)
        if m:
            what = re.sub(r"[^a-zA-Z]+", "-", m[2])[:60].strip("-")
            key = f"UndefinedBehaviour:{os.path.basename(m[1])}:{what}"
    starts = [i for i in (text.find("ERROR: AddressSanitizer"), text.find("WARNING: ThreadSan"),
                          text.find("runtime error:")) if i >= 0]
    i = max(0, min(starts) - 200) if starts else max(0, len(text) - 1500)
    return {"key": key, "detail": text[i:i + 2500]}


class Pool:
    """Process pool that survives (and reports) dying and hanging workers."""

    def __init__(self, n, modname, sodir, errdir):
        self.n, self.modname, self.sodir, self.errdir = n, modname, sodir, errdir
        self.ctx = mp.get_context("fork")
        self.w = {}
        self.count = 0
        self.late = "timeout"

    def _spawn(self):
        a, b = self.ctx.Pipe()
        self.count += 1
        err = self.errdir / f"w{self.count}.err"

        p = self.ctx.Process(target=self._entry, args=(b, a, err))
        p.start()
        b.close()
        return {"p": p, "c": a, "err": err, "case": None, "t": 0}

    def _entry(self, conn, other, err):
        other.close()
        if not os.environ.get("VERIF_VERBOSE"):
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
        try:
            _worker(conn, self.modname, self.sodir)
        except (EOFError, KeyboardInterrupt):
            os._exit(0)

    def run(self, cases, timeout, deadline, on_result, stop):
        todo = list(enumerate(cases))
        todo.reverse()
        ws = []
        skipped = 0
        while todo or any(w["case"] is not None for w in ws):
            if (stop() or time.time() > deadline) and todo:
                skipped += len(todo)
                todo = []
            while todo and sum(w["case"] is not None for w in ws) < self.n:
                idle = [w for w in ws if w["case"] is None]
                w = idle[0] if idle else self._spawn()
                if not idle:
                    ws.append(w)
                i, c = todo.pop()
                w["case"], w["i"], w["t"] = c, i, time.time()
                w["c"].send(c)
            busy = [w for w in ws if w["case"] is not None]
            ready = mp_wait([w["c"] for w in busy], timeout=0.5) if busy else []
            for w in list(busy):
                res = None
                if w["c"] in ready:
                    try:
                        res = w["c"].recv()
                    except (EOFError, ConnectionResetError):
                        w["p"].join(10)
                        rc = w["p"].exitcode
                        tail = w["err"].read_text(errors="replace")[-1500:] if w["err"].exists() else ""
                        res = {
                            "status": "ok" if rc not in (-9,) else "error",
                            "why": f"worker died rc={rc}",
                            "events": {}, "sigs": [], "margin": {}, "notes": [],
                            "violations": [] if rc == -9 else [death(rc, w["err"])],
                            "t": time.time() - w["t"],
                        }
                        ws.remove(w)
                elif time.time() - w["t"] > timeout:
                    w["p"].kill()
                    w["p"].join()
                    ws.remove(w)
                    res = {"status": self.late, "why": f"> {timeout} s", "events": {},
                           "sigs": [], "margin": {}, "notes": [], "violations": [],
                           "t": timeout}
                if res is not None:
                    i, c = w["i"], w["case"]
                    w["case"] = None
                    on_result(i, c, res)
        for w in ws:
            try:
                w["c"].send(None)
            except OSError:
                pass
            w["p"].join(5)
            if w["p"].is_alive():
                w["p"].kill()
        return skipped


# ---------------------------------------------------------------------------
def load_known(prop):
    """{key: text} of the findings recorded (not repaired) for this property."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line.startswith("KNOWN "):
                continue
            f = line.split(None, 3)
            if f[1] == f"property={prop}" and f[2].startswith("key="):
                out[f[2][4:]] = f[3] if len(f) > 3 else ""
    return out


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    return o


class Verdict:
    """Aggregates results of all cases of one run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.skipped = 0
        self.internal = 0
        self.errors = []
        self.events = Counter()
        self.sigs = set()
        self.margin = {}
        self.notes = []
        self.samples = []
        self.viol = {}
        self.known = load_known(prop)
        self.known_hit = {}
        self.lines = {}
        self.extra = {}

    def add(self, case, res):
        if res["status"] in ("error", "timeout"):
            self.errors.append({"case": case, "status": res["status"], "why": res.get("why", "")})
        if res["status"] == "skip":
            self.skipped += 1
            self.internal += res.get("internal", 0)
        elif res["status"] == "ok":
            self.evaluations += 1
        self.events.update(res["events"])
        self.sigs.update(res["sigs"])
        for f, ls in res.get("lines", {}).items():
            self.lines.setdefault(f, set()).update(ls)
        for k, v in res["margin"].items():
            self.margin[k] = max(self.margin.get(k, 0), v)
        for n in res["notes"]:
            if len(self.notes) < 10:
                self.notes.append(n)
        if len(self.samples) < 4 and res["status"] == "ok":
            self.samples.append({"case": jsonable(case), "events": res["events"],
                                 "t": round(res["t"], 3)})
        for v in res["violations"]:
            if v["key"] in self.known:
                self.known_hit.setdefault(v["key"], (case, v["detail"]))
            else:
                self.viol.setdefault(v["key"], (case, v["detail"]))

    def finish(self, rule, required, assumptions, level="exploration"):
        EVID.mkdir(exist_ok=True)
        miss = {k: (self.events.get(k, 0), n) for k, n in required.items()
                if self.events.get(k, 0) < n}
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.sigs),
            "rule": rule,
            "samples": self.samples,
            "monitor_events": {k: int(v) for k, v in sorted(self.events.items())},
            "worst_deviation_over_tolerance": {
                k: float(f"{v:.3g}") for k, v in sorted(self.margin.items())},
            "cases_skipped": self.skipped,
            "cases_inconclusive": len(self.errors),
        }
        done = {}
        for f, ls in sorted(self.lines.items()):
            tot = linecov.total(f)
            if ls & tot:
                done[f] = f"{len(ls & tot)}/{len(tot)}"
        cov["product_lines_executed"] = done
        if os.environ.get("VERIF_LINES"):
            pathlib.Path(os.environ["VERIF_LINES"], f"{self.prop}.json").write_text(
                json.dumps({f: sorted(ls) for f, ls in self.lines.items()}))
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        (EVID / f"{self.prop}.json").write_text(json.dumps(jsonable({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
        }), indent=1) + "\n")
        for k in sorted(self.known_hit):
            print(f"KNOWN-FINDING: property={self.prop} key={k} {self.known[k]}")
        rc = 0
        if self.viol:
            REPLAYS.mkdir(exist_ok=True)
            for k, (case, detail) in self.viol.items():
                name = hashlib.sha1(k.encode()).hexdigest()[:10]
                path = REPLAYS / f"{self.prop}-{name}.json"
                path.write_text(json.dumps(jsonable({
                    "property": self.prop, "key": k, "case": case, "detail": detail,
                    "seed": self.seed, "tier": self.tier}), indent=1) + "\n")
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  key={k}")
                print("  " + detail.replace("\n", "\n  ")[:1200])
            rc = 1
        elif self.errors:
            for e in self.errors[:3]:
                print(f"INCONCLUSIVE property={self.prop} {e['status']}: {json.dumps(jsonable(e['case']))[:400]}\n{e['why']}")
            rc = 2
        elif miss and not self.internal:
            print(f"INCONCLUSIVE property={self.prop} monitor not reached: {miss}")
            rc = 2
        print(f"[{self.prop}] {self.tier} seed={self.seed} cases={self.evaluations} "
              f"skipped={self.skipped} distinct={len(self.sigs)} "
              f"observations={sum(self.events.values())} violations={len(self.viol)} "
              f"known={len(self.known_hit)} wall={time.time() - self.t0:.1f}s rc={rc}")
        return rc


def _other_build(prop, tier, seed, variant, cases, v, timeout, jobs):
    """Run `cases` with another build of the extensions in a process of its own."""
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"vfalt-{prop}-"))
    (tmp / "cases.json").write_text(json.dumps(cases))
    from . import build as bld

    env = dict(os.environ, VERIF_VARIANT=variant, VERIF_PART=str(tmp), **bld.run_env(variant))
    r = subprocess.run([sys.executable, "-m", "harness.entry", prop, "--tier", tier, "--seed", str(seed),
                        "--jobs", str(jobs)], env=env, cwd=VERIF, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = tmp / "results.json"
    if not out.exists():
        raise RuntimeError(f"{variant} part failed:\n" + r.stdout[-2000:])
    for c, res in json.loads(out.read_text()):
        v.add(c, res)
    shutil.rmtree(tmp, ignore_errors=True)


def main(prop, tier, seed, replay=None, jobs=None):
    from . import boot, build as bld

    modname = f"checks.{prop.lower()}"
    v = Verdict(prop, tier, seed)
    # static attributes are needed before the import of phono3py
    mod_src = (VERIF / "checks" / f"{prop.lower()}.py").read_text()
    variant = "opt"
    for line in mod_src.splitlines():
        if line.startswith("VARIANT"):
            variant = line.split("=")[1].strip().strip("'\"")
    part = os.environ.get("VERIF_PART")
    if replay:
        rcase = json.loads(pathlib.Path(replay).read_text())["case"]
        variant = rcase.get("variant", variant)
    variant = os.environ.get("VERIF_VARIANT", variant)
    if replay and bld.run_env(variant) and not os.environ.get("VERIF_REEXEC"):
        os.environ.update(bld.run_env(variant), VERIF_REEXEC="1")
        os.execv(sys.executable, [sys.executable, "-m", "harness.entry", prop, "--tier", tier,
                                  "--seed", str(seed), "--replay",
                                  str(pathlib.Path(replay).resolve())])
    try:
        sodir = bld.build(variant)
    except bld.BuildError as e:
        print(f"INCONCLUSIVE property={prop}: build failed\n{e}")
        return 2
    os.environ["VERIF_SODIR"] = str(sodir)
    boot.install(sodir)
    mod = importlib.import_module(modname)
    if replay:
        res = run_case(mod, rcase)
        for x in res["violations"]:
            print(x["key"], "\n ", x["detail"])
        print({k: res[k] for k in ("status", "events", "t")}, res.get("why", ""))
        return 1 if res["violations"] else 0
    rng = np.random.default_rng(case_seed(seed, prop, "gen"))
    cases = mod.cases(tier, rng)
    for i, c in enumerate(cases):
        c.setdefault("seed", case_seed(seed, prop, i))
        c["id"] = i
    if part:
        cases = json.loads((pathlib.Path(part) / "cases.json").read_text())
    others = {}
    if not part:
        for c in cases:
            if c.get("variant", variant) != variant:
                others.setdefault(c["variant"], []).append(c)
        cases = [c for c in cases if c.get("variant", variant) == variant]
    errdir = pathlib.Path(tempfile.mkdtemp(prefix=f"vferr-{prop}-"))
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 2400)
    n = jobs or getattr(mod, "JOBS", 8)
    pool = Pool(n, modname, sodir, errdir)
    pool.late = getattr(mod, "LATE", "timeout")
    slow = []

    raw = []

    def on_result(i, c, res):
        v.add(c, res)
        raw.append((c, jsonable(res)))
        slow.append((res["t"], i))
        if os.environ.get("VERIF_PROGRESS"):
            print(f"  case {i} {res['status']} t={res['t']:.1f} viol={[x['key'] for x in res['violations']]}", file=sys.stderr)

    tmo = getattr(mod, "CASE_TIMEOUT", {}).get(tier, 300 if tier == "quick" else 900)
    not_run = pool.run(cases, tmo, v.t0 + budget, on_result,
                       lambda: len(v.viol) >= MAX_NEW)
    if part:
        shutil.rmtree(errdir, ignore_errors=True)
        (pathlib.Path(part) / "results.json").write_text(json.dumps(raw))
        return 0
    for name, cs in others.items():
        _other_build(prop, tier, seed, name, cs, v, budget + 60, n)
    v.extra["cases_not_started"] = not_run
    slow.sort(reverse=True)
    v.extra["slowest_case_s"] = round(slow[0][0], 2) if slow else 0
    if hasattr(mod, "EXTRA"):
        v.extra.update(mod.EXTRA)
    shutil.rmtree(errdir, ignore_errors=True)
    req = mod.REQUIRED if not callable(mod.REQUIRED) else mod.REQUIRED(tier)
    return v.finish(mod.RULE, req, getattr(mod, "ASSUMPTIONS", []))
