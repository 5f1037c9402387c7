"""Cases of the behavioural checks, reused as workloads of the native code."""

import importlib

import numpy as np


class Quiet:
    """Stands in for the monitor: judgements belong to the other checks."""

    def __init__(self):
        from collections import Counter

        self.events = Counter()
        self.violations = {}

    def check(self, clause, ok, *a, **k):
        return bool(np.all(ok))

    def close(self, *a, **k):
        return True

    def equal(self, *a, **k):
        return True

    def sig(self, *a, **k):
        pass

    def note(self, *a, **k):
        pass

    def violation(self, *a, **k):
        pass


def sample(tier, rng, props, n):
    """n cases in turn from the generators of `props`."""
    out = []
    pools = {}
    for i in range(n):
        p = props[i % len(props)]
        if p not in pools:
            mod = importlib.import_module(f"checks.{p.lower()}")
            pools[p] = mod.cases("quick", np.random.default_rng(int(rng.integers(2**31))))
        pool = [c for c in pools[p] if not c.get("variant")]
        c = dict(pool[int(rng.integers(len(pool)))])
        c.setdefault("seed", int(rng.integers(2**31)))
        c["id"] = i
        out.append({"prop": p, "case": c})
    return out


def run(item):
    """Execute one workload; exceptions are judged by the check the case comes from."""
    from harness.core import Skip

    mod = importlib.import_module(f"checks.{item['prop'].lower()}")
    q = Quiet()
    try:
        mod.run(item["case"], q)
    except Skip:
        return "skip"
    except (Exception, SystemExit) as e:
        return f"{type(e).__name__}"
    return "ok"
