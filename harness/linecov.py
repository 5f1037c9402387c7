"""Which lines of the product (Python part) were executed: evidence of reach, decides nothing."""

import os
import pathlib
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = REPO + "/phono3py/"
_new = {}


def _line(code, line):
    f = code.co_filename
    if f.startswith(ROOT):
        _new.setdefault(f[len(ROOT):], set()).add(line)
    return sys.monitoring.DISABLE


def start():
    m = getattr(sys, "monitoring", None)
    if m is None:
        return
    try:
        m.use_tool_id(m.COVERAGE_ID, "verif")
    except ValueError:
        return
    m.register_callback(m.COVERAGE_ID, m.events.LINE, _line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def take():
    """Lines executed for the first time in this process since the last call."""
    out = {f: sorted(x) for f, x in _new.items()}
    _new.clear()
    return out


def total(f):
    """Number of lines with code within functions of a file."""
    p = pathlib.Path(ROOT + f)
    if not p.exists():
        return set()
    out = set()
    todo = [compile(p.read_text(), str(p), "exec")]
    top = True
    while todo:
        c = todo.pop()
        todo += [x for x in c.co_consts if hasattr(x, "co_lines")]
        if not top and "__qualname__" not in c.co_names[:4]:
            out |= {x[2] for x in c.co_lines() if x[2] and x[2] != c.co_firstlineno}
        top = False
    return out
