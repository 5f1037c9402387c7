"""Run the command-line scripts of /repo in this process (own cwd, output captured)."""

import contextlib
import io
import sys
import warnings


def call(*argv, script="phono3py"):
    """Return (exit code, output)."""
    import importlib

    mod = importlib.import_module("phono3py.scripts." + script.replace("-", "_"))
    out = io.StringIO()
    old = sys.argv
    sys.argv = [script, *[str(a) for a in argv]]
    code = 0
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                mod.run()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
    return code, out.getvalue()
