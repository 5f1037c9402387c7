"""Make ``import phono3py`` mean: Python of /repo + freshly built extensions."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import pathlib
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sodir):
        self._sodir = pathlib.Path(sodir)

    def find_spec(self, fullname, path=None, target=None):
        if fullname == "phono3py":
            d = REPO / "phono3py"
            return importlib.util.spec_from_file_location(
                fullname, d / "__init__.py", submodule_search_locations=[str(d)]
            )
        if fullname in ("phono3py._phono3py", "phono3py._phononcalc", "phono3py._recgrid"):
            name = fullname.split(".")[1]
            for so in sorted(self._sodir.glob(name + ".*so")):
                loader = importlib.machinery.ExtensionFileLoader(fullname, str(so))
                return importlib.util.spec_from_file_location(
                    fullname, so, loader=loader
                )
            return None
        return None


def install(sodir):
    sys.dont_write_bytecode = True
    # the finder of the editable install knows only /repo and the modules of build time
    sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuildRedirecting" not in type(f).__name__]
    sys.meta_path.insert(0, _Finder(sodir))
    import phono3py
    import phono3py._phono3py
    import phono3py._phononcalc
    import phono3py._recgrid

    assert phono3py.__file__.startswith(str(REPO) + "/"), phono3py.__file__
    for m in (phono3py._phono3py, phono3py._phononcalc, phono3py._recgrid):
        assert str(m.__file__).startswith(str(sodir)), m.__file__
