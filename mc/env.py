"""Makes the code under test importable: always from source (never from stale
bytecode), always from REPO, and always with the mpi4py stand-in of
mc/stubs (a singleton communicator, or a virtual rank driven by mc.vmpi)."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
STUBS = os.path.join(VERIF, "mc", "stubs")


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "impurityModel" and not fullname.startswith("impurityModel."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


def setup():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    if STUBS not in sys.path:
        sys.path.insert(0, STUBS)


def forget():
    """Forget the code under test, so that the next import executes it anew."""
    for k in list(sys.modules):
        if k == "impurityModel" or k.startswith("impurityModel."):
            del sys.modules[k]
