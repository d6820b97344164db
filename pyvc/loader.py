"""Imports the packages under verification from the working tree, instrumented."""
from __future__ import annotations
import importlib.machinery, os, sys
from . import instrument, runtime

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
PACKAGES = ("databind.", "nr.stream")
MODULES = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        source = self.get_data(path).decode("utf-8")
        stats = {}
        tree = instrument.instrument_module(source, path, stats)
        runtime.FILES.add(path)
        for name, why in stats["skipped"]:
            runtime.SKIPPED[(path, name)] = why
        MODULES[fullname] = {"file": path, "functions": stats["functions"], "skipped": stats["skipped"]}
        return compile(tree, path, "exec", dont_inherit=True)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith(PACKAGES):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = Loader(name, spec.origin)
            spec.cached = None
        return spec


def install():
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(REPO, "databind", "src")]
    sys.path.append(SITE)
    sys.meta_path.insert(0, Finder)
