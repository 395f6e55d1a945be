"""Import hook: gnome's extension modules come from the check's own build."""
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, inst):
        self.map = {}
        for so in glob.glob(os.path.join(inst, "gnome", "**", "*.cpython-*.so"), recursive=True):
            rel = os.path.relpath(so, inst)
            name = rel.split(".cpython-")[0].replace(os.sep, ".")
            self.map[name] = so

    def find_spec(self, name, path=None, target=None):
        so = self.map.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install():
    inst = os.environ["VERIF_INST"]
    f = _Finder(inst)
    if not f.map:
        raise RuntimeError("no extension modules under " + inst)
    sys.meta_path.insert(0, f)
