"""Resolve python extension-module functions to the C functions implementing them."""
import os
from .cfront import CUnit

_units = {}


class Linker:
    def __init__(self, root, src="src"):
        self.root = root
        self.src = os.path.join(root, src)
        self.used = set()

    def unit(self, dotted):
        rel = dotted.replace(".", "/") + ".c"
        path = os.path.join(self.src, rel)
        if path not in _units:
            _units[path] = CUnit(path, self.root) if os.path.exists(path) else None
        if _units[path] is not None:
            self.used.add(path)
        return _units[path]

    def __call__(self, name):
        mod, _, fn = name.rpartition(".")
        if not mod.startswith("lambdapic"):
            return None
        u = self.unit(mod)
        if u is None:
            return None
        c = u.methods().get(fn)
        return u.funcs.get(c) if c else None
