"""What every check needs: the package, the extension modules and analysis helpers."""
import os
import textwrap
from .alg import *
from . import alg
from .interp import *
from .interp import State
from .pyfront import Package, PyModule
from .link import Linker
from .regions import Broken

REPO = os.environ.get("VERIF_REPO", "/repo")

_world = None


class World:
    def __init__(self, root=REPO):
        self.root = root
        self.pkg = Package(os.path.join(root, "src"))
        self.linker = Linker(root)

    def mod(self, name):
        m = self.pkg.mods.get("lambdapic." + name)
        if m is None:
            raise Broken("module lambdapic.%s not found" % name)
        return m

    def cls(self, mod, name):
        c = self.mod(mod).classes.get(name)
        if c is None:
            raise Broken("class %s not found in lambdapic.%s" % (name, mod))
        return c

    def method(self, cls, name):
        m = self.pkg.method(cls, name)
        if m is None:
            raise Broken("method %s.%s not found" % (cls.name, name))
        return m

    def func(self, mod, name):
        f = self.mod(mod).funcs.get(name)
        if f is None:
            raise Broken("function %s not found in lambdapic.%s" % (name, mod))
        return f

    def unit(self, mod):
        u = self.linker.unit("lambdapic." + mod)
        if u is None:
            raise Broken("C extension lambdapic.%s not found" % mod)
        return u

    def interp(self, link=True):
        it = Interp(pkg=self.pkg)
        if link:
            it.linker = self.linker
        return it

    def self_of(self, it, cls, name="self"):
        me = atom("sym", name)
        it.types[me] = cls
        return P(me)

    def attr(self, it, cls, me, name):
        """value of self.name (properties followed)"""
        it.lang, it.closure, it.mod = "py", None, cls.module
        return it.getattr(me, name, State({}, {}, TRUE))

    def driver(self, src, name="main"):
        """a few lines of Python that call into the package, analysed like any other source
        (they are never executed); returns the Func called `name`"""
        self.ndrv = getattr(self, "ndrv", 0) + 1
        m = PyModule(os.path.join(self.root, "src", "lambdapic", "_drv%d.py" % self.ndrv), os.path.join(self.root, "src"), textwrap.dedent(src))
        m.synthetic = True
        return m.funcs[name]

    def note(self, c, it):
        for f in it.analysed:
            c.functions.add(f)
        for p in self.linker.used:
            c.units.add(p)

    def enum(self, cls):
        """Enum class -> {name: int}"""
        e = cls.enum_values()
        if e is None:
            raise Broken("enumeration %s not recognised" % cls.name)
        return e


def world():
    global _world
    if _world is None:
        _world = World()
    return _world


AXES = "XYZ"


def direction(name, dim):
    """boundary name -> direction vector, e.g. XMAXYMIN -> (1,-1)"""
    d = [0] * dim
    s = name
    while s:
        ax = AXES.index(s[0])
        d[ax] = -1 if s[1:4] == "MIN" else 1
        s = s[4:]
    return tuple(d)


def boundaries(w, dim):
    """Boundary enum of the python package: value -> (name, direction)"""
    cls = w.cls("core.patch.patch", "Boundary%dD" % dim)
    e = w.enum(cls)
    out = {}
    for nm, v in e.items():
        out[v] = (nm, direction(nm, dim))
    return out
