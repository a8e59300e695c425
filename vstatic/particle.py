"""Per-particle formulas of the particle kernels.

While a kernel is analysed every value stored to a particle attribute array is replaced by a named
version pv(attr, depth, uid, base, index) whose definition (in terms of earlier versions) is recorded, so
formulas stay small however long the fused pipeline is.  `depth` counts the stores to one slot along
a path.  Loads can be replaced by a parametrised value (`param`), e.g. a position written as
origin + spacing*(cell + fraction), which makes index arithmetic and branches decidable."""
from .alg import *
from . import alg
from .interp import Store, Ptr, atoms_deep

PATTRS = ("x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "is_dead",
          "delta", "chi", "tau", "event", "_id")
FCOMPS = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")


def strip_np(b):
    while isinstance(b, Atom) and b.kind in ("npdata", "dims") and isinstance(b.args[0], Atom):
        b = b.args[0]
    return b


def owner(b):
    """(patch atom, 'p'|'f', attribute) of an array of a particle container or of a field object"""
    b = strip_np(b)
    if b.kind != "attr" or not isinstance(b.args[0], Atom):
        return None
    o, at = b.args[0], b.args[1]
    if o.kind == "load" and isinstance(o.args[0], Atom) and o.args[0].kind == "attr" and o.args[0].args[1] == "particles":
        return o.args[0].args[0], "p", at, o.args[1]
    if o.kind == "attr" and o.args[1] == "fields":
        return o.args[0], "f", at, None
    return None


class Def:
    __slots__ = ("attr", "depth", "uid", "base", "key", "val", "pc", "loc", "prev")


class Cutter:
    def __init__(self, param=None, facts=None):
        self.defs = []                      # uid -> Def
        self.index = {}
        self.names = True
        self.raw = {}                       # parametrised value of an original content -> its NaN test
        self.given = set()                  # parametrised values
        self.fdefs = []                     # contributions to field arrays
        self.param = param                  # (cutter, attr, def or None, owner, key) -> Poly or None
        self.facts = facts or {}            # attribute name -> callable(base) -> Poly

    def isnan(self, v):
        a = v.as_atom()
        if a is not None and a.kind == "ite":
            c, x, y = a.args
            return ite_b(c, self.isnan(P(x)), self.isnan(P(y)))
        r = self.raw.get(v)
        if r is not None:
            return var_b(r)
        if a is not None and a.kind == "load" and owner(a.args[0]) is not None:
            o = owner(a.args[0])
            return var_b(atom("truth", atom("nan", o[2], o[0], a.args[1])))
        if self.param is not None and (v in self.given or a is not None and a.kind == "pv"):
            return FALSE            # finite particles stay finite
        return var_b(atom("truth", atom("fn", "isnan", (v,))))

    def attr(self, base):
        o = owner(base)
        return o[2] if o is not None and o[1] == "p" else None

    def fact(self, it, base, key):
        return self.facts[key](base)

    def version(self, v):
        """Def of the version a value denotes (None: the original content)"""
        a = v.as_atom() if isinstance(v, Poly) else None
        if a is not None and a.kind == "pv":
            return self.defs[a.args[2]]
        return None

    def clean(self, v, pc):
        n = 0
        a = v.as_atom() if isinstance(v, Poly) else None
        while a is not None and a.kind == "ite" and n < 20:
            n += 1
            if alg.b_implies(pc, a.args[0]):
                v = a.args[1]
            elif alg.b_implies(pc, ~a.args[0]):
                v = a.args[2]
            else:
                break
            if not isinstance(v, Poly):
                break
            a = v.as_atom()
        return v

    def load(self, it, base, key, v, st):
        o = owner(base)
        if o is None or o[1] != "p" or not isinstance(v, Poly):
            return v
        v = self.clean(v, st.pc)
        if self.param is not None and isinstance(key, tuple) and len(key) == 1:
            a = v.as_atom()
            if a is not None and (a.kind == "pv" or a.kind == "load" and len(a.args) == 2):
                d = self.version(v)
                r = self.param(self, o[2], d, o, key[0])
                if r is not None:
                    self.given.add(r)
                    if d is None:
                        self.raw[r] = atom("truth", atom("nan", o[2], o[0], key))
                    return r
        return v

    def store(self, it, base, key, val, st, loc):
        o = owner(base)
        if o is not None and o[1] == "f" and isinstance(key, tuple) and all(isinstance(k, Poly) for k in key):
            val = it.num(val)
            old = it.load_from(base, key, st.mem.get(base))
            d = Def()
            d.attr, d.depth, d.base, d.key, d.pc, d.loc, d.prev = o[2], 0, base, key, st.pc, loc, None
            d.val, d.uid = val - old, len(self.fdefs)
            self.fdefs.append(d)
            return P(atom("fv", d.uid, base, key))
        at = self.attr(base)
        if not at or not isinstance(key, tuple) or len(key) != 1 or not isinstance(key[0], Poly):
            return val
        val = it.num(val)
        prev = self.version(self.clean(it.load_from(base, key, st.mem.get(base)), st.pc))
        depth = 1 + (prev.depth if prev is not None else 0)
        k = (at, depth, base, key[0], val, st.pc, loc)
        d = self.index.get(k)
        if d is None:
            d = Def()
            d.attr, d.depth, d.base, d.key, d.val, d.pc, d.loc, d.prev = at, depth, base, key[0], val, st.pc, loc, prev
            d.uid = len(self.defs)
            self.defs.append(d)
            self.index[k] = d
        return P(atom("pv", at, depth, d.uid, base, key[0]))
