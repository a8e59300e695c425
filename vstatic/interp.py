"""Gated value-numbering dataflow over the IR (C and Python alike).

One forward pass per function; control-flow joins merge values with gating
functions (ite atoms), loops are summarised (constant-trip loops unrolled,
other loops turned into one iteration over a fresh index with induction
variables, sums and element-wise array definitions recognised), repo functions
are inlined.  The result of analysing a function is its *effect tree*: stores,
calls and loops in program order, each with its path condition, over canonical
value numbers.
"""
from fractions import Fraction
import itertools
import re

from .alg import *
from .alg import B, _atom_list
from . import alg
from .ir import N, Func, walk
from .pyfront import PyClass, PyModule
from . import smallnp


class AnalysisError(Exception):
    pass


class UnrollLimit(AnalysisError):
    """a loop with decided condition did not end within the unrolling limit"""


class Counter:
    __slots__ = ("n",)

    def __init__(self, n=1):
        self.n = n

    def __next__(self):
        n = self.n
        self.n = n + 1
        return n


class VDict(dict):
    """dict with a change counter"""
    version = 0

    def __setitem__(self, k, v):
        if self.get(k) != v:
            self.version += 1
            dict.__setitem__(self, k, v)

    def pop(self, k, d=None):
        if k in self:
            self.version += 1
        return dict.pop(self, k, d)


class _None:
    def __repr__(self):
        return "None"


NONE = _None()


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=ZERO):
        self.base = base
        self.off = off

    def __repr__(self):
        return "&%s" % self.base if not self.off.t else "&%s+%s" % (self.base, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base is o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def subst(self, f, memo):
        b = subst(self.base, f, memo)
        o = subst(self.off, f, memo)
        if isinstance(b, Poly):
            b = atom("val", b)
        if isinstance(b, Atom):
            return Ptr(b, o)
        return b


class Box(Ptr):
    """environment entry of an address-taken local: the cell itself (never a pointer value)"""
    __slots__ = ()


class Tup:
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="tuple"):
        self.items = tuple(items)
        self.kind = kind

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def subst(self, f, memo):
        return Tup([subst(x, f, memo) for x in self.items], self.kind)


class DictV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)

    def __eq__(self, o):
        return isinstance(o, DictV) and self.items == o.items

    def __hash__(self):
        return hash(tuple(self.items))

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items.items())


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return "%s:%s%s" % ("" if self.a is NONE else self.a, "" if self.b is NONE else self.b,
                            "" if self.c is NONE else ":%s" % (self.c,))

    def __eq__(self, o):
        return isinstance(o, SliceV) and (self.a, self.b, self.c) == (o.a, o.b, o.c)

    def __hash__(self):
        return hash(("slice", self.a, self.b, self.c))

    def subst(self, f, memo):
        return SliceV(*[subst(x, f, memo) for x in (self.a, self.b, self.c)])


class FuncV:
    __slots__ = ("fn", "env", "self_")

    def __init__(self, fn, env=None, self_=None):
        self.fn, self.env, self.self_ = fn, env, self_

    def __eq__(self, o):
        return isinstance(o, FuncV) and self.fn is o.fn and self.self_ == o.self_

    def __hash__(self):
        return hash(id(self.fn))

    def __repr__(self):
        return "<fn %s>" % self.fn.qual


class ClassV:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.cls is self.cls

    def __hash__(self):
        return hash(id(self.cls))

    def __repr__(self):
        return "<class %s>" % self.cls.name


class EnumV:
    """member of an integer enumeration"""
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and self.cls is o.cls and self.value == o.value

    def __hash__(self):
        return hash((id(self.cls), self.value))

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class ModV:
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mod is self.mod

    def __hash__(self):
        return hash(id(self.mod))


class ExtV:
    """object of a module outside the repo, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class MethV:
    """unresolved method of an opaque object"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return "%r.%s" % (self.recv, self.name)

    def __eq__(self, o):
        return isinstance(o, MethV) and (self.recv, self.name) == (o.recv, o.name)

    def __hash__(self):
        return hash((self.recv, self.name))

    def subst(self, f, memo):
        return MethV(subst(self.recv, f, memo), self.name)


# ------------------------------------------------------------------ effects

class Eff:
    kind = "?"
    pc = TRUE
    loc = None
    stack = ()


class Store(Eff):
    kind = "store"

    def __init__(self, base, key, val, pc, loc, stack, old=None, op=None):
        self.base, self.key, self.val, self.pc, self.loc, self.stack, self.old, self.op = base, key, val, pc, loc, stack, old, op

    def __repr__(self):
        return "%s%s %s= %s  if %s" % (self.base, list(self.key) if isinstance(self.key, tuple) else "." + self.key,
                                      self.op or "", self.val, self.pc)


class CallE(Eff):
    kind = "call"

    def __init__(self, name, args, kw, pc, loc, stack, res, recv=None):
        self.name, self.args, self.kw, self.pc, self.loc, self.stack, self.res, self.recv = name, args, kw, pc, loc, stack, res, recv

    def __repr__(self):
        return "%s%s(%s%s)  if %s" % ("%r." % (self.recv,) if self.recv is not None else "", self.name, ", ".join(map(repr, self.args)),
                                      "".join(", %s=%r" % kv for kv in self.kw), self.pc)


class Loop(Eff):
    kind = "loop"

    def __init__(self, var, lo, hi, step, pc, loc, stack):
        self.var, self.lo, self.hi, self.step = var, lo, hi, step
        self.pc, self.loc, self.stack = pc, loc, stack
        self.body = []
        self.parallel = None
        self.outer_writes = {}
        self.iter = None
        self.hasbreak = False
        self.cond = None
        self.carried = []

    def __repr__(self):
        return "loop %s in [%s,%s) step %s if %s%s" % (self.var, self.lo, self.hi, self.step, self.pc, " PAR" if self.parallel else "")


class Ret(Eff):
    kind = "return"

    def __init__(self, val, pc, loc, stack):
        self.val, self.pc, self.loc, self.stack = val, pc, loc, stack

    def __repr__(self):
        return "return %r if %s" % (self.val, self.pc)


class RaiseE(Eff):
    kind = "raise"

    def __init__(self, val, pc, loc, stack):
        self.val, self.pc, self.loc, self.stack = val, pc, loc, stack

    def __repr__(self):
        return "raise %r if %s" % (self.val, self.pc)


def set_op(op, a, b):
    """operations on collections of known names"""
    if isinstance(b, DictV):
        b = Tup(list(b.items))
    if not isinstance(b, Tup) or not all(isinstance(x, str) for x in a.items + b.items):
        return None
    x, y = list(dict.fromkeys(a.items)), list(dict.fromkeys(b.items))
    if op == "intersection":
        return Tup([k for k in x if k in y], a.kind)
    if op == "union":
        return Tup(x + [k for k in y if k not in x], a.kind)
    if op == "difference":
        return Tup([k for k in x if k not in y], a.kind)
    if op == "isdisjoint":
        return TRUE if not set(x) & set(y) else FALSE
    if op == "issubset":
        return TRUE if set(x) <= set(y) else FALSE
    return TRUE if set(x) >= set(y) else FALSE


def dump(effs, ind=0, out=None):
    o = [] if out is None else out
    for e in effs:
        o.append("  " * ind + repr(e))
        if e.kind == "loop":
            dump(e.body, ind + 1, o)
    if out is None:
        return "\n".join(o)


def flat(effs, loops=(), pc=TRUE):
    """leaf effects with enclosing loops and full path condition"""
    for e in effs:
        if e.kind == "loop":
            yield from flat(e.body, loops + (e,), pc & e.pc)
        else:
            yield e, loops, pc & e.pc


# ------------------------------------------------------------------- memory

class MemObj:
    __slots__ = ("vals", "gen", "maps", "init", "sl", "prev")

    def __init__(self):
        self.vals = {}
        self.gen = 0
        self.maps = []        # [(loopvar atom, lo, hi, value)] element-wise definitions, latest last
        self.init = None      # default value for a fresh array (e.g. np.zeros)
        self.sl = None        # (start, stop, value): last whole-slice assignment, on top of prev
        self.prev = None

    def copy(self):
        m = MemObj()
        m.vals = dict(self.vals)
        m.gen = self.gen
        m.maps = list(self.maps)
        m.init = self.init
        m.sl, m.prev = self.sl, self.prev
        return m


class State:
    __slots__ = ("env", "mem", "pc")

    def __init__(self, env, mem, pc):
        self.env, self.mem, self.pc = env, mem, pc

    def fork(self, pc):
        return State(dict(self.env), dict(self.mem), pc)


INT_TYPES = re.compile(r"\b(int|long|short|char|npy_intp|npy_bool|Py_ssize_t|ssize_t|size_t|unsigned|int64_t|int32_t|uint\d+_t|npy_int\w*|npy_uint\w*|enum \w+|_Bool|bool|Py_intptr_t)\b")


def is_int_type(t):
    return bool(t) and "*" not in t and "[" not in t and "double" not in t and "float" not in t and bool(INT_TYPES.search(t))


PURE = {"sin", "cos", "tan", "exp", "log", "log10", "tanh", "sinh", "cosh", "arctan", "arctan2", "atan", "atan2", "arccos", "acos",
        "arcsin", "asin", "cbrt", "log2", "round", "ceil", "erf", "isnan", "isfinite", "isinf", "len", "sign", "trunc"}
UNARY_ALIAS = {"atan": "arctan", "acos": "arccos", "asin": "arcsin", "atan2": "arctan2"}

MAXUNROLL = 300
RECORDER = [None]             # makes the recorder of parallel accesses of every new interpreter (race.py)


def physical_constants():
    """named constants of the libraries; equal constants get equal values whatever they are called"""
    k = lambda n: P(atom("const", n))
    c, e, me, mp, eps, h, pi, kb = P(299792458), k("e"), k("m_e"), k("m_p"), k("epsilon_0"), k("h"), k("pi"), k("k_B")
    t = {"c": c, "speed_of_light": c, "e": e, "elementary_charge": e, "m_e": me, "electron_mass": me, "m_p": mp, "proton_mass": mp,
         "epsilon_0": eps, "h": h, "Planck": h, "hbar": h / (2 * pi), "pi": pi, "k": kb, "Boltzmann": kb,
         "mu_0": ONE / (eps * c * c)}
    t["alpha"] = t["fine_structure"] = e * e / (2 * eps * h * c)
    out = {"scipy.constants." + n: v for n, v in t.items()}
    out.update({"numpy.pi": pi, "math.pi": pi})
    return out


class Interp:
    def __init__(self, unit=None, pkg=None):
        self.gids = {}
        self.freed = set()
        self.bytes = {}          # malloc'ed blocks of concrete size -> (bytes, element size)
        self.alens = {}          # fresh 1-D arrays -> length
        self.last_mem = None
        self.unit = unit          # CUnit
        self.linker = None        # dotted extension function name -> C Func
        self.loadlog = None       # bases read in the current loop body pass
        self.opaque_arrays = False   # keep elements of whole-slice-assigned arrays as plain loads
        self.linked = []          # C calls crossed into: (name, args, pc, loc)
        self.pkg = pkg            # Package
        self.seq = Counter()
        self.effects = []
        self.stack = []
        self.depth = 0
        self.maxdepth = 25
        self.cut = None           # value naming hook (see particle.py)
        self.intrin = {}          # name -> handler(interp, args, kw, st, node)
        self.noinline = set()     # function names left as calls
        self.inline_pred = None
        self.unroll_sym = False
        self.at = None
        self.born = {}            # local storage -> enclosing loop variables
        self.race = RECORDER[0]() if RECORDER[0] else None          # recorder of accesses by iterations of parallel loops (race.py)
        self.unroll_par = False   # iterations of parallel loops one after the other (their independence is another matter)
        self.letmax = 0           # formulas with more terms are kept under a name (0: never)
        self.divzeros = []        # divisions by a known zero
        self.tables = {}          # tables of known shape: atom -> (shape, entry(*index))
        self.small = False        # arrays of known length are handled element by element
        self.isobj = None         # atoms known to be objects: true and not None
        self.bounds = VDict()
        self.nonneg = VDict()
        self.types = {}           # Atom -> PyClass | ('list', PyClass)
        self.consts = dict(physical_constants())          # name (ExtV dotted or C macro value) -> value
        self.rets = None
        self.breaks = None
        self.conts = None
        self.par = None
        self.analysed = set()     # functions visited
        self.gmem = {}
        self.loopid = Counter()
        self.loop_seed = {}
        self.dec_memo = (None, {}, {})
        self.attr_hook = None
        self.names_hook = None
        self.frame_addr = set()
        self.mod = None
        self.frame_id = 0
        self.frames = Counter()
        self.raises = []
        self.loopvars = []
        self.nconc = 0

    # ------------------------------------------------------------ utilities
    def emit(self, e):
        e.stack = tuple(self.stack)
        self.effects.append(e)
        return e

    def fresh(self, kind, *args, isint=False):
        return atom(kind, *args, next(self.seq), isint=isint)

    def num(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, B):
            return ite(v, ONE, ZERO)
        if isinstance(v, Ptr):
            return P(v.base) + v.off
        if isinstance(v, Atom):
            return P(v)
        if isinstance(v, (int, float, Fraction)):
            return P(v)
        if isinstance(v, EnumV):
            return P(v.value)
        return P(atom("val", v))

    def truth(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None and a.kind == "boolv":
                return a.args[0]
            if a is not None and self.isobj is not None and self.isobj(a):
                return TRUE
            return truth(v)
        if v is NONE:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, (FuncV, ClassV, ModV, ExtV)):
            return TRUE
        if isinstance(v, EnumV):
            return TRUE if v.value else FALSE
        if isinstance(v, DictV):
            return TRUE if v.items else FALSE
        if isinstance(v, Ptr):
            if v.base.kind in ("cell", "local", "newobj") or self.small and v.base.kind == "alloc":
                return TRUE
            return ~eq0(P(v.base)) if not v.off.t else var_b(atom("truth", v))
        return var_b(atom("truth", v))

    def base_of(self, v):
        """memory base atom (and offset) of a reference value"""
        if isinstance(v, Ptr):
            return v.base, v.off
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                return a, ZERO
            return atom("val", v), ZERO
        if isinstance(v, Atom):
            return v, ZERO
        if isinstance(v, B):
            return atom("val", ite(v, ONE, ZERO)), ZERO
        return atom("val", v), ZERO

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        try:
            if type(a) is type(b) and a == b:
                return a
        except Exception:
            pass
        if isinstance(a, B) and isinstance(b, B):
            return ite_b(c, a, b)
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
            return ite(c, self.num(a), self.num(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base:
            return Ptr(a.base, ite(c, a.off, b.off))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, DictV) and isinstance(b, DictV) and set(a.items) == set(b.items):
            return DictV([(k, self.merge_val(c, a.items[k], b.items[k])) for k in a.items])
        if c.hi is FALSE and c.lo is TRUE:
            c, a, b = ~c, b, a
        return P(atom("ite", c, a if not isinstance(a, Ptr) or a.off.t else P(a.base), b if not isinstance(b, Ptr) or b.off.t else P(b.base)))

    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            pc = r.pc | s.pc
            c = restrict_care(r.pc, pc)
            env = {}
            for k in set(r.env) | set(s.env):
                env[k] = self.merge_val(c, r.env.get(k), s.env.get(k))
            mem = {}
            for k in set(r.mem) | set(s.mem):
                m1, m2 = r.mem.get(k), s.mem.get(k)
                if m1 is m2:
                    mem[k] = m1
                    continue
                mem[k] = self.merge_mem(c, k, m1, m2)
            r = State(env, mem, pc)
        return r

    def merge_mem(self, c, base, m1, m2):
        m1 = m1 or MemObj()
        m2 = m2 or MemObj()
        m = MemObj()
        m.init = m1.init if m1.init is not None else m2.init
        if m1.sl is not None and m1.sl == m2.sl and m1.prev is m2.prev:
            m.sl, m.prev = m1.sl, m1.prev
        same_maps = m1.maps == m2.maps
        if same_maps:
            m.maps = list(m1.maps)
        if m1.gen == m2.gen:
            m.gen = m1.gen
        else:
            m.gen = ("m", min(str(m1.gen), str(m2.gen)), max(str(m1.gen), str(m2.gen)))
        if not same_maps:
            m.gen = ("mm", str(m.gen), next(self.seq))
        for k in list(m1.vals) + [k for k in m2.vals if k not in m1.vals]:
            a = m1.vals.get(k)
            b = m2.vals.get(k)
            if a is None:
                a = self.load_from(base, k, m1)
            if b is None:
                b = self.load_from(base, k, m2)
            m.vals[k] = self.merge_val(c, a, b)
        return m

    # ------------------------------------------------------------ load/store
    def load_from(self, base, key, m, isint=False, isptr=False):
        """value of base[key] in memory object m (m may be None)"""
        if self.loadlog is not None:
            self.loadlog.add(base)
        if m is not None:
            v = m.vals.get(key)
            if v is not None:
                return v
            if isinstance(key, tuple):
                # element-wise definitions
                may = False
                for k2 in m.vals:
                    if isinstance(k2, tuple) and not self.disjoint(key, k2):
                        may = True
                        break
                if not may and m.maps and len(key) == 1 and not isinstance(key[0], SliceV):
                    kv, lo, hi, val = m.maps[-1]
                    inside = True
                    if lo.t:
                        inside = self.in_range(~lt0(key[0] - lo) & lt0(key[0] - hi), key[0], lo, hi) is TRUE
                    if isinstance(key[0], Poly) and inside:
                        v = self.subst_val(val, {kv: key[0]})
                        pv = m.prev
                        if pv is not None and (pv.init is not None or pv.sl is not None) and isinstance(v, Poly):
                            c = ~lt0(key[0] - lo) & lt0(key[0] - hi)
                            c = self.in_range(c, key[0], lo, hi)
                            if c is not TRUE:
                                return self.merge_val(c, v, self.load_from(base, key, pv))
                        return v
                if not may and m.sl is not None and not self.opaque_arrays and len(key) == 1 and isinstance(key[0], Poly):
                    lo, hi, val = m.sl
                    c = ~lt0(key[0] - lo) & lt0(key[0] - hi)
                    c = self.in_range(c, key[0], lo, hi)
                    v = self.elem(val, key[0] - lo, m)
                    if v is not None:
                        return v if c is TRUE else self.merge_val(c, v, self.load_from(base, key, m.prev))
                if not may and m.init is not None and not m.maps and (not self.opaque_arrays or (m.sl is None and len(key) == 1)):
                    return m.init
                if may and not m.gen and not m.maps and len(key) == 1 and isinstance(key[0], Poly) and base.kind in ("alloc", "local", "row") and len(m.vals) <= 64:
                    ks = [k for k in m.vals if isinstance(k, tuple)]
                    if all(len(k) == 1 and isinstance(k[0], Poly) and k[0].const() is not None for k in ks):
                        ks.sort(key=lambda k: k[0].const())
                        r = m.vals[ks[-1]] if m.init is None else m.init
                        for k in reversed(ks if m.init is not None else ks[:-1]):
                            r = self.merge_val(eq0(key[0] - k[0]), m.vals[k], r)
                        return r
                gen = m.gen
                if may:
                    gen = ("g", m.gen, self.vals_id(m.vals))
                return P(atom("load", base, key, gen, isint=isint)) if gen else P(atom("load", base, key, isint=isint))
            if self.cut is not None and key in self.cut.facts:
                return self.cut.fact(self, base, key)
            gen = m.gen
            return P(atom("attr", base, key, gen, isint=isint)) if gen else P(atom("attr", base, key, isint=isint))
        if isinstance(key, tuple):
            return P(atom("load", base, key, isint=isint))
        if self.cut is not None and key in self.cut.facts:
            return self.cut.fact(self, base, key)
        return P(atom("attr", base, key, isint=isint))

    def in_range(self, c, k, lo, hi):
        if c is TRUE or c is FALSE:
            return c
        if self.sign(k - lo) == "+" and self.sign(k - hi) == "-":
            return TRUE
        return c

    def array_len(self, v):
        """number of elements of a 1-D array value, or None"""
        if isinstance(v, Ptr):
            v = P(v.base) if not v.off.t else None
        if not isinstance(v, Poly):
            return None
        for a in v.atoms():
            n = self.atom_len(a)
            if n is not None:
                return n
        return None

    def atom_len(self, a):
        if a.kind == "arange":
            return a.args[1]
        if a.kind == "alloc":
            return self.alens.get(a)
        if a.kind == "val":
            return self.array_len(a.args[0])
        if a.kind == "map":
            return a.args[2]
        if a.kind == "load" and len(a.args[1]) == 1 and isinstance(a.args[1][0], SliceV):
            n = self.atom_len(a.args[0])
            s = a.args[1][0]
            if n is None:
                return None
            if s.a is NONE and s.b is NONE:
                return n
            return None
        if a.kind == "fn":
            for x in a.args[1]:
                n = self.array_len(x) if isinstance(x, (Poly, Ptr)) else None
                if n is not None:
                    return n
        return None

    def elem(self, v, k, m=None):
        """element k of a 1-D array expression (scalars broadcast); None when not understood"""
        if isinstance(v, Ptr):
            v = P(v.base)
        if isinstance(v, (int, float)):
            return P(v)
        if not isinstance(v, Poly):
            return None
        bad = []

        def one(a):
            if a.kind == "arange":
                return a.args[0] + k * a.args[2]
            if a.kind == "map":
                return self.subst_val(a.args[1], {a.args[0]: k})
            if a.kind == "alloc" and a in self.alens:
                mm = self.last_mem.get(a) if self.last_mem is not None else None
                return self.load_from(a, (k,), mm)
            if a.kind == "load" and len(a.args[1]) == 1 and isinstance(a.args[1][0], SliceV):
                s = a.args[1][0]
                inner = a.args[0]
                iv = inner.args[0] if inner.kind == "val" else P(inner)
                st = ONE if s.c is NONE else s.c
                if s.a is NONE and s.b is NONE and st == P(-1):
                    n = self.array_len(iv)
                    if n is None:
                        bad.append(a)
                        return P(a)
                    return self.elem(iv, n - 1 - k, m)
                if s.c is NONE and (s.a is NONE or self.sign(s.a) == "+"):
                    return self.elem(iv, k if s.a is NONE else k + s.a, m)
                bad.append(a)
                return P(a)
            if a.kind == "fn" and a.args[0] in ("exp", "sqrt", "log", "sin", "cos", "tan", "abs", "tanh", "pow"):
                xs = [self.elem(x, k, m) for x in a.args[1]]
                if any(x is None for x in xs):
                    bad.append(a)
                    return P(a)
                return P(atom("fn", a.args[0], tuple(xs)))
            if a.kind == "paren":
                return None
            return P(a)
        r = subst(v, lambda a: one(a) if a.kind != "paren" else None, {})
        return None if bad else r

    def vals_id(self, vals):
        """small number naming a set of cell values (same stores -> same name)"""
        try:
            k = frozenset(vals.items())
            return self.gids.setdefault(k, len(self.gids))
        except TypeError:
            return -next(self.seq)

    def subst_val(self, v, mp):
        f = lambda a: mp.get(a)
        return subst(v, f, {})

    def disjoint(self, k1, k2):
        if len(k1) != len(k2):
            return False
        for a, b in zip(k1, k2):
            if isinstance(a, str) and isinstance(b, str):
                if a != b:
                    return True
                continue
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = (a - b).const()
                if d is not None and d != 0:
                    return True
        return False

    def as_int(self, p):
        """mark a python value passed through an integer argument as integral"""
        if isinstance(p, Poly):
            mp = {}
            for a in p.atoms():
                if not a.isint and a.kind in ("attr", "load", "sym", "len", "call"):
                    mp[a] = P(a)
                    a.isint = True
            if mp:
                return Poly(dict(p.t))
        return p

    def load(self, st, v, key, isint=False, loc=None):
        if isinstance(v, Tup) and isinstance(key, tuple) and len(key) == 1:
            return self.getitem(v, key[0], st, None)
        self.last_mem = st.mem
        base, off = self.base_of(v)
        if base.kind == "attr" and base.args[1] == "ob_item" and not off.t and isinstance(key, tuple) and len(key) == 1:
            x = base.args[0]
            if isinstance(x, Atom) and x.kind == "val" and isinstance(x.args[0], Tup):
                return self.getitem(x.args[0], key[0], st, None)
            if isinstance(x, Atom) and x.kind == "map":
                return self.iter_elem(P(x), self.num(key[0]), st)[0]
            if self.linker is not None and isinstance(x, Atom) and x.kind in ("attr", "load", "sym"):
                return self.iter_elem(P(x), self.num(key[0]), st)[0]
        if base.kind == "ite" and base not in st.mem:
            c, x, y = base.args
            if not off.t and (isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, Poly) and isinstance(y, Poly)):
                r1 = self.load(st, x, key, isint)
                r2 = self.load(st, y, key, isint)
                return self.merge_val(c, r1, r2)
        if base.kind == "alloc" and len(base.args) > 1 and base not in st.mem:
            for b2, m2 in st.mem.items():
                if b2.kind == "alloc" and b2.args[0] == base.args[0] and len(b2.args) == len(base.args):
                    mp = {}
                    for q, r in zip(b2.args[1:], base.args[1:]):
                        qa = q.as_atom()
                        if qa is not None:
                            mp[qa] = r
                    if off.t and isinstance(key, tuple) and len(key) == 1:
                        key = (self.num(key[0]) + off,)
                    return self.subst_val(self.load_from(b2, key, m2, isint), mp)
        if off.t and isinstance(key, tuple) and len(key) == 1:
            key = (self.num(key[0]) + off,)
        elif off.t and not isinstance(key, tuple):
            base = atom("ptr", base, off)
        if self.race is not None:
            self.race.touch(self, base, key, "r", st.pc, loc or self.at)
        if self.small and self.linker is not None:
            self.in_bounds(base, key, loc, "read")
            if base in self.bytes:
                self.written_before(base, key, st, loc)
        m = st.mem.get(base)
        if self.cut is not None:
            return self.cut.load(self, base, key, self.load_from(base, key, m, isint), st)
        return self.load_from(base, key, m, isint)

    SIZES = {"double": 8, "npy_intp": 8, "npy_int64": 8, "int64_t": 8, "long": 8, "size_t": 8, "Py_ssize_t": 8, "int": 4, "float": 4, "MPI_Request": 8, "npy_bool": 1, "char": 1, "bool": 1, "unsigned char": 1, "npy_double": 8}

    def sizeof(self, t):
        t = t.replace("const ", "").replace("enum ", "").strip()
        return 8 if t.endswith("*") else self.SIZES.get(t)

    def in_bounds(self, base, key, loc, what):
        """concrete element of an array of concrete length: must be inside"""
        if base in self.freed:
            from .smallnp import OutOfRange
            raise OutOfRange("a freed block is %s" % what, loc)
        if base.kind != "alloc" or not isinstance(key, tuple) or len(key) != 1 or not isinstance(key[0], Poly):
            return
        i = key[0].const()
        if i is None:
            return
        n = self.alens.get(base)
        n = n.const() if n is not None else None
        if n is None and base in self.bytes:
            b, unit = self.bytes[base]
            n = b / unit
        if n is not None and not 0 <= i < n:
            from .smallnp import OutOfRange
            raise OutOfRange("element %s of an array of %s elements is %s" % (i, n, what), loc)

    def written_before(self, base, key, st, loc):
        """an element of a block from malloc is read: some write must have reached it"""
        m = st.mem.get(base)
        if m is None or m.init is not None or m.gen is not None and m.gen != 0 or m.maps or m.sl is not None or not isinstance(key, tuple) or len(key) != 1 or not isinstance(key[0], Poly) or key[0].const() is None:
            return
        if key not in m.vals and all(isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Poly) and k[0].const() is not None for k in m.vals):
            from .smallnp import OutOfRange
            raise OutOfRange("element %s of an allocated block is read before anything is stored there" % key[0].const(), loc)

    def store(self, st, v, key, val, loc, op=None, rhs=None):
        base, off = self.base_of(v)
        if off.t and isinstance(key, tuple) and len(key) == 1:
            key = (self.num(key[0]) + off,)
        if self.race is not None:
            self.race.touch(self, base, key, "w", st.pc, loc or self.at)
        if self.small and self.linker is not None:
            self.in_bounds(base, key, loc, "written")
        if self.cut is not None:
            val = self.cut.store(self, base, key, val, st, loc)
        m = st.mem.get(base)
        m = m.copy() if m is not None else MemObj()
        if isinstance(key, tuple) and self.lang == "py" and op is None and key and all(x is Ellipsis or isinstance(x, SliceV) and x.a is NONE and x.b is NONE and x.c is NONE for x in key) and (
                val is TRUE or val is FALSE or isinstance(val, Poly) and val.const() is not None):
            # x[:] = constant
            for k in [k for k in m.vals if isinstance(k, tuple)]:
                del m.vals[k]
            m.gen = ("w", next(self.seq))
            m.maps = []
            m.init = val
            m.sl = m.prev = None
            st.mem[base] = m
            self.emit(Store(base, key, val, st.pc, loc, (), op=op))
            return
        if isinstance(key, tuple):
            drop = [k for k in m.vals if isinstance(k, tuple) and k != key and not self.disjoint(k, key)]
            if drop or (m.vals and any(isinstance(x, SliceV) or x is Ellipsis for x in key)):
                for k in drop:
                    del m.vals[k]
                m.gen = ("w", next(self.seq))
            elif any(isinstance(x, SliceV) for x in key):
                prev = m.copy()
                m.gen = ("w", next(self.seq))
                m.maps = []
                m.init = None
                m.sl = m.prev = None
                n = self.alens.get(base) if base.kind in ("alloc",) else self.atom_len(base)
                if len(key) == 1 and key[0].c is NONE and n is not None and not m.vals:
                    lo = ZERO if key[0].a is NONE else self.num(key[0].a)
                    hi = n if key[0].b is NONE else self.num(key[0].b)
                    if self.sign(lo) == "-":
                        lo = lo + n
                    if self.sign(hi) == "-":
                        hi = hi + n
                    m.sl, m.prev = (lo, hi, val), prev
                    self.emit(Store(base, key, val, st.pc, loc, (), op=op))
                    st.mem[base] = m
                    return
        m.vals[key] = val
        st.mem[base] = m
        if base.kind != "cell":
            self.emit(Store(base, key, val, st.pc, loc, (), op=op))
            if rhs is not None:
                self.effects[-1].rhs = rhs

    # -------------------------------------------------------------- lookup
    def lookup(self, name, st, node=None):
        v = st.env.get(name)
        if v is not None:
            if isinstance(v, Box):
                m = st.mem.get(v.base)
                if m is None or "*" not in m.vals:
                    return P(atom("undef", name, self.frame_id))
                return m.vals["*"]
            return v
        if self.lang == "c":
            if name in self.unit.enums:
                return P(self.unit.enums[name])
            if name in self.unit.funcs:
                return FuncV(self.unit.funcs[name])
            g = self.unit.globals.get(name)
            if g is not None:
                return self.cglobal(name, g, st)
            return ExtV(name)
        # python: closure then module globals
        env = self.closure
        while env is not None:
            if name in env[0]:
                return env[0][name]
            env = env[1]
        return self.global_py(self.mod, name)

    def global_py(self, mod, name):
        if mod is None:
            return ExtV(name)
        r = self.pkg.resolve(mod, name) if self.pkg else None
        return self.wrap_resolved(r, name)

    def wrap_resolved(self, r, name):
        if isinstance(r, Func):
            return FuncV(r)
        if isinstance(r, PyClass):
            return ClassV(r)
        if isinstance(r, tuple):
            if r[0] == "mod":
                return ModV(r[1])
            if r[0] == "ext":
                return self.ext(r[1] + ("." + r[2] if r[2] else ""))
            if r[0] == "val":
                return self.module_value(r[1], r[2], name)
        return self.ext("builtins." + name)

    def ext(self, dotted):
        if dotted in self.consts:
            return self.consts[dotted]
        return ExtV(dotted)

    _modval_busy = None

    def module_value(self, node, mod, name):
        """value of a module-level constant"""
        if self._modval_busy is None:
            self._modval_busy = set()
        k = (mod.name, name)
        if k in self._modval_busy or node.op in ("dict", "comp"):
            if node.op != "dict" or k in self._modval_busy:
                return P(atom("global", mod.name, name))
        self._modval_busy.add(k)
        saved = (self.mod, self.lang, getattr(self, "closure", None), self.effects)
        try:
            self.mod, self.lang, self.closure = mod, "py", None
            self.effects = []
            st = State({}, {}, TRUE)
            try:
                return self.ev(node, st)
            except AnalysisError:
                return P(atom("global", mod.name, name))
        finally:
            self.mod, self.lang, self.closure, self.effects = saved
            self._modval_busy.discard(k)

    def cglobal(self, name, g, st):
        _, ty, init = g.a[:3]
        if init is not None and init.op == "init" and "const" in ty and "[" in ty:
            return Tup([self.ev(x, st) for x in init.a[0]], "carray")
        if init is not None and "const" in ty and init.op == "num":
            return self.ev(init, st)
        a = atom("global", name)
        return Ptr(a) if "[" in ty or "struct" in ty or "*" not in ty and not is_int_type(ty) and "double" not in ty else P(a)

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + n.op, None)
        if m is None:
            return P(self.fresh("opaque", n.op))
        return m(n, st)

    def e_num(self, n, st):
        return P(n.a[0])

    def e_bool(self, n, st):
        return TRUE if n.a[0] else FALSE

    def e_str(self, n, st):
        return n.a[0]

    def e_none(self, n, st):
        return NONE

    def e_name(self, n, st):
        return self.lookup(n.a[0], st, n)

    def e_sizeof(self, n, st):
        return P(atom("sizeof", n.a[0], isint=True))

    def e_cast(self, n, st):
        t, x = n.a
        v = self.ev(x, st)
        if isinstance(v, B):
            return v
        if t and "*" in t:
            if isinstance(v, Ptr) and v.base in self.bytes and not v.off.t:
                u = self.sizeof(t.strip()[:-1])
                if u:
                    self.bytes[v.base] = (self.bytes[v.base][0], u)
            return v
        if is_int_type(t):
            if isinstance(v, (Ptr,)):
                return v
            p = self.num(v)
            return self.trunc(p)
        return v

    def trunc(self, p):
        if p.isint():
            return p
        c = p.const()
        if c is not None:
            import math
            return P(math.trunc(c))
        if alg.FACTS is not None:
            if lt0(p) is FALSE:
                return floor_(p)
            if lt0(-p) is FALSE:
                return -floor_(-p)
        return P(atom("trunc", p, isint=True))

    def e_icast(self, n, st):
        return self.ev(n.a[1], st)

    def e_comma(self, n, st):
        self.ev(n.a[0], st)
        return self.ev(n.a[1], st)

    def e_stmtexpr(self, n, st):
        body = n.a[0]
        if not body:
            return NONE
        last = body[-1]
        s = self.block(body[:-1], st)
        if s is None:
            return NONE
        if s is not st:
            st.env, st.mem, st.pc = s.env, s.mem, s.pc
        if last.op == "expr":
            return self.ev(last.a[0], st)
        self.stmt(last, st)
        return NONE

    def e_un(self, n, st):
        op, x = n.a
        v = self.ev(x, st)
        if self.small:
            r = smallnp.unary(self, st, op, v)
            if r is not None:
                return r
        if op == "-":
            return -self.num(v)
        if op == "+":
            return v
        if op == "!":
            return ~self.truth(v)
        if op == "~":
            if isinstance(v, B):
                return ~v
            return P(atom("invert", self.num(v)))
        return P(self.fresh("un", op))

    def e_bin(self, n, st):
        op, l, r = n.a
        a, b = self.ev(l, st), self.ev(r, st)
        if self.small:
            if op in ("-", "&", "|") and isinstance(a, Tup) and isinstance(b, Tup) and all(const_key(x) for x in a.items + b.items) and "set" in (a.kind, b.kind):
                if op == "-":
                    return Tup([x for x in a.items if x not in b.items], "set")
                return Tup([x for x in a.items if x in b.items] if op == "&" else list(a.items) + [x for x in b.items if x not in a.items], "set")
            r = smallnp.binop(self, st, op, a, b, n)
            if r is not None:
                return r
        r = self.binop(op, a, b, n)
        if self.letmax and isinstance(r, Poly) and len(r.t) > self.letmax:
            r = P(atom("let", r))
        return r

    def binop(self, op, a, b, n=None):
        if self.lang == "c":
            if isinstance(a, Ptr) and op in "+-" and not isinstance(b, Ptr):
                return Ptr(a.base, a.off + self.num(b) if op == "+" else a.off - self.num(b))
            if isinstance(b, Ptr) and op == "+":
                return Ptr(b.base, b.off + self.num(a))
            if n is not None and n.ty and "*" in n.ty and op in "+-" and isinstance(a, Poly) and a.as_atom() is not None:
                return Ptr(a.as_atom(), self.num(b) if op == "+" else -self.num(b))
        else:
            if isinstance(a, str) and isinstance(b, str) and op == "+":
                return a + b
            if isinstance(a, Tup) and isinstance(b, Tup) and op in "&|-" and len(op) == 1:
                r = set_op({"&": "intersection", "|": "union", "-": "difference"}[op], a, b)
                if r is not None:
                    return r
            if isinstance(a, Tup) and isinstance(b, Tup) and op == "+":
                return Tup(a.items + b.items, a.kind)
            if isinstance(a, Tup) and op == "*" and isinstance(b, Poly):
                c = b.const()
                if c is not None and c.denominator == 1 and 0 <= c < 200:
                    return Tup(a.items * int(c), a.kind)
                if len(a.items) == 1:
                    return P(atom("rep", a.items[0], b))
            if op in ("&", "|") and isinstance(a, B) and isinstance(b, B):
                return (a & b) if op == "&" else (a | b)
            if isinstance(a, (str, Tup, DictV, _None)) or isinstance(b, (str, Tup, DictV, _None)):
                return P(atom("binop", op, a, b))
        if op in ("&", "|") and isinstance(a, B) and isinstance(b, B):
            return (a & b) if op == "&" else (a | b)
        x, y = self.num(a), self.num(b)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if self.lang == "c" and n is not None and is_int_type(n.ty):
                return self.idiv(x, y)
            if not y.t:
                self.divzeros.append(getattr(n, "loc", None))
                return P(atom("divzero", x))
            return x / y
        if op == "//":
            return self.idiv(x, y)
        if op == "%":
            return self.mod_(x, y)
        if op == "**":
            return self.pow(x, y)
        if op == "<<":
            c = y.const()
            if c is not None:
                return x * P(2 ** int(c))
            return P(atom("shl", x, y, isint=True))
        if op == ">>":
            return P(atom("shr", x, y, isint=True))
        if op in ("&", "|", "^"):
            if x.const() is not None and y.const() is not None and x.const().denominator == 1 and y.const().denominator == 1:
                p, q = int(x.const()), int(y.const())
                return P({"&": p & q, "|": p | q, "^": p ^ q}[op])
            if hash(x) > hash(y):
                x, y = y, x
            return P(atom("bit" + op, x, y, isint=True))
        return P(atom("binop", op, x, y))

    def idiv(self, x, y):
        c, d = x.const(), y.const()
        if c is not None and d is not None and d != 0:
            import math
            q = c / d
            return P(q.numerator // q.denominator if (q >= 0 or self.lang != "c") else -((-q.numerator) // q.denominator))
        if d == 1:
            return x
        if d is not None or len(y.t) == 1:
            # exact part
            ex, rest = {}, {}
            for m, co in x.t.items():
                q = Poly({m: co}) / y
                if q.isint():
                    ex.update(q.t)
                else:
                    rest[m] = co
            if ex and not rest:
                return Poly(ex)
            if ex and self.lessthan_(Poly(rest), y):
                return Poly(ex)
        if self.lessthan_(x, y):
            return ZERO
        return P(atom("idiv", x, y, isint=True))

    def lessthan_(self, x, y):
        """0 <= x < y known from loop bounds"""
        if not x.t:
            return True
        return self.sign(x) == "+" and self.sign(x - y) == "-"

    def mod_(self, x, y):
        c, d = x.const(), y.const()
        if c is not None and d is not None and d != 0:
            return P(c - d * (c / d).__floor__())
        if len(y.t) == 1:
            rest = {}
            for m, co in x.t.items():
                q = Poly({m: co}) / y
                if not q.isint():
                    rest[m] = co
            x2 = Poly(rest)
            if self.lessthan_(x2, y):
                return x2
            if self.lang == "c" and len(rest) != len(x.t):
                pass
        if alg.FACTS is not None and self.lang == "py" and x.isint() and y.isint() and alg.lt0(-y) is TRUE:
            for k in (0, 1, -1):
                z = x + y * k
                if alg.lt0(z) is FALSE and alg.lt0(z - y) is TRUE:
                    return z
        return P(atom("mod", x, y, isint=x.isint() and y.isint()))

    def sign(self, p):
        return sign_affine(p, self.bounds, self.nonneg)

    def pow(self, x, y):
        c = y.const()
        if c is not None and c.denominator == 1 and 24 < c <= 64 and x.const() is not None:
            return P(x.const() ** int(c))
        if c is not None and (c.denominator in (1, 2)) and abs(c) <= 24:
            if not x.t:
                return ZERO if c > 0 else P(atom("divzero", ONE))
            return x ** c
        if c is not None and c.denominator == 3 and abs(c) < 10:
            a = P(atom("cbrt", x))
            return a ** int(c * 3)
        return P(atom("pow", x, y))

    def e_cmp(self, n, st):
        op, l, r = n.a
        a, b = self.ev(l, st), self.ev(r, st)
        return self.compare(op, a, b, st)

    def compare(self, op, a, b, st=None):
        if self.small and st is not None:
            r = smallnp.compare(self, st, op, a, b)
            if r is not None:
                return r
        if op in ("is", "==") or op in ("isnot", "!="):
            neg = op in ("isnot", "!=")
            if self.small and self.lang == "c":
                # a block or array is not NULL
                for x, y in ((a, b), (b, a)):
                    xa = x.base if isinstance(x, Ptr) and not x.off.t else x.as_atom() if isinstance(x, Poly) else None
                    if xa is not None and xa.kind == "alloc" and isinstance(y, Poly) and y.is_zero():
                        return TRUE if neg else FALSE
            if self.small and op in ("is", "isnot"):
                ks = [x.base if isinstance(x, Ptr) and not x.off.t else x.as_atom() if isinstance(x, Poly) else None for x in (a, b)]
                if all(k is not None and k in self.alens and k.kind == "alloc" for k in ks):
                    return TRUE if (ks[0] == ks[1]) != neg else FALSE       # two arrays made on the way
            r = self.eqv(a, b)
            return ~r if neg else r
        if op in ("in", "notin"):
            r = None
            if isinstance(b, Tup):
                r = FALSE
                for x in b.items:
                    r = r | self.eqv(a, x)
            elif isinstance(b, DictV) and const_key(a) and all(const_key(x) for x in b.items):
                r = TRUE if any(type(x) is type(a) and x == a for x in b.items) else FALSE
            elif isinstance(a, str) and isinstance(b, str):
                r = TRUE if a in b else FALSE
            else:
                r = var_b(atom("in", a, b))
            return ~r if op == "notin" else r
        if isinstance(a, (str, Tup)) or isinstance(b, (str, Tup)):
            return var_b(atom("cmp", op, a, b))
        x, y = self.num(a), self.num(b)
        d = x - y
        if op == "<":
            r = lt0(d)
        elif op == "<=":
            r = le0(d)
        elif op == ">":
            r = lt0(-d)
        else:
            r = le0(-d)
        return self.decide(r)

    def decide(self, r):
        if r.var is None or (not self.bounds and not self.nonneg):
            return r
        ver = (self.bounds.version, self.nonneg.version, len(self.bounds), len(self.nonneg))
        if self.dec_memo[0] != ver:
            self.dec_memo = (ver, {}, {})
        memo, done = self.dec_memo[1:]
        x = done.get(r)
        if x is not None:
            return x

        def f(a):
            if a.kind in ("lt", "le", "eq"):
                p = a.args[0]
                s = self.sign(p)
                if a.kind == "lt":
                    if s == "-":
                        return TRUE
                    if s == "+":
                        return FALSE
                elif a.kind == "le":
                    if s == "-":
                        return TRUE
                elif a.kind == "eq":
                    if s == "-":
                        return FALSE
                    s2 = self.sign(p - 1) if p.isint() else None
                    if s2 == "+":
                        return FALSE
            return None
        x = done[r] = subst(r, f, memo)
        return x

    def eqv(self, a, b):
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return TRUE if a == b else FALSE
        if isinstance(a, EnumV):
            a = P(a.value)
        if isinstance(b, EnumV):
            b = P(b.value)
        if isinstance(a, Ptr) and not a.off.t:
            a = P(a.base)
        if isinstance(b, Ptr) and not b.off.t:
            b = P(b.base)
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
            if isinstance(a, B) and isinstance(b, B):
                return ite_b(a, b, ~b)
            d = self.num(a) - self.num(b)
            return self.decide(eq0(d))
        if a is NONE and b is NONE:
            return TRUE
        consts = (str, Tup, _None, FuncV, ClassV, ExtV, DictV)
        if isinstance(a, consts) and isinstance(b, consts):
            if isinstance(a, (str, _None)) and isinstance(b, (str, _None)):
                return TRUE if a == b else FALSE
            if type(a) is not type(b):
                return FALSE
            if isinstance(a, (ClassV, FuncV, ExtV)):
                return TRUE if a == b else FALSE
            if isinstance(a, Tup) and len(a.items) == len(b.items):
                r = TRUE
                for x, y in zip(a.items, b.items):
                    r = r & self.eqv(x, y)
                return r
            return TRUE if a == b else FALSE
        if (a is NONE or b is NONE):
            o = b if a is NONE else a
            if isinstance(o, (B, SliceV)):
                return FALSE
            if isinstance(o, Poly):
                at = o.as_atom()
                if at is not None and at.kind in ("newobj", "map", "tuple", "alloc", "list"):
                    return FALSE
                if at is not None and self.isobj is not None and self.isobj(at):
                    return FALSE
                if at is not None and at.kind == "ite" and len(at.args) == 3 and not isinstance(at.args[1], Poly):
                    return ite_b(at.args[0], self.eqv(at.args[1], NONE), self.eqv(at.args[2], NONE))
                if at is not None and at.kind == "ite" and not isinstance(at.args[2], Poly):
                    return ite_b(at.args[0], self.eqv(at.args[1], NONE), self.eqv(at.args[2], NONE))
                if o.const() is not None or at is None:
                    return FALSE        # a number or the result of arithmetic
            return var_b(atom("isnone", o))
        if isinstance(a, str) or (isinstance(b, Poly) and not isinstance(a, Poly)):
            a, b = b, a
        if isinstance(a, Poly):
            at = a.as_atom()
            if at is not None and at.kind == "ite" and (not isinstance(at.args[1], Poly) or not isinstance(at.args[2], Poly)):
                return ite_b(at.args[0], self.eqv(at.args[1], b), self.eqv(at.args[2], b))
        return var_b(atom("same", a, b))

    def e_and(self, n, st):
        r = TRUE
        vals = n.a[0]
        # python value semantics: only booleans matter here except trailing non-boolean
        out = None
        for i, x in enumerate(vals):
            v = self.ev(x, st)
            c = self.truth(v)
            r = r & c
            if r is FALSE:
                return FALSE
            out = v
        return r

    def e_or(self, n, st):
        vals = n.a[0]
        r = FALSE
        vs = []
        for x in vals:
            v = self.ev(x, st)
            vs.append(v)
            r = r | self.truth(v)
            if r is TRUE:
                break
        if self.lang == "py" and any(not isinstance(v, B) for v in vs):
            # a or b  value
            res = vs[-1]
            for v in reversed(vs[:-1]):
                res = self.merge_val(self.truth(v), v, res) if self.truth(v) not in (TRUE, FALSE) else (v if self.truth(v) is TRUE else res)
            return res
        return r

    def e_cond(self, n, st):
        c = self.truth(self.ev(n.a[0], st))
        c = restrict_care(c, st.pc) if st.pc is not TRUE and c.var is not None else c
        if c is TRUE:
            return self.ev(n.a[1], st)
        if c is FALSE:
            return self.ev(n.a[2], st)
        s1 = st.fork(st.pc & c)
        a = self.ev(n.a[1], s1)
        s2 = st.fork(st.pc & ~c)
        b = self.ev(n.a[2], s2)
        m = self.merge([s1, s2])
        if m is not None:
            st.env, st.mem = m.env, m.mem
        # index wrap  i>=0 ? i : i+n   (also python negative index)
        if isinstance(a, Poly) and isinstance(b, Poly):
            w = self.as_wrap(c, a, b)
            if w is not None:
                return w
        return self.merge_val(c, a, b)

    def as_wrap(self, c, a, b):
        if a.isint() or True:
            d = b - a
            if d.t and c == ~lt0(a):
                return P(atom("wrap", a, d, isint=True))
            if (-d).t and c == lt0(b) and a - b:
                # i<0 ? i+n : i
                return P(atom("wrap", b, a - b, isint=True))
        return None

    def e_tuple(self, n, st):
        out = []
        for x in n.a[0]:
            if x.op == "star":
                v = self.ev(x.a[0], st)
                if isinstance(v, Tup):
                    out.extend(v.items)
                else:
                    out.append(P(atom("star", v)))
            else:
                out.append(self.ev(x, st))
        return Tup(out, "tuple")

    def e_list(self, n, st):
        t = self.e_tuple(n, st)
        return Tup(t.items, "list")

    e_set_lit = e_list

    def e_init(self, n, st):
        return Tup([self.ev(x, st) for x in n.a[0]], "carray")

    def e_dict(self, n, st):
        items = []
        for k, v in zip(*n.a):
            if k is None:
                return P(self.fresh("dict"))
            kv = self.ev(k, st)
            vv = self.ev(v, st)
            items.append((kv, vv))
        return DictV(items)

    def e_slice(self, n, st):
        return SliceV(*[self.ev(x, st) if x is not None else NONE for x in n.a])

    def e_star(self, n, st):
        return P(atom("star", self.ev(n.a[0], st)))

    def e_fstr(self, n, st):
        parts = []
        for x, f in zip(*n.a):
            v = self.ev(x, st)
            parts.append((v, f) if f else v)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return P(atom("fstr", tuple(parts)))

    def e_lambda(self, n, st):
        return FuncV(n.a[0], (st.env, self.closure))

    def e_yield(self, n, st):
        if n.a[0] is not None:
            self.ev(n.a[0], st)
        return NONE

    def e_opaque(self, n, st):
        for x in n.a[1:]:
            if isinstance(x, N):
                self.ev(x, st)
        return P(self.fresh("opaque", str(n.a[0])))

    def e_assign(self, n, st):
        v = self.ev(n.a[1], st)
        self.assign(n.a[0], v, st, n.loc)
        return v

    def e_aug(self, n, st):
        op, t, x = n.a
        old = self.ev(t, st)
        r = self.ev(x, st)
        v = self.binop(op, old, r, n)
        self.assign(t, v, st, n.loc, op=op, rhs=r)
        return v

    def e_incdec(self, n, st):
        op, t, post = n.a
        old = self.ev(t, st)
        v = self.binop(op, old, ONE, n)
        self.assign(t, v, st, n.loc, op=op, rhs=ONE)
        return old if post else v

    def e_addr(self, n, st):
        x = n.a[0]
        if x.op == "name":
            v = st.env.get(x.a[0])
            if isinstance(v, Box):
                return Ptr(v.base)
            if isinstance(v, Ptr) and v.base.kind == "local":
                return v
            if v is None:
                v = self.lookup(x.a[0], st)
                if isinstance(v, FuncV) or isinstance(v, Ptr):
                    return v
                return P(atom("addrof", x.a[0]))
            return v
        if x.op == "sub":
            b = self.ev(x.a[0], st)
            i = self.num(self.ev(x.a[1], st))
            if isinstance(b, Tup):
                return P(atom("addrof", b, i))
            base, off = self.base_of(b)
            return Ptr(base, off + i)
        if x.op == "deref":
            return self.ev(x.a[0], st)
        if x.op == "attr":
            b = self.ev(x.a[0], st)
            base, off = self.base_of(b)
            return Ptr(atom("fieldaddr", base, x.a[1]))
        return P(self.fresh("addr"))

    def e_deref(self, n, st):
        v = self.ev(n.a[0], st)
        if isinstance(v, Ptr) and v.base.kind == "cell":
            m = st.mem.get(v.base)
            if m is None or "*" not in m.vals:
                return P(atom("undef", str(v.base)))
            return m.vals["*"]
        if isinstance(v, FuncV):
            return v
        return self.typed(self.load(st, v, (ZERO,), is_int_type(n.ty)), n)

    def typed(self, v, n):
        if self.lang == "c" and n.ty and n.ty.rstrip().endswith("*") and isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                return Ptr(a)
        return v

    def e_sub(self, n, st):
        b = self.ev(n.a[0], st)
        if self.lang == "c":
            i = self.num(self.ev(n.a[1], st))
            if isinstance(b, Tup):
                c = i.const()
                if c is not None:
                    if 0 <= c < len(b.items):
                        return b.items[int(c)]
                    return ZERO
                return P(atom("table", b, i, isint=True))
            if n.ty and "[" in n.ty:      # array of arrays
                base, off = self.base_of(b)
                return Ptr(atom("row", base, i + off))
            return self.typed(self.load(st, b, (i,), is_int_type(n.ty)), n)
        k = self.ev(n.a[1], st)
        return self.getitem(b, k, st, n)

    def key(self, k):
        if isinstance(k, Tup):
            return tuple(self.kel(x) for x in k.items)
        return (self.kel(k),)

    def kel(self, x):
        if isinstance(x, (Poly, SliceV, str)):
            return x
        if isinstance(x, (B, EnumV)):
            return self.num(x)
        return x

    def getitem(self, b, k, st, n):
        if self.small and isinstance(b, Poly):
            r = smallnp.getitem(self, st, b, k, getattr(n, "loc", None))
            if r is not None:
                return r
        if isinstance(k, EnumV):
            if isinstance(b, DictV):
                for kk, v in b.items.items():
                    if kk == k:
                        return v
            k = P(k.value)
        if isinstance(b, Tup):
            if isinstance(k, Poly):
                c = k.const()
                if c is not None and c.denominator == 1:
                    i = int(c)
                    if -len(b.items) <= i < len(b.items):
                        return b.items[i]
                return P(atom("table", b, k))
            if isinstance(k, SliceV):
                a = 0 if k.a is NONE else (k.a.const() if isinstance(k.a, Poly) else None)
                e = len(b.items) if k.b is NONE else (k.b.const() if isinstance(k.b, Poly) else None)
                if a is not None and e is not None and k.c is NONE:
                    return Tup(b.items[int(a):int(e)], b.kind)
        if isinstance(b, DictV):
            for kk, v in b.items.items():
                try:
                    if kk == k:
                        return v
                except Exception:
                    pass
            return P(atom("load", atom("val", b), self.key(k)))
        if isinstance(b, ExtV) and b.name in ("numpy.s_", "numpy.index_exp"):
            return k
        if isinstance(b, ClassV) and isinstance(k, str) and any("Enum" in x for x in b.cls.bases):
            ev = b.cls.enum_values()
            if ev is not None and k in ev:
                return EnumV(b.cls, k, ev[k])
        if isinstance(b, (ExtV, ClassV)):
            return b
        if isinstance(b, str):
            return P(atom("load", atom("val", b), self.key(k)))
        if isinstance(b, Poly):
            a = b.as_atom()
            if a is not None and a.kind == "map" and isinstance(k, Poly) and a not in st.mem:
                kv, elt = a.args[0], a.args[1]
                return self.subst_val(elt, {kv: k})
            if a is not None and a.kind == "rep" and isinstance(k, Poly) and a not in st.mem:
                return a.args[0]
        t = self.type_of(b) if self.lang == "py" and isinstance(b, (Poly, Ptr)) else None
        if isinstance(t, PyClass) and not isinstance(k, SliceV):
            m = self.pkg.method(t, "__getitem__")
            if m is not None and len(self.stack) <= self.maxdepth:
                return self.call_func(FuncV(m, None, b), [b, k], [], st, n)
        key = self.key(k)
        return self.load(st, b, key)

    # ------------------------------------------------------------ attributes
    def e_attr(self, n, st):
        b = self.ev(n.a[0], st)
        return self.getattr(b, n.a[1], st, n)

    def type_of(self, v):
        if isinstance(v, Ptr):
            v = P(v.base)
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                t = self.types.get(a)
                if t is not None:
                    return t
                if a.kind == "attr":
                    bt = self.types.get(a.args[0]) or self.type_of(P(a.args[0]))
                    if isinstance(bt, PyClass):
                        t = self.attr_type(bt, a.args[1])
                        if t is not None:
                            self.types[a] = t
                            return t
                if a.kind == "load":
                    bt = self.types.get(a.args[0]) or self.type_of(P(a.args[0]))
                    if isinstance(bt, tuple) and bt[0] == "list":
                        return bt[1]
        return None

    def attr_type(self, cls, name):
        if self.attr_hook:
            t = self.attr_hook(cls, name)
            if t is not None:
                return t
        for k in self.pkg.mro(cls):
            ann = k.annots.get(name)
            if ann:
                t = self.ann_type(k.module, ann)
                if t is not None:
                    return t
            for m in k.methods.values():
                for nd in walk(m.body):
                    if nd.op == "set":
                        for t in nd.a[0]:
                            if t.op == "attr" and t.a[1] == name and t.a[0].op == "name" and t.a[0].a[0] == "self":
                                v = nd.a[1]
                                if v.op == "call" and v.a[0].op == "name":
                                    r = self.pkg.resolve(k.module, v.a[0].a[0])
                                    if isinstance(r, PyClass):
                                        return r
                                if v.op == "name":
                                    for p in m.params:
                                        if p[0] == v.a[0] and p[1]:
                                            t2 = self.ann_type(k.module, p[1])
                                            if t2 is not None:
                                                return t2
        return None

    def ann_type(self, mod, ann):
        ann = ann.strip().strip('"').strip("'")
        ann = re.sub(r"\s*\|\s*None|None\s*\|\s*", "", ann)
        m = re.match(r"^(?:typing\.)?(Optional)\[(.*)\]$", ann)
        if m:
            return self.ann_type(mod, m.group(2))
        m = re.match(r"^(?:typing\.)?(list|List|Sequence|Iterable|Tuple|tuple)\[(.*)\]$", ann)
        if m:
            t = self.ann_type(mod, m.group(2).split(",")[0])
            return ("list", t) if t is not None else None
        m = re.match(r"^[\w.]+$", ann)
        if m:
            r = self.pkg.resolve(mod, ann.split(".")[-1])
            if isinstance(r, PyClass):
                return r
            c = self.pkg.cls(ann.split(".")[-1])
            return c
        if "|" in ann:
            for part in ann.split("|"):
                t = self.ann_type(mod, part.strip())
                if t is not None:
                    return t
        return None

    def getattr(self, b, name, st, n=None):
        if isinstance(b, ModV):
            r = self.pkg.resolve(b.mod, name)
            return self.wrap_resolved(r, name) if r is not None else self.ext(b.mod.name + "." + name)
        if isinstance(b, ExtV):
            return self.ext(b.name + "." + name)
        if self.small:
            if self.lang == "c" and name == "ob_item":
                v = b.base.args[0] if isinstance(b, Ptr) and b.base.kind == "val" and not b.off.t else b
                if isinstance(v, Tup):
                    return v
            if self.lang == "c" and isinstance(b, Ptr) and b.base.kind == "global" and not b.off.t and n is not None and is_int_type(n.ty or ""):
                m = st.mem.get(b.base)
                if m is None or name not in m.vals and m.gen == 0:
                    return ZERO         # a static object without initialiser
            if isinstance(b, SliceV) and name in ("start", "stop", "step"):
                return {"start": b.a, "stop": b.b, "step": b.c}[name]
            r = smallnp.attr(self, b, name)
            if r is not None:
                return r
        if isinstance(b, Tup) and b.kind.startswith("nt:"):
            fs = b.kind[3:].split(",")
            if name in fs:
                return b.items[fs.index(name)]
        if isinstance(b, EnumV):
            if name == "value":
                return P(b.value)
            if name == "name":
                return b.name
            b = P(b.value)
        if isinstance(b, ClassV):
            for k in self.pkg.mro(b.cls):
                if name in k.methods:
                    return FuncV(k.methods[name], None, None if "staticmethod" in k.methods[name].decorators or "classmethod" not in k.methods[name].decorators else b)
                if name in k.attrs:
                    if any("Enum" in x for x in k.bases):
                        ev = k.enum_values()
                        if ev is not None and name in ev:
                            if any("IntEnum" in x or "IntFlag" in x for x in k.bases):
                                return EnumV(k, name, ev[name])
                            return EnumV(k, name, ev[name])
                        return P(atom("enum", k.name, name))
                    return self.module_value(k.attrs[name], k.module, k.name + "." + name)
            return P(atom("attr", atom("val", b), name))
        if isinstance(b, FuncV):
            return P(atom("attr", atom("val", b), name))
        if isinstance(b, str) or isinstance(b, (Tup, DictV)):
            return MethV(b, name)
        base, off = self.base_of(b)
        if self.lang == "c":
            ty = n.ty if n is not None else None
            if off.t:
                base = atom("ptr", base, off)
            if ty and "[" in ty:
                return Ptr(atom("fieldaddr", base, name))
            m = st.mem.get(base)
            v = self.load_from(base, name, m, is_int_type(ty))
            return self.typed(v, n) if n is not None else v
        m = st.mem.get(base)
        if m is not None and name in m.vals:
            return m.vals[name]
        if name == "__dict__" and m is not None and isinstance(base, Atom) and base.kind == "newobj":
            return DictV({k: x for k, x in m.vals.items() if isinstance(k, str)})
        t = self.type_of(b)
        if isinstance(t, PyClass):
            meth = self.pkg.method(t, name)
            if meth is not None:
                prop = any(name in k.props for k in self.pkg.mro(t))
                if prop:
                    if meth.name in self.noinline or len(self.stack) > self.maxdepth:
                        return self.load_from(base, name, m)
                    return self.call_func(FuncV(meth, None, b), [b], [], st, n)
                if "staticmethod" in meth.decorators:
                    return FuncV(meth)
                return FuncV(meth, None, b)
            for k in self.pkg.mro(t):
                if name in k.attrs and not (m is not None and name in m.vals) and (
                        not self.instance_assigned(t, name) or m is not None and isinstance(base, Atom) and base.kind == "newobj" and name not in m.vals and "@partial" not in m.vals):
                    return self.module_value(k.attrs[name], k.module, k.name + "." + name)
        return self.load_from(base, name, m)

    def instance_assigned(self, cls, name):
        for k in self.pkg.mro(cls):
            for mth in k.methods.values():
                for nd in walk(mth.body):
                    if nd.op in ("set", "augset"):
                        ts = nd.a[0] if nd.op == "set" else [nd.a[1]]
                        for t in ts:
                            for q in ([t] if t.op == "attr" else (t.a[0] if t.op in ("tuple", "list") else [])):
                                if q.op == "attr" and q.a[1] == name:
                                    return True
        return False

    # ----------------------------------------------------------------- comps
    def e_comp(self, n, st):
        kind, elt, gens = n.a
        # constant expansion when every iterator is a known tuple / constant range
        r = self.comp_const(kind, elt, gens, st)
        if r is not None:
            return r
        saved = dict(st.env)
        (tgt, it, ifs) = gens[0]
        itv = self.ev(it, st)
        k = atom("lv", next(self.loopid), isint=True)
        el, n_el = self.iter_elem(itv, P(k), st)
        savedpc = st.pc
        eff = self.effects
        self.effects = []
        lp = Loop(k, ZERO, n_el, ONE, st.pc, n.loc, ())
        lp.iter = itv
        self.bounds[k] = (ZERO, n_el - 1)
        st.pc = TRUE
        self.assign(tgt, el, st, n.loc)
        c = TRUE
        for i in ifs:
            c = c & self.truth(self.ev(i, st))
        if len(gens) > 1:
            inner = N("comp", (kind, elt, gens[1:]), n.loc)
            v = self.ev(inner, st)
            v = P(atom("flatten", v)) if True else v
        else:
            st.pc = c
            v = self.ev(elt, st)
        st.pc = savedpc
        lp.body = self.effects
        self.effects = eff
        if lp.body:
            self.effects.append(lp)
        st.env = saved
        if kind == "DictComp":
            return P(atom("dictmap", k, v, n_el, c))
        if c is TRUE:
            return P(atom("map", k, v, n_el))
        return P(atom("filtermap", k, v, n_el, c))

    def comp_const(self, kind, elt, gens, st):
        out = []
        saved = dict(st.env)

        def rec(i):
            if i == len(gens):
                out.append(self.ev(elt, st))
                return True
            tgt, it, ifs = gens[i]
            items = self.const_items(self.ev(it, st), st)
            if items is None:
                return False
            for x in items:
                self.assign(tgt, x, st, elt.loc)
                c = TRUE
                for f in ifs:
                    c = c & self.truth(self.ev(f, st))
                if c is FALSE:
                    continue
                if c is not TRUE:
                    return False
                if not rec(i + 1):
                    return False
            return True
        eff = len(self.effects)
        ok = rec(0)
        st.env = saved
        if not ok:
            del self.effects[eff:]
            return None
        if kind == "DictComp":
            return DictV([(t.items[0], t.items[1]) for t in out])
        return Tup(out, "list" if kind == "ListComp" else "tuple")

    def small_array(self, v, st):
        """elements of an allocated array of small known length"""
        return smallnp.items(self, st, v) if self.small else None

    def const_items(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        r = self.small_array(v, st)
        if r is not None:
            return r
        if isinstance(v, DictV):
            return list(v.items)
        if isinstance(v, ClassV) and any("Enum" in b for k in self.pkg.mro(v.cls) for b in k.bases):
            return [self.getattr(v, nm, st) for nm in v.cls.attrs]
        if isinstance(v, Poly):
            t = self.type_of(v)
            if isinstance(t, PyClass):
                m = self.pkg.method(t, "__iter__")
                if m is not None:
                    eff, self.effects = self.effects, []
                    r = self.call_func(FuncV(m, None, v), [v], [], st, None)
                    self.effects = eff
                    if isinstance(r, Tup):
                        return list(r.items)
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None and a.kind == "range":
                lo, hi, s = a.args
                if self.unroll_sym and s == ONE and lo.const() is None and (hi - lo).const() is not None:
                    # a known number of iterations from a symbolic start
                    return [lo + i for i in range(int((hi - lo).const()))]
                if all(x.const() is not None for x in (lo, hi, s)):
                    rg = range(int(lo.const()), int(hi.const()), int(s.const()))
                    if len(rg) <= MAXUNROLL:
                        return [P(i) for i in rg]
            if a is not None and a.kind == "enumerate":
                items = self.const_items(a.args[0], st)
                if items is not None:
                    return [Tup([P(i) + a.args[1], x]) for i, x in enumerate(items)]
            if a is not None and a.kind == "zip":
                ls = [self.const_items(x, st) for x in a.args]
                if all(x is not None for x in ls):
                    return [Tup(t) for t in zip(*ls)]
            if a is not None and a.kind == "dictitems" and isinstance(a.args[0], DictV):
                return [Tup([k, x]) for k, x in a.args[0].items.items()]
        return None

    def iter_elem(self, v, k, st):
        """(element at index k, number of elements) of an iterable value"""
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                if a.kind == "range":
                    lo, hi, s = a.args
                    if s == ONE:
                        return lo + k, hi - lo
                    if s == P(-1):
                        return lo - k, lo - hi
                    if all(x.const() is not None for x in (lo, hi, s)) and s.const() != 0:
                        return lo + s * k, P(len(range(int(lo.const()), int(hi.const()), int(s.const()))))
                    return lo + s * k, P(atom("ceildiv", hi - lo, s, isint=True))
                if a.kind == "enumerate":
                    e, n = self.iter_elem(a.args[0], k, st)
                    return Tup([k + a.args[1], e]), n
                if a.kind == "zip":
                    es = [self.iter_elem(x, k, st) for x in a.args]
                    return Tup([e for e, _ in es]), es[0][1]
                if a.kind == "reversed":
                    e, n = self.iter_elem(a.args[0], k, st)
                    e2, _ = self.iter_elem(a.args[0], n - 1 - k, st)
                    return e2, n
                if a.kind == "map" and a not in st.mem:
                    return self.subst_val(a.args[1], {a.args[0]: k}), a.args[2]
                if a.kind == "filtermap":
                    return P(atom("load", a, (k,))), P(atom("len", a, isint=True))
                if a.kind == "dictitems":
                    return Tup([P(atom("dkey", a.args[0], k)), P(atom("dval", a.args[0], k))]), P(atom("len", a, isint=True))
        if isinstance(v, Tup):
            return P(atom("table", v, k)), P(len(v.items))
        e = self.getitem(v, k, st, None)
        t = self.type_of(v)
        if isinstance(t, PyClass):
            # iterating a repo container: __getitem__/__iter__ over a typed list attribute
            it = self.pkg.method(t, "__iter__") or self.pkg.method(t, "__getitem__")
            et = self.elem_type(t)
            if et is not None and isinstance(e, Poly) and e.as_atom() is not None:
                self.types[e.as_atom()] = et
        return e, self.length(v)

    def elem_type(self, t):
        for nm in ("__getitem__", "__iter__"):
            m = self.pkg.method(t, nm)
            if m is not None and m.node is not None and m.node.returns is not None:
                import ast as _ast
                r = self.ann_type(m.module, _ast.unparse(m.node.returns))
                if isinstance(r, tuple):
                    r = r[1]
                if r is not None:
                    return r
        return None

    def length(self, v):
        if isinstance(v, Tup):
            return P(len(v.items))
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                if a.kind == "map":
                    return a.args[2]
                if a.kind == "range" and a.args[2] == ONE:
                    return a.args[1] - a.args[0]
                if a.kind == "rep":
                    return a.args[1]
                if self.small and a.kind == "alloc" and a in self.alens:
                    return self.alens[a]
                return P(atom("len", a, isint=True))
        if isinstance(v, Ptr):
            return P(atom("len", v.base, isint=True))
        return P(atom("len", v, isint=True))

    # ------------------------------------------------------------ assignment
    def mutate(self, node, old, new, st, loc):
        """a list changes in place: the place it was reached by and every other reference to the same list see it"""
        done = False
        if node is not None and node.op in ("name", "attr", "sub"):
            if node.op != "name" or isinstance(st.env.get(node.a[0]), Tup):
                self.assign(node, new, st, loc)
                done = True
        if old.kind not in ("list", "set"):
            return done
        return self.alias(old, new, st, loc) or done

    def alias(self, old, new, st, loc):
        def rep(v, depth=0):
            if v is old:
                return new
            if isinstance(v, Tup) and depth < 3 and v.items:
                it = None
                for i, x in enumerate(v.items):
                    if isinstance(x, Tup):
                        y = rep(x, depth + 1)
                        if y is not x:
                            it = it or list(v.items)
                            it[i] = y
                return Tup(it, v.kind) if it is not None else v
            if isinstance(v, DictV) and depth < 3:
                ch = {k: rep(x, depth + 1) for k, x in v.items.items() if isinstance(x, (Tup, DictV))}
                ch = {k: x for k, x in ch.items() if x is not v.items[k]}
                if ch:
                    d = DictV(v.items.items())
                    d.items.update(ch)
                    return d
            return v
        hit = False
        for k, v in st.env.items():
            if isinstance(v, (Tup, DictV)):
                y = rep(v)
                if y is not v:
                    st.env[k] = y
                    hit = True
        for base, m in list(st.mem.items()):
            cp = None
            for k, v in m.vals.items():
                if isinstance(v, (Tup, DictV)):
                    y = rep(v)
                    if y is not v:
                        cp = cp or m.copy()
                        cp.vals[k] = y
                        hit = True
                        if isinstance(k, str) and base.kind not in ("cell", "listcell"):
                            self.emit(Store(base, k, y, st.pc, loc, ()))
            if cp is not None:
                st.mem[base] = cp
        return hit

    def assign(self, t, v, st, loc, op=None, rhs=None):
        o = t.op
        if self.cut is not None and op is None:
            v = self.nm(v)
        if o == "name":
            name = t.a[0]
            cur = st.env.get(name)
            if isinstance(cur, Box):
                m = st.mem.get(cur.base)
                m = m.copy() if m else MemObj()
                m.vals["*"] = v
                st.mem[cur.base] = m
                return
            if self.lang == "c" and name not in st.env and name in self.unit.globals:
                self.emit(Store(atom("global", name), "*", v, st.pc, loc, ()))
                return
            st.env[name] = v
            return
        if o in ("tuple", "list"):
            items = t.a[0]
            star = [i for i, x in enumerate(items) if x.op == "star"]
            if self.small and isinstance(v, Poly) and v.as_atom() is not None and v.as_atom().kind in ("zip", "map"):
                xs = self.const_items(v, st)
                if xs is not None:
                    v = Tup(xs)
            if isinstance(v, Tup) and not star and len(v.items) == len(items):
                for x, y in zip(items, v.items):
                    self.assign(x, y, st, loc)
                return
            for i, x in enumerate(items):
                if x.op == "star":
                    self.assign(x.a[0], P(self.fresh("rest")), st, loc)
                    continue
                vv = self.getitem(v, P(i), st, None) if not isinstance(v, Tup) else P(atom("table", v, P(i)))
                self.assign(x, vv, st, loc)
            return
        if o == "sub":
            b = self.ev(t.a[0], st)
            if self.lang == "c":
                i = self.num(self.ev(t.a[1], st))
                if isinstance(b, Tup):
                    # local C array held as tuple: replace element
                    c = i.const()
                    if c is not None and t.a[0].op == "name":
                        items = list(b.items)
                        items[int(c)] = v
                        self.assign(t.a[0], Tup(items, b.kind), st, loc)
                        return
                    raise AnalysisError("store into constant table %s" % (loc,))
                self.store(st, b, (i,), v, loc, op, rhs)
                return
            k = self.ev(t.a[1], st)
            if isinstance(b, DictV) and const_key(k) and t.a[0].op in ("name", "attr", "sub"):
                d = DictV(b.items.items())
                d.items[k] = v
                self.assign(t.a[0], d, st, loc)
                return
            if isinstance(b, Tup) and isinstance(k, Poly) and k.const() is not None:
                items = list(b.items)
                i = int(k.const())
                if -len(items) <= i < len(items):
                    items[i] = v
                    if self.mutate(t.a[0], b, Tup(items, b.kind), st, loc):
                        return
            if self.small:
                if smallnp.setitem(self, st, b, k, v, loc):
                    return
                if isinstance(b, Tup) or smallnp.arr(self, b):
                    raise AnalysisError("store at undecided element %s at %s" % (k, loc))
            self.store(st, b, self.key(k), v, loc, op, rhs)
            return
        if o == "attr":
            b = self.ev(t.a[0], st)
            base, off = self.base_of(b)
            if self.lang == "c" and off.t:
                base = atom("ptr", base, off)
            if self.lang == "py":
                tt = self.type_of(b)
                if isinstance(tt, PyClass):
                    for kcls in self.pkg.mro(tt):
                        if t.a[1] in kcls.setters:
                            self.call_func(FuncV(kcls.setters[t.a[1]], None, b), [b, v], [], st, t)
                            return
            m = st.mem.get(base)
            m = m.copy() if m else MemObj()
            m.vals[t.a[1]] = v
            st.mem[base] = m
            self.emit(Store(base, t.a[1], v, st.pc, loc, (), op=op))
            if rhs is not None:
                self.effects[-1].rhs = rhs
            return
        if o == "deref":
            p = self.ev(t.a[0], st)
            if isinstance(p, Ptr) and p.base.kind == "cell":
                m = st.mem.get(p.base)
                m = m.copy() if m else MemObj()
                m.vals["*"] = v
                st.mem[p.base] = m
                return
            self.store(st, p, (ZERO,), v, loc, op, rhs)
            return
        if o in ("cast", "icast"):
            return self.assign(t.a[1], v, st, loc, op, rhs)
        if o == "star":
            return self.assign(t.a[0], v, st, loc)
        raise AnalysisError("assignment to %s at %s" % (o, loc))

    # ----------------------------------------------------------------- calls
    def e_call(self, n, st):
        fnode, args, kws = n.a
        # super().m(...)
        if self.lang == "py" and fnode.op == "attr" and fnode.a[0].op == "call" and fnode.a[0].a[0].op == "name" and fnode.a[0].a[0].a[0] == "super":
            cur = self.cur_func
            sv = st.env.get(cur.params[0][0]) if cur and cur.params else None
            if cur is not None and cur.cls and sv is not None:
                k = cur.module.classes.get(cur.cls) if cur.module else None
                if k is not None:
                    t = self.type_of(sv) if not isinstance(sv, (Tup, DictV, str)) else None
                    line = self.pkg.mro(t) if isinstance(t, PyClass) else []
                    line = line[line.index(k) + 1:] if k in line else self.pkg.mro(k)[1:]
                    for b in line:
                        if fnode.a[1] in b.methods:
                            av = [self.ev(x, st) for x in args]
                            kv = [(kk, self.ev(x, st)) for kk, x in kws]
                            return self.call_func(FuncV(b.methods[fnode.a[1]], None, sv), [sv] + av, kv, st, n)
        if self.lang == "py" and fnode.op == "attr":
            recv = self.ev(fnode.a[0], st)
            f = self.getattr(recv, fnode.a[1], st, fnode)
            av, kv = self.args(args, kws, st)
            return self.call_value(f, av, kv, st, n, recv=recv, mname=fnode.a[1], recv_node=fnode.a[0])
        f = self.ev(fnode, st)
        av, kv = self.args(args, kws, st)
        return self.call_value(f, av, kv, st, n)

    def args(self, args, kws, st):
        av = []
        for x in args:
            if x.op == "star":
                v = self.ev(x.a[0], st)
                if isinstance(v, Tup):
                    av.extend(v.items)
                else:
                    av.append(P(atom("star", v)))
            else:
                av.append(self.ev(x, st))
        kv = []
        for k, x in kws:
            v = self.ev(x, st)
            if k is None:
                if isinstance(v, DictV):
                    kv.extend(v.items.items())
                else:
                    kv.append(("**", v))
            else:
                kv.append((k, v))
        return av, kv

    def call_value(self, f, av, kv, st, n, recv=None, mname=None, recv_node=None):
        if isinstance(f, FuncV):
            if f.self_ is not None:
                av = [f.self_] + av
            return self.call_func(f, av, kv, st, n)
        if isinstance(f, ClassV):
            return self.construct(f, av, kv, st, n)
        if isinstance(f, Tup) and f.kind == "ntclass":
            d = dict(zip(f.items, av))
            d.update(kv)
            if set(d) == set(f.items) and len(av) + len(kv) == len(f.items):
                return Tup([d[k] for k in f.items], "nt:" + ",".join(f.items))
            raise AnalysisError("fields of a named tuple do not match at %s" % (getattr(n, "loc", None),))
        if isinstance(f, ExtV):
            return self.call_ext(f.name, av, kv, st, n)
        if isinstance(f, Poly) and f.as_atom() is not None and f.as_atom().kind == "ite":
            a = f.as_atom()
            c, x, y = a.args
            if isinstance(x, (FuncV, ClassV, ExtV)) or isinstance(y, (FuncV, ClassV, ExtV)):
                s1 = st.fork(st.pc & c)
                s2 = st.fork(st.pc & ~c)
                r1 = self.call_value(x, list(av), list(kv), s1, n) if s1.pc is not FALSE else None
                r2 = self.call_value(y, list(av), list(kv), s2, n) if s2.pc is not FALSE else None
                m = self.merge([s1, s2])
                if m:
                    st.env, st.mem = m.env, m.mem
                return self.merge_val(c, r1, r2)
        if isinstance(f, Poly) and mname is not None and self.lang == "py" and f.as_atom() is not None and f.as_atom().kind == "newobj":
            # an object kept in an attribute and called
            t = self.type_of(f)
            meth = self.pkg.method(t, "__call__") if isinstance(t, PyClass) else None
            if meth is not None:
                return self.call_func(FuncV(meth, None, f), [f] + list(av), kv, st, n)
        if isinstance(f, MethV):
            recv, mname = f.recv, f.name
        if mname is not None:
            return self.call_method(recv, mname, av, kv, st, n, recv_node, f)
        if self.small and self.lang == "c":
            k = re.search(r"<PyArray_API>\)?\[(\d+)\]", str(f))
            if k:
                from .cfront import numpy_api
                nm = numpy_api().get(int(k.group(1)))
                r = nm and self.std_c(nm, av, st, n)
                if r is not None:
                    return r
        # opaque callable
        tt = self.type_of(f) if isinstance(f, (Poly, Ptr)) else None
        if isinstance(tt, PyClass):
            m = self.pkg.method(tt, "__call__")
            if m is not None:
                return self.call_func(FuncV(m, None, f), [f] + av, kv, st, n)
        return self.opaque_call("?", av, kv, st, n, recv=f)

    def opaque_call(self, name, av, kv, st, n, recv=None, pure=False, isint=False):
        if pure:
            return P(atom("fn", name, tuple(av), isint=isint))
        res = atom("call", name, next(self.seq), isint=isint)
        self.emit(CallE(name, av, kv, st.pc, n.loc if n is not None else None, (), res, recv))
        # out-parameters
        for a in av:
            if isinstance(a, Ptr) and a.base.kind == "cell":
                m = MemObj()
                m.vals["*"] = P(atom("out", name, next(self.seq), isint=self.cell_int.get(a.base, False)))
                if self.cell_ptr.get(a.base):
                    m.vals["*"] = Ptr(m.vals["*"].as_atom())
                st.mem[a.base] = m
            elif isinstance(a, Ptr) and a.base.kind == "local":
                m = st.mem.get(a.base)
                m2 = MemObj()
                m2.gen = ("c", next(self.seq))
                st.mem[a.base] = m2
        v = P(res)
        if self.lang == "c" and n is not None and n.ty and n.ty.rstrip().endswith("*"):
            return Ptr(res)
        return v

    cell_int = {}
    cell_ptr = {}

    def construct(self, f, av, kv, st, n):
        h = self.intrin.get(f.cls.name)
        if h is not None:
            r = h(self, av, kv, st, n)
            if r is not None:
                return r
        if any("Enum" in b for k in self.pkg.mro(f.cls) for b in k.bases):
            if av:
                return av[0]
        a = atom("newobj", f.cls.name, next(self.seq))
        self.types[a] = f.cls
        self.emit(CallE("new:" + f.cls.name, av, kv, st.pc, n.loc if n else None, (), a))
        init = self.pkg.method(f.cls, "__init__")
        if init is not None and self.want_inline(init):
            self.call_func(FuncV(init, None, P(a)), [P(a)] + av, kv, st, n)
        elif init is None:
            # dataclass-like: bind annotated fields in order
            names = [x for k in reversed(self.pkg.mro(f.cls)) for x in k.annots]
            m = MemObj()
            for nm, v in zip(names, av):
                m.vals[nm] = v
            for k, v in kv:
                m.vals[k] = v
            st.mem[a] = m
        return P(a)

    def want_inline(self, fn):
        if fn.name in self.noinline or fn.qual in self.noinline:
            return False
        if self.inline_pred is not None and not self.inline_pred(fn):
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        if any(s is fn for s in self.fstack):
            return False
        return True

    fstack = ()

    def call_func(self, fv, av, kv, st, n):
        fn = fv.fn
        h = self.intrin.get(fn.qual) or self.intrin.get(fn.name)
        if h is not None:
            r = h(self, av, kv, st, n)
            if r is not None:
                return r
        if not self.want_inline(fn):
            recv = None
            if fn.cls and av and fv.self_ is not None:
                recv, av = av[0], av[1:]
            return self.opaque_call(fn.name, av, kv, st, n, recv=recv)
        return self.inline(fv, av, kv, st, n)

    def bind(self, fn, av, kv, st):
        env = {}
        av = list(av)
        kv = dict((k, v) for k, v in kv)
        for i, (name, ty, default) in enumerate(fn.params):
            if i < len(av):
                env[name] = av[i]
            elif name in kv:
                env[name] = kv.pop(name)
            elif default is not None:
                env[name] = ("default", default)
            else:
                env[name] = P(atom("missing", fn.name, name))
        if fn.vararg:
            env[fn.vararg] = Tup(av[len(fn.params):])
        for name, ty, default in fn.kwonly:
            if name in kv:
                env[name] = kv.pop(name)
            elif default is not None:
                env[name] = ("default", default)
        if fn.kwarg:
            env[fn.kwarg] = DictV(kv.items())
        return env

    def inline(self, fv, av, kv, st, n):
        fn = fv.fn
        env = self.bind(fn, av, kv, st)
        saved = (self.mod, self.lang, getattr(self, "closure", None), self.rets, self.breaks, self.conts, self.frame_id, getattr(self, "cur_func", None), self.fstack, self.par)
        self.lang = fn.lang
        self.par = None
        if fn.lang == "py":
            if fn.module is not None:
                self.mod = fn.module
            self.closure = fv.env
        self.fstack = tuple(self.fstack) + (fn,)
        self.frame_id = next(self.frames)
        self.cur_func = fn
        saved_unit = self.unit
        if fn.lang == "c" and getattr(fn, "unit", None) is not None:
            self.unit = fn.unit
        self.rets = []
        self.analysed.add(fn.qual if fn.lang == "py" else fn.name)
        self.stack.append(fn.qual)
        outer_env = st.env
        s = State({}, st.mem, st.pc)
        for k, v in env.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "default":
                v = self.ev(v[1], s)
            s.env[k] = v
        if fn.lang == "c":
            self.box_params(fn, s)
        s0pc = st.pc
        lists = {}
        if fn.lang == "py":
            for v in env.values():
                if isinstance(v, Tup) and v.kind in ("list", "set") and id(v) not in lists:
                    c = atom("listcell", next(self.frames))
                    m = MemObj()
                    m.vals["*"] = v
                    s.mem[c] = m
                    lists[id(v)] = (v, c)
        try:
            end = self.block(fn.body, s)
            rets = self.rets
            if end is not None:
                rets = rets + [(NONE, end)]
        finally:
            (self.mod, self.lang, self.closure, self.rets, self.breaks, self.conts, self.frame_id, self.cur_func, self.fstack, self.par) = saved
            self.unit = saved_unit
            self.stack.pop()
        if not rets:
            # never returns normally
            st.pc = FALSE
            return NONE
        states = []
        for v, sx in rets:
            sx.env = {"$ret": v}
            states.append(sx)
        m = self.merge(states)
        st.mem = m.mem
        if m.pc is not s0pc:
            st.pc = m.pc
        st.env = outer_env
        for v, c in lists.values():
            x = st.mem.pop(c, None)
            x = x.vals.get("*", v) if x is not None else v
            if x is not v and isinstance(x, Tup):
                self.alias(v, x, st, n.loc if n is not None else None)
        return m.env["$ret"]

    def box_params(self, fn, s):
        addr = self.addr_taken(fn)
        for name, ty, _ in fn.params:
            if name in addr:
                self.declare_cell(name, ty, s, s.env[name])

    _addr_cache = {}

    def addr_taken(self, fn):
        r = self._addr_cache.get(fn)
        if r is None:
            r = set()
            for nd in walk(fn.body):
                if nd.op == "addr" and nd.a[0].op == "name":
                    r.add(nd.a[0].a[0])
            self._addr_cache[fn] = r
        return r

    def nm(self, v):
        """in naming mode, give a large intermediate value a name (equal values get equal names)"""
        if self.cut is None or not self.cut.names or not isinstance(v, Poly):
            return v
        n = 0
        for m in v.t:
            n += 1
            for i, e in m:
                k = alg._atom_list[i].kind
                if k == "phi":
                    return v
                if k == "ite":
                    n += 10
        if n <= 3 or v.isint():
            return v
        return P(atom("let", v, isint=v.isint()))

    def declare_cell(self, name, ty, st, val):
        a = atom("cell", name, next(self.frames))
        self.born[a] = tuple(self.loopvars)
        self.cell_int[a] = is_int_type(ty)
        self.cell_ptr[a] = bool(ty and ty.rstrip().endswith("*"))
        m = MemObj()
        if val is not None:
            m.vals["*"] = val
        st.mem[a] = m
        st.env[name] = Box(a)

    def new_alloc(self):
        return atom("alloc", next(self.seq), *[P(k) for k in self.loopvars])

    # -------------------------------------------------- library call models
    def call_ext(self, name, av, kv, st, n):
        h = self.intrin.get(name) or self.intrin.get(name.split(".")[-1])
        if h is not None:
            r = h(self, av, kv, st, n)
            if r is not None:
                return r
        if self.small and self.lang == "py":
            r = smallnp.call(self, st, name, av, kv, n)
            if r is not None:
                return r
        short = name.split(".")[-1]
        short = short.replace("__builtin_", "")
        if name == "collections.namedtuple" and len(av) >= 2 and isinstance(av[0], str):
            fs = av[1]
            fs = fs.replace(",", " ").split() if isinstance(fs, str) else list(fs.items) if isinstance(fs, Tup) else None
            if fs is not None and all(isinstance(x, str) for x in fs):
                return Tup(fs, "ntclass")
        if short in ("njit", "jit", "jit()", "jit_spinner"):
            if av and isinstance(av[0], FuncV):
                return av[0]
            return ExtV("numba.jit()")
        r = self.std(short, name, av, kv, st, n)
        if r is not None:
            return r
        if self.linker is not None and self.lang == "py" and "." in name:
            fn = self.linker(name)
            if fn is not None and name not in self.noinline and short not in self.noinline:
                saved = getattr(self, "pyargs", None)
                self.pyargs = list(av)
                self.linked.append((name, list(av), st.pc, n.loc if n is not None else None))
                try:
                    return self.inline(FuncV(fn), [Ptr(atom("sym", "module")), Ptr(atom("sym", "pyargs"))], [], st, n)
                finally:
                    self.pyargs = saved
        return self.opaque_call(name, av, kv, st, n)

    def std(self, short, name, av, kv, st, n):
        if short in ("sqrt", "sqrtf"):
            return sqrt(self.num(av[0]))
        if short == "square":
            x = self.num(av[0])
            return x * x
        if short in ("floor", "floorf"):
            return floor_(self.num(av[0]))
        if short == "reciprocal":
            return inv(self.num(av[0]))
        if short == "hypot" and len(av) == 2:
            return sqrt(self.num(av[0]) ** 2 + self.num(av[1]) ** 2)
        if short in ("pow", "power") and len(av) == 2:
            return self.pow(self.num(av[0]), self.num(av[1]))
        if short in ("fabs", "abs", "absolute") and len(av) == 1:
            x = self.num(av[0])
            if x.const() is not None:
                return P(abs(x.const()))
            return ite(lt0(x), -x, x)
        if short in ("fmin", "fmax", "min", "max", "minimum", "maximum") and len(av) >= 2 and all(isinstance(x, (Poly, B)) for x in av):
            r = self.num(av[0])
            for y in av[1:]:
                y = self.num(y)
                c = self.decide(lt0(r - y))
                r = ite(c, r, y) if short in ("fmin", "min", "minimum") else ite(c, y, r)
            return r
        if short in ("isnan", "isinf", "isfinite", "isnanf") and len(av) == 1:
            if self.cut is not None and short in ("isnan", "isnanf"):
                return self.cut.isnan(self.num(av[0]))
            return var_b(atom("truth", atom("fn", short, (self.num(av[0]),))))
        if short in ("int", "int64", "int32", "intp") and len(av) == 1 and isinstance(av[0], (Poly, B)):
            return self.trunc(self.num(av[0]))
        if short in ("uint64", "uint32") and self.lang == "py" and len(av) == 1 and isinstance(av[0], Poly) and av[0].const() is not None and av[0].const().denominator == 1 and 0 <= av[0].const() < (1 << (64 if short == "uint64" else 32)):
            return av[0]
        if short in ("float", "float64", "double") and len(av) == 1 and isinstance(av[0], (Poly, B)):
            return self.num(av[0])
        if short == "bool" and len(av) == 1:
            return self.truth(av[0])
        if self.lang == "py":
            r = self.std_py(short, name, av, kv, st, n)
            if r is not None:
                return r
        else:
            r = self.std_c(short, av, st, n)
            if r is not None:
                return r
        if short in PURE and not kv:
            s = UNARY_ALIAS.get(short, short)
            return P(atom(s if s in ("sin", "cos") else "fn", *( (self.num(av[0]),) if s in ("sin", "cos") else (s, tuple(self.num(x) if isinstance(x, B) else x for x in av))), isint=s in ("len", "ceil", "round", "trunc")))
        return None

    def std_py(self, short, name, av, kv, st, n):
        if short in ("range", "prange") and not kv:
            a = [self.num(x) for x in av]
            if len(a) == 1:
                a = [ZERO, a[0], ONE]
            elif len(a) == 2:
                a = [a[0], a[1], ONE]
            r = atom("range", *a)
            if short == "prange":
                self.prange_next = True
                return P(atom("range", *a))
            return P(r)
        if short == "len" and self.small and len(av) == 1 and isinstance(av[0], Poly) and av[0].as_atom() is not None and av[0].as_atom().kind == "range" and all(x.const() is not None for x in av[0].as_atom().args):
            return P(len(range(*[int(x.const()) for x in av[0].as_atom().args])))
        if short == "len" and len(av) == 1:
            t = self.type_of(av[0])
            if isinstance(t, PyClass):
                m = self.pkg.method(t, "__len__")
                if m is not None:
                    return self.call_func(FuncV(m, None, av[0]), [av[0]], [], st, n)
            return self.length(av[0])
        if name.split(".")[-1] == "slice" and name.split(".")[0] in ("slice", "builtins") and self.small and 1 <= len(av) <= 3:
            return SliceV(*(([NONE] + list(av) + [NONE]) if len(av) == 1 else (list(av) + [NONE])[:3]))
        if short == "divmod" and len(av) == 2 and all(isinstance(x, Poly) and x.const() is not None for x in av) and av[1].const() != 0:
            q, r = divmod(av[0].const(), av[1].const())
            return Tup([P(q), P(r)])
        if short in ("ceil", "floor") and self.small and len(av) == 1 and isinstance(av[0], Poly) and av[0].const() is not None:
            import math
            return P(math.ceil(av[0].const()) if short == "ceil" else math.floor(av[0].const()))
        if short == "enumerate":
            start = av[1] if len(av) > 1 else dict(kv).get("start", ZERO)
            return P(atom("enumerate", av[0], start))
        if short == "zip":
            return P(atom("zip", *av))
        if short == "reversed":
            if isinstance(av[0], Tup):
                return Tup(reversed(av[0].items), av[0].kind)
            return P(atom("reversed", av[0]))
        if short in ("list", "tuple", "List", "PickleList", "TypedList") and len(av) == 1:
            if isinstance(av[0], Tup):
                return Tup(av[0].items, "list" if short != "tuple" else "tuple")
            it = self.const_items(av[0], st)
            if it is not None:
                return Tup(it, "list")
            return av[0]
        if short in ("combinations", "permutations") and len(av) == 2 and isinstance(av[0], Tup) and isinstance(av[1], Poly) and av[1].const() is not None and len(av[0].items) <= 8:
            import itertools
            return Tup([Tup(x) for x in getattr(itertools, short)(av[0].items, int(av[1].const()))], "list")
        if name.split(".")[0] == "itertools" and short == "product" and av and not kv and all(isinstance(x, Tup) for x in av):
            import itertools
            return Tup([Tup(x) for x in itertools.product(*[x.items for x in av])], "list")
        if short == "set" and not av:
            return Tup((), "set")
        if short == "set" and self.small and isinstance(av[0], Tup) and all(const_key(x) for x in av[0].items):
            return Tup([x for i, x in enumerate(av[0].items) if x not in av[0].items[:i]], "set")
        if short == "sorted" and self.small and len(av) == 1 and not kv and isinstance(av[0], Tup) and all(isinstance(x, str) for x in av[0].items):
            return Tup(sorted(av[0].items), "list")
        if short in ("list", "tuple") and not av:
            return Tup((), short)
        if name.endswith("typed.List") and not av:
            return Tup((), "list")
        if short == "iter" and len(av) == 1 and isinstance(av[0], Tup):
            return av[0]
        if short == "dict" and not av:
            return DictV(kv)
        if short == "getattr" and len(av) >= 2 and isinstance(av[1], str):
            a = av[0].as_atom() if len(av) == 3 and isinstance(av[0], Poly) else None
            if self.small and a is not None and a.kind == "newobj" and isinstance(self.types.get(a), PyClass):
                m, ks = st.mem.get(a), self.pkg.mro(self.types[a])      # made on the way: what it has is known
                if m is not None and not m.gen and "@partial" not in m.vals and av[1] not in m.vals and not any(
                        av[1] in k.methods or av[1] in k.attrs or av[1] in k.annots or av[1] in k.props for k in ks) and not self.instance_assigned(self.types[a], av[1]):
                    return av[2]
            return self.getattr(av[0], av[1], st, n)
        if short == "getattr" and len(av) >= 2:
            return P(atom("load", self.base_of(av[0])[0], ("@", av[1])))
        if short == "setattr" and len(av) == 3 and isinstance(av[1], str):
            base, _ = self.base_of(av[0])
            m = st.mem.get(base)
            m = m.copy() if m else MemObj()
            m.vals[av[1]] = av[2]
            st.mem[base] = m
            self.emit(Store(base, av[1], av[2], st.pc, n.loc, ()))
            return NONE
        if short == "setattr" and len(av) == 3:
            base, _ = self.base_of(av[0])
            self.emit(Store(base, ("@", av[1]), av[2], st.pc, n.loc, ()))
            return NONE
        if short in ("isinstance", "hasattr", "callable", "issubclass"):
            if short == "isinstance" and len(av) == 2 and isinstance(av[0], (Tup, str, DictV)):
                ks = av[1].items if isinstance(av[1], Tup) else [av[1]]
                nm = "str" if isinstance(av[0], str) else "dict" if isinstance(av[0], DictV) else av[0].kind
                if all(isinstance(k, ClassV) for k in ks):
                    return FALSE
                if all(isinstance(k, ClassV) or isinstance(k, ExtV) and k.name.split(".")[-1] in ("str", "list", "tuple", "dict", "set", "int", "float", "bool", "complex", "slice", "integer", "floating") for k in ks):
                    return TRUE if any(isinstance(k, ExtV) and k.name.split(".")[-1] == nm for k in ks) else FALSE
            if short == "hasattr" and len(av) == 2 and isinstance(av[1], str) and isinstance(av[0], Poly) and av[0].as_atom() is not None:
                m = st.mem.get(av[0].as_atom())
                if m is not None and av[1] in m.vals:
                    return TRUE
                t = self.type_of(av[0])
                if isinstance(t, PyClass) and self.pkg.method(t, av[1]) is not None:
                    return TRUE
            if short == "isinstance" and len(av) == 2 and self.small and (isinstance(av[0], SliceV) or isinstance(av[0], Poly) and av[0].const() is not None):
                ks = av[1].items if isinstance(av[1], Tup) else [av[1]]
                if all(isinstance(k, ExtV) for k in ks):
                    nm = ("slice",) if isinstance(av[0], SliceV) else ("int", "integer") if av[0].const().denominator == 1 else ("float", "floating")
                    return TRUE if any(k.name.split(".")[-1] in nm for k in ks) else FALSE
            if short == "isinstance" and len(av) == 2:
                t = self.type_of(av[0])
                if isinstance(t, PyClass):
                    ks = av[1].items if isinstance(av[1], Tup) else [av[1]]
                    for k in ks:
                        if isinstance(k, ClassV) and k.cls in self.pkg.mro(t):
                            return TRUE
                    a = av[0].as_atom() if isinstance(av[0], Poly) else None
                    if a is not None and (a.kind == "newobj" or a in getattr(self, "exact", ())) and all(isinstance(k, ClassV) for k in ks):
                        return FALSE
                    if all(isinstance(k, ClassV) and t not in self.pkg.mro(k.cls) for k in ks):
                        return FALSE
            if short == "issubclass" and len(av) == 2 and isinstance(av[0], ClassV):
                ks = av[1].items if isinstance(av[1], Tup) else [av[1]]
                if all(isinstance(k, ClassV) for k in ks):
                    return TRUE if any(k.cls in self.pkg.mro(av[0].cls) for k in ks) else FALSE
            if short == "callable" and len(av) == 1:
                if isinstance(av[0], (FuncV, ClassV)):
                    return TRUE
                if isinstance(av[0], Poly) and av[0].const() is not None or av[0] is NONE or isinstance(av[0], (str, Tup, DictV)):
                    return FALSE
            return var_b(atom("truth", atom("fn", short, tuple(av))))
        if short == "super":
            return None
        if short == "type" and len(av) == 1 and isinstance(av[0], ExtV) and av[0].name.split(".")[-1] == "Ellipsis":
            return ExtV("types.EllipsisType")
        if short == "type" and len(av) == 1 and not kv:
            t = self.type_of(av[0])
            a = av[0].as_atom() if isinstance(av[0], Poly) else None
            if isinstance(t, PyClass) and a is not None and (a.kind == "newobj" or a in self.types):
                return ClassV(t)
        if short in ("zeros", "empty", "ones", "full", "zeros_like", "empty_like", "full_like", "ones_like"):
            a = self.new_alloc()
            m = MemObj()
            if short.startswith("zeros"):
                m.init = ZERO
            elif short.startswith("ones"):
                m.init = ONE
            elif short.startswith("full"):
                m.init = av[1] if len(av) > 1 else dict(kv).get("fill_value")
            st.mem[a] = m
            self.emit(CallE(name, av, kv, st.pc, n.loc, (), a))
            shp = av[0] if av else dict(kv).get("shape")
            if not short.endswith("_like"):
                if isinstance(shp, Tup) and len(shp.items) == 1:
                    shp = shp.items[0]
                if isinstance(shp, Poly) and (shp.as_atom() is None or not isinstance(self.type_of(shp), tuple)):
                    self.alens[a] = shp
            elif isinstance(shp, (Poly, Ptr)) and self.array_len(shp) is not None:
                self.alens[a] = self.array_len(shp)
            return P(a)
        if short == "arange" and 1 <= len(av) <= 3 and all(isinstance(x, Poly) for x in av):
            lo, hi, step = (ZERO, av[0], ONE) if len(av) == 1 else (av[0], av[1], av[2] if len(av) > 2 else ONE)
            if step == ONE:
                return P(atom("arange", lo, hi - lo, step, next(self.seq)))
        if short in ("array", "asarray") and len(av) >= 1 and isinstance(av[0], Tup):
            a = self.new_alloc()
            m = MemObj()
            for i, x in enumerate(av[0].items):
                m.vals[(P(i),)] = x
            st.mem[a] = m
            return P(a)
        if short in ("asarray", "ascontiguousarray") and len(av) == 1:
            return av[0]
        if short in ("sum",) and len(av) == 1 and not kv:
            return P(atom("fn", "sum", (av[0],)))
        if short in ("any", "all") and len(av) == 1 and isinstance(av[0], Tup):
            r = FALSE if short == "any" else TRUE
            for x in av[0].items:
                r = (r | self.truth(x)) if short == "any" else (r & self.truth(x))
            return r
        if short in ("any", "all") and len(av) == 1 and isinstance(av[0], Poly) and av[0].as_atom() is not None and av[0].as_atom().kind in ("map", "filtermap"):
            return var_b(atom("truth", atom("fn", short, (av[0],))))
        if short == "str" and len(av) == 1 and isinstance(av[0], str):
            return av[0]
        if short in ("str", "repr", "type", "id", "set", "sorted", "frozenset", "divmod", "sum", "any", "all", "min", "max", "iter", "map", "filter", "range"):
            return P(atom("fn", short, tuple(av), tuple(kv)))
        return None

    def std_c(self, short, av, st, n):
        if short in ("malloc", "calloc", "PyMem_Malloc", "PyMem_RawMalloc", "realloc"):
            a = self.new_alloc()
            m = MemObj()
            if short == "calloc":
                m.init = ZERO
            st.mem[a] = m
            if self.small and short != "realloc":
                b = self.num(av[0]) if len(av) == 1 else self.num(av[0]) * self.num(av[1])
                b = subst(b, lambda x: P(self.sizeof(x.args[0])) if x.kind == "sizeof" and self.sizeof(x.args[0]) else None, {}).const()
                if b is not None:
                    self.bytes[a] = (b, 8)
            self.emit(CallE(short, av, [], st.pc, n.loc, (), a))
            return Ptr(a)
        if short in ("PyEval_SaveThread", "PyEval_RestoreThread"):
            self.emit(CallE(short, av, [], st.pc, n.loc, (), atom("call", short, next(self.seq))))
            return Ptr(atom("tstate"))
        if short == "PyArg_ParseTuple":
            fmt = av[1]
            outs = av[2:]
            fm = re.sub(r"[|:;].*$", lambda m: m.group(0).replace("|", "") if m.group(0)[0] == "|" else "", fmt) if isinstance(fmt, str) else ""
            j = 0
            i = 0
            npos = 0
            while i < len(fm) and j < len(outs):
                ch = fm[i]
                i += 1
                if ch in " ():;|":
                    continue
                if ch == "O" and i < len(fm) and fm[i] in "!&":
                    i += 1
                    j += 1
                if j >= len(outs):
                    break
                a = outs[j]
                if isinstance(a, Ptr) and a.base.kind == "cell":
                    name = a.base.args[0]
                    isint = ch in "nilLkIhHbBKp"
                    v = P(atom("sym", "arg:" + name, isint=isint))
                    pm = getattr(self, "parse_map", None)
                    pa = getattr(self, "pyargs", None)
                    if pa is not None and npos < len(pa):
                        v = pa[npos]
                        if isint or ch in "df":
                            v = self.num(v)
                        if ch in "nilLkIhHbBK":
                            v = self.as_int(v)
                        elif ch == "O" and isinstance(v, Poly) and v.as_atom() is not None:
                            v = Ptr(v.as_atom())
                    elif pm and name in pm:
                        v = pm[name]
                    elif ch == "O":
                        v = Ptr(v.as_atom())
                    mm = MemObj()
                    mm.vals["*"] = v
                    st.mem[a.base] = mm
                j += 1
                npos += 1
            self.emit(CallE(short, av, [], st.pc, n.loc, (), atom("call", short, next(self.seq))))
            return ONE
        if short in ("PyList_GET_ITEM", "PyList_GetItem", "PyTuple_GET_ITEM", "PyTuple_GetItem", "PySequence_GetItem"):
            base, off = self.base_of(av[0])
            if base.kind == "map" and base not in st.mem and not off.t:
                return self.typed(self.iter_elem(P(base), self.num(av[1]), st)[0], n)
            return self.typed(self.load(st, av[0], (self.num(av[1]),)), n)
        if self.small and short in ("PyObject_GetAttrString", "PyObject_GetAttr") and isinstance(av[1], str):
            base, off = self.base_of(av[0])
            b = base.args[0] if base.kind == "val" and not off.t else P(base)
            lang, self.lang = self.lang, "py"
            try:
                v = self.getattr(b, av[1], st, n)
            finally:
                self.lang = lang
            self.emit(CallE(short, av, [], st.pc, n.loc, (), atom("call", short, next(self.seq))))
            return Ptr(v.as_atom()) if isinstance(v, Poly) and v.as_atom() is not None else v
        if self.small and short in ("PyArray_ZEROS", "PyArray_EMPTY", "PyArray_SimpleNew", "PyArray_Zeros", "PyArray_Empty") and isinstance(av[1], Ptr):
            nd = self.num(av[0]).const()
            tot = ONE
            for i in range(int(nd)):
                d = st.mem[av[1].base].vals.get("*") if i == 0 and av[1].base.kind == "cell" and av[1].base in st.mem and not av[1].off.t else None
                tot = tot * self.num(d if d is not None else self.load(st, av[1], (P(i),)))
            if tot.const() is not None and tot.const() <= 4096:
                from . import smallnp
                a = smallnp.new(self, st, [])
                at = a.as_atom()
                self.alens[at] = tot
                if "Z" in short:
                    st.mem[at].init = ZERO
                self.emit(CallE(short, av, [], st.pc, n.loc, (), at))
                return Ptr(at)
        if self.small and short in ("PyTuple_Pack", "Py_BuildValue"):
            vs = av[1:]
            if short == "Py_BuildValue" and (not isinstance(av[0], str) or not all(ch in "NOSdfnliLkIKhHbBp()" for ch in av[0])):
                vs = None
            if vs is not None:
                self.emit(CallE(short, av, [], st.pc, n.loc, (), atom("call", short, next(self.seq))))
                vs = [P(x.base) if isinstance(x, Ptr) and not x.off.t and x.base.kind != "val" else x.base.args[0] if isinstance(x, Ptr) and x.base.kind == "val" and not x.off.t else x for x in vs]
                return vs[0] if short == "Py_BuildValue" and len(vs) == 1 and "(" not in av[0] else Tup(vs)
        if self.small and short == "PyUnicode_CompareWithASCIIString" and isinstance(av[0], str) and isinstance(av[1], str):
            return ZERO if av[0] == av[1] else ONE
        if short in ("PyObject_GetAttrString",):
            if isinstance(av[1], str):
                base, off = self.base_of(av[0])
                a = atom("attr", base, av[1])
                if self.cut is not None and av[1] in self.cut.facts:
                    v = self.cut.fact(self, base, av[1])
                    if v.as_atom() is not a:
                        self.emit(CallE(short, av, [], st.pc, n.loc, (), a))
                        return Ptr(atom("fact", v))
            else:
                base, off = self.base_of(av[0])
                a = atom("load", base, ("@", av[1]))
            self.emit(CallE(short, av, [], st.pc, n.loc, (), a))
            return Ptr(a)
        if short in ("PyArray_DATA", "PyArray_GETPTR1", "PyArray_BYTES"):
            base, off = self.base_of(av[0])
            if self.small and base in self.alens and not off.t:
                return Ptr(base)
            return Ptr(atom("npdata", base))
        if short in ("PyArray_DIM", "PyArray_SIZE", "PyArray_DIMS", "PyArray_SHAPE", "PyList_Size", "PyList_GET_SIZE", "PySequence_Size", "PyTuple_Size", "PyTuple_GET_SIZE", "PySequence_Length", "PyObject_Length"):
            base, off = self.base_of(av[0])
            if short in ("PyArray_DIMS", "PyArray_SHAPE"):
                return Ptr(atom("dims", base))
            if short in ("PyArray_DIM", "PyArray_SIZE") and self.small and base in self.alens and not off.t and (short == "PyArray_SIZE" or self.num(av[1]).const() == 0):
                return P(self.alens[base])
            if short in ("PyArray_DIM",):
                return P(atom("load", atom("dims", base), (self.num(av[1]),), isint=True))
            if base.kind == "val" and isinstance(base.args[0], Tup):
                return P(len(base.args[0].items))
            if base.kind == "map":
                return base.args[2]
            if self.small and base in self.alens and not off.t:
                return self.alens[base]
            return P(atom("len", base, isint=True))
        if short in ("PyFloat_AsDouble", "PyLong_AsLong", "PyLong_AsLongLong", "PyLong_AsSsize_t", "PyUnicode_AsUTF8", "PyLong_AsInt"):
            v = av[0]
            if short == "PyUnicode_AsUTF8":
                return v
            if isinstance(v, Poly) and v.as_atom() is None:
                return v
            base, off = self.base_of(v)
            if base.kind == "val" and isinstance(base.args[0], Poly):
                return base.args[0]
            if base.kind == "fact":
                return base.args[0]
            a = atom("pynum", base, isint=short.startswith("PyLong"))
            return P(a)
        if short in ("Py_DecRef", "Py_IncRef", "Py_DECREF", "Py_INCREF", "Py_XDECREF", "Py_XINCREF"):
            self.emit(CallE(short, av, [], st.pc, n.loc, (), atom("call", short, next(self.seq))))
            return NONE
        if short in ("memcpy", "memmove"):
            return self.c_memcpy(av, st, n)
        if short == "memset" and self.small:
            db, do = self.base_of(av[0])
            size = self.num(av[2])
            cnt = next((size / P(a) for a in size.atoms() if a.kind == "sizeof"), size / P(8)).const()
            if self.num(av[1]).const() == 0 and cnt is not None and cnt == int(cnt) and 0 <= cnt <= 4096:
                for i in range(int(cnt)):
                    self.store(st, Ptr(db, do), (P(i),), ZERO, n.loc)
                return av[0]
        if short == "PyCapsule_New":
            b, o = self.base_of(av[0])
            a = atom("capsule", b)
            self.emit(CallE(short, av, [], st.pc, n.loc, (), a))
            return Ptr(a)
        if short == "PyCapsule_GetPointer":
            b, o = self.base_of(av[0])
            if b.kind == "capsule":
                return Ptr(b.args[0])
            return Ptr(atom("capptr", b))
        if short == "PyCapsule_IsValid":
            return ONE
        return None

    def c_memcpy(self, av, st, n):
        """element-wise copy loop"""
        db, do = self.base_of(av[0])
        sb, so = self.base_of(av[1])
        size = self.num(av[2])
        cnt = None
        for a in size.atoms():
            if a.kind == "sizeof":
                cnt = size / P(a)
        if cnt is None:
            c8 = size / P(8)
            cnt = c8
        if self.small and cnt.const() is not None and 0 <= cnt.const() <= 4096:
            for i in range(int(cnt.const())):
                self.store(st, Ptr(db, do), (P(i),), self.load(st, Ptr(sb, so), (P(i),), loc=n.loc), n.loc)
            return av[0]
        k = atom("lv", next(self.loopid), isint=True)
        lp = Loop(k, ZERO, cnt, ONE, st.pc, n.loc, ())
        val = self.load(st, Ptr(sb, so), (P(k),))
        s = Store(db, (do + P(k),), val, TRUE, n.loc, tuple(self.stack))
        lp.body = [s]
        self.emit(lp)
        m = st.mem.get(db)
        m = m.copy() if m else MemObj()
        m.gen = ("w", next(self.seq))
        m.vals = {}
        m.maps = []
        if not do.t:
            m.maps = [(k, ZERO, cnt, val)]
        st.mem[db] = m
        return av[0]

    def call_method(self, recv, mname, av, kv, st, n, recv_node, f):
        h = self.intrin.get("." + mname)
        if h is not None:
            r = h(self, [recv] + av, kv, st, n)
            if r is not None:
                return r
        if isinstance(recv, Tup) and mname in ("intersection", "isdisjoint", "union", "difference", "issubset", "issuperset") and len(av) == 1:
            r = set_op(mname, recv, av[0])
            if r is not None:
                return r
        if isinstance(recv, Tup) and recv.kind == "set" and mname == "add" and len(av) == 1 and const_key(av[0]) and all(const_key(x) for x in recv.items):
            if av[0] in recv.items or self.mutate(recv_node, recv, Tup(recv.items + (av[0],), "set"), st, n.loc):
                return NONE
        if self.small and isinstance(recv, Poly):
            r = smallnp.method(self, st, recv, mname, av, kv, n)
            if r is not None:
                return r
        if isinstance(recv, Tup) and mname in ("append", "extend", "copy"):
            if mname == "append" and self.mutate(recv_node, recv, Tup(recv.items + (av[0],), "list"), st, n.loc):
                return NONE
            if mname == "extend" and isinstance(av[0], Tup) and self.mutate(recv_node, recv, Tup(recv.items + av[0].items, "list"), st, n.loc):
                return NONE
            if mname == "copy":
                return Tup(recv.items, recv.kind)
        if isinstance(recv, Tup) and mname in ("insert", "pop", "remove", "index", "clear"):
            c = av[0].const() if av and isinstance(av[0], Poly) else None
            items = list(recv.items)
            if mname == "index" and av:
                i = list_index(items, av[0])
                if i is not None:
                    return i
            elif mname == "clear" and self.mutate(recv_node, recv, Tup((), "list"), st, n.loc):
                return NONE
            elif mname == "insert" and len(av) == 2 and c is not None:
                items.insert(int(c), av[1])
                if self.mutate(recv_node, recv, Tup(tuple(items), "list"), st, n.loc):
                    return NONE
            elif mname == "pop" and items and (not av or c is not None and -len(items) <= c < len(items)):
                v = items.pop(int(c) if av else -1)
                if self.mutate(recv_node, recv, Tup(tuple(items), "list"), st, n.loc):
                    return v
            elif mname == "remove" and av:
                i = list_index(items, av[0])
                i = i.const() if i is not None else None
                if i is not None:
                    items.pop(int(i))
                    if self.mutate(recv_node, recv, Tup(tuple(items), "list"), st, n.loc):
                        return NONE
        if isinstance(recv, DictV):
            if mname == "items":
                return Tup([Tup([k, v]) for k, v in recv.items.items()])
            if mname == "keys":
                return Tup(list(recv.items))
            if mname == "values":
                return Tup(list(recv.items.values()))
            if mname == "get" and av:
                for k, v in recv.items.items():
                    if k == av[0]:
                        return v
                return av[1] if len(av) > 1 else NONE
        elif mname == "items" and not av:
            return P(atom("dictitems", recv))
        if isinstance(recv, str) and mname in ("format", "join", "lower", "upper", "strip", "startswith", "endswith", "split", "replace", "removesuffix", "removeprefix"):
            if mname == "upper":
                return recv.upper()
            if mname == "lower":
                return recv.lower()
            if mname in ("startswith", "endswith") and av and isinstance(av[0], str):
                return TRUE if getattr(recv, mname)(av[0]) else FALSE
            return P(atom("fn", "str." + mname, (recv,) + tuple(av)))
        if mname == "copy" and not av:
            return P(atom("fn", "copy", (recv,)))
        if mname in ("sum", "any", "all", "min", "max", "mean", "astype", "ravel", "flatten", "reshape", "transpose", "tolist", "item"):
            return P(atom("fn", mname, (recv,) + tuple(av), tuple(kv)))
        r = self.opaque_call(mname, av, kv, st, n, recv=recv)
        # in-place mutators clobber
        if mname in ("fill", "append", "extend", "sort", "clear", "pop", "insert", "remove", "resize", "partition"):
            base, _ = self.base_of(recv)
            m = MemObj()
            m.gen = ("c", next(self.seq))
            if mname == "fill" and av:
                m.init = av[0]
                m.gen = 0
            st.mem[base] = m
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.pc is FALSE:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + s.op, None)
        if s.loc:
            self.at = s.loc
        if m is None:
            raise AnalysisError("statement kind %s at %s" % (s.op, s.loc))
        return m(s, st)

    def s_expr(self, s, st):
        self.ev(s.a[0], st)
        return st if st.pc is not FALSE else None

    def s_set(self, s, st):
        v = self.ev(s.a[1], st)
        if st.pc is FALSE:
            return None
        for t in s.a[0]:
            self.assign(t, v, st, s.loc)
        return st

    def s_augset(self, s, st):
        op, t, x = s.a
        old = self.ev(t, st)
        r = self.ev(x, st)
        if op == "+" and isinstance(old, Tup) and isinstance(r, Tup):
            v = Tup(old.items + r.items, old.kind)
        else:
            v = None
            if self.small:
                v = smallnp.binop(self, st, op, old, r, s)
                if v is not None and smallnp.arr(self, old):
                    # in place: the same array object
                    for i, x in enumerate(smallnp.items(self, st, v)):
                        smallnp.put(self, st, old, i, x, s.loc)
                    if t.op == "sub":
                        self.assign(t, old, st, s.loc)
                    return st
            if v is None:
                v = self.binop(op, old, r, s)
        self.assign(t, v, st, s.loc, op=op, rhs=r)
        return st

    def s_decl(self, s, st):
        name, ty, init = s.a[:3]
        static = len(s.a) > 3 and s.a[3]
        if "[" in ty and "*" not in ty.split("[")[0] or re.search(r"\[\d*\]$", ty):
            a = atom("local", name, next(self.frames))
            self.born[a] = tuple(self.loopvars)
            m = MemObj()
            if init is not None:
                v = self.ev(init, st)
                if isinstance(v, Tup):
                    dims = [int(x) for x in re.findall(r"\[(\d+)\]", ty)]
                    if len(dims) > 1:
                        if len(dims) == 2 and dims[0] <= 64:
                            for i in range(dims[0]):
                                mm = MemObj()
                                mm.init = ZERO
                                st.mem[atom("row", a, P(i))] = mm
                        for i, x in enumerate(v.items):
                            if isinstance(x, Tup):
                                mm = MemObj()
                                for j, y in enumerate(x.items):
                                    mm.vals[(P(j),)] = y
                                mm.init = ZERO
                                st.mem[atom("row", a, P(i))] = mm
                        m.init = ZERO
                    else:
                        for i, x in enumerate(v.items):
                            m.vals[(P(i),)] = x
                        m.init = ZERO
            st.mem[a] = m
            st.env[name] = Ptr(a)
            return st
        v = None
        if init is not None:
            v = self.nm(self.ev(init, st))
            if "*" in ty and isinstance(v, Poly) and v.as_atom() is not None and v.as_atom().kind not in ("ite",):
                v = Ptr(v.as_atom())
        if self.cur_func is not None and name in self.addr_taken(self.cur_func):
            self.declare_cell(name, ty, st, v)
        else:
            if v is None:
                v = P(atom("undef", name, self.frame_id, isint=is_int_type(ty)))
                if "struct" in ty or (not is_int_type(ty) and "*" not in ty and "double" not in ty and "float" not in ty):
                    v = Ptr(atom("local", name, next(self.frames)))
                    self.born[v.base] = tuple(self.loopvars)
            st.env[name] = v
        return st

    def s_if(self, s, st):
        c = self.truth(self.ev(s.a[0], st))
        return self.branch(c, s.a[1], s.a[2], st)

    def feas(self, pc):
        if pc is FALSE:
            return False
        if len(b_atoms(pc)) > 10:
            return True
        return b_feasible(pc)

    def branch(self, c, then, els, st):
        if st.pc is FALSE:
            return None
        c = restrict_care(c, st.pc) if c.var is not None and st.pc is not TRUE else c
        if c is TRUE:
            return self.block(then, st)
        if c is FALSE:
            return self.block(els, st)
        p1, p2 = st.pc & c, st.pc & ~c
        if not self.feas(p1):
            return self.block(els, st)
        if not self.feas(p2):
            return self.block(then, st)
        s1 = st.fork(p1)
        s2 = st.fork(p2)
        r1 = self.block(then, s1)
        r2 = self.block(els, s2)
        return self.merge([r1, r2])

    def s_block(self, s, st):
        return self.block(s.a[0], st)

    def s_switch(self, s, st):
        e = self.num(self.ev(s.a[0], st))
        saved = self.breaks
        self.breaks = []
        matched = FALSE
        labs = []
        alll = FALSE
        for labels, body in s.a[1]:
            if labels is None:
                labs.append(None)
            else:
                c = FALSE
                for l in labels:
                    c = c | self.eqv(e, self.ev(l, st))
                labs.append(c)
                alll = alll | c
        fall = None
        out = []
        prev = FALSE
        nodefault = all(l is not None for l in labs)
        for (labels, body), c in zip(s.a[1], labs):
            if c is None:
                c = ~alll
            pc = st.pc & c & ~prev
            prev = prev | c
            cur = []
            if pc is not FALSE and self.feas(pc):
                cur.append(st.fork(pc))
            if fall is not None:
                cur.append(fall)
            m = self.merge(cur) if cur else None
            fall = self.block(body, m) if m is not None else None
        if fall is not None:
            out.append(fall)
        if nodefault:
            pc = st.pc & ~alll
            if pc is not FALSE and self.feas(pc):
                out.append(st.fork(pc))
        out.extend(self.breaks)
        self.breaks = saved
        return self.merge(out)

    def s_return(self, s, st):
        v = self.ev(s.a[0], st) if s.a[0] is not None else NONE
        if st.pc is FALSE:
            return None
        self.rets.append((v, State({}, st.mem, st.pc)))
        if len(self.fstack) <= 1:
            self.emit(Ret(v, st.pc, s.loc, ()))
        return None

    def s_break(self, s, st):
        self.breaks.append(st)
        return None

    def s_continue(self, s, st):
        self.conts.append(st)
        return None

    def s_pass(self, s, st):
        return st

    def s_label(self, s, st):
        return st

    def s_global(self, s, st):
        return st

    def s_del(self, s, st):
        for t in s.a[0]:
            if t.op == "sub":
                self.ev(t, st)
        return st

    def s_import(self, s, st):
        names, base, level = s.a
        for nm, asn in names:
            if base is None:
                loc = asn or nm.split(".")[0]
                m = self.pkg.mods.get(nm) if self.pkg else None
                st.env[loc] = ModV(m) if m else self.ext(nm if asn else nm.split(".")[0])
            else:
                b = base
                if level and self.mod is not None:
                    parts = self.mod.name.split(".")
                    if not self.mod.ispkg:
                        parts = parts[:-1]
                    if level > 1:
                        parts = parts[:-(level - 1)]
                    b = ".".join(parts + ([base] if base else []))
                r = None
                if self.pkg and b in self.pkg.mods:
                    r = self.pkg.resolve(self.pkg.mods[b], nm)
                    if r is None and b + "." + nm in self.pkg.mods:
                        r = ("mod", self.pkg.mods[b + "." + nm])
                st.env[asn or nm] = self.wrap_resolved(r, nm) if r is not None else self.ext(b + "." + nm)
        return st

    def s_def(self, s, st):
        fn = s.a[0]
        fn.module = self.mod
        st.env[fn.name] = FuncV(fn, (st.env, self.closure))
        return st

    def s_class(self, s, st):
        st.env[s.a[0]] = P(atom("localclass", s.a[0]))
        return st

    def s_raise(self, s, st):
        v = self.ev(s.a[0], st) if s.a[0] is not None else NONE
        self.emit(RaiseE(v, st.pc, s.loc, ()))
        return None

    def s_assert(self, s, st):
        v = self.ev(s.a[0], st)
        if getattr(self, "asserts", False) and self.truth(v) is FALSE:
            self.emit(RaiseE(NONE, st.pc, s.loc, ()))
            return None
        return st

    def s_goto(self, s, st):
        raise AnalysisError("goto at %s" % (s.loc,))

    def s_opaque_stmt(self, s, st):
        raise AnalysisError("statement %s at %s" % (s.a[0], s.loc))

    def s_with(self, s, st):
        rec = []
        for ctx, as_ in s.a[0]:
            v = self.ev(ctx, st)
            res = atom("with", next(self.seq))
            self.emit(CallE("__enter__", [], [], st.pc, s.loc, (), res, v))
            if as_ is not None:
                self.assign(as_, v, st, s.loc)
            rec.append(v)
        r = self.block(s.a[1], st)
        for v in reversed(rec):
            self.emit(CallE("__exit__", [], [], (r.pc if r is not None else st.pc), s.loc, (), atom("with", next(self.seq)), v))
        return r

    def s_try(self, s, st):
        body, handlers, orelse, final = s.a
        st0 = st.fork(st.pc)
        nret = len(self.rets) if self.rets is not None else 0
        nb = len(self.effects)
        r = self.block(body, st)
        if r is not None and orelse:
            r = self.block(orelse, r)
        outs = [r]
        for ty, name, hb in handlers:
            c = var_b(atom("exc", next(self.seq)))
            sh = st0.fork(st0.pc & c)
            if name:
                sh.env[name] = P(self.fresh("exception"))
            # effects of handler are recorded under the exception condition
            outs.append(self.block(hb, sh))
        outs = [o for o in outs if o is not None]
        m = None
        if outs:
            # values after the try: the no-exception state (exceptional states only matter for effects)
            m = outs[0] if r is not None else self.merge(outs)
            if r is not None and len(outs) > 1:
                exc = FALSE
                for o in outs[1:]:
                    exc = exc | o.pc
                base = r.fork(r.pc & ~exc)
                m = self.merge([base] + outs[1:])
                m.pc = r.pc | exc
        if final:
            fs = m if m is not None else st0
            f = self.block(final, fs)
            if m is None:
                return None
            return f
        return m

    def s_omp(self, s, st):
        directive, clauses, body = s.a
        if directive == "Parallel" and self.race is not None:
            self.race.team += 1
            r = self.block(body, st)
            self.race.team -= 1
            self.race.barrier()
            return r
        if directive in ("ParallelFor", "For", "ParallelForSimd", "Parallel", "DistributeParallelFor"):
            self.par = (directive, clauses, s.loc)
            r = self.block(body, st)
            self.par = None
            return r
        if directive == "Barrier" and self.race is not None and not self.race.live:
            self.race.barrier()
        if directive in ("Critical", "Atomic", "Simd", "Single", "Master", "Barrier", "Ordered", "ForSimd", "Masked"):
            saved = getattr(self, "sync_ctx", ())
            self.sync_ctx = saved + (directive,)
            n0 = len(self.effects)
            r = self.block(body, st)
            for e in self.effects[n0:]:
                if directive in ("Critical", "Atomic"):
                    e.sync = directive
            self.sync_ctx = saved
            return r
        raise AnalysisError("omp directive %s at %s" % (directive, s.loc))

    # ---------------------------------------------------------------- loops
    def s_cfor(self, s, st):
        init, cond, inc, body = s.a
        par = self.par
        saved_names = set(st.env)
        st = self.block(init, st)
        if st is None:
            return None
        r = self.loop_generic(s, st, cond, inc, body, par, kind="cfor")
        if r is not None:
            for k in list(r.env):
                if k not in saved_names and k not in st.env:
                    pass
        return r

    def s_while(self, s, st):
        cond, body, orelse = s.a
        r = self.loop_generic(s, st, cond, None, body, self.par, kind="while")
        if orelse and r is not None:
            r = self.block(orelse, r)
        return r

    def s_dowhile(self, s, st):
        body, cond = s.a
        # body once, then while
        sb, sc = self.breaks, self.conts
        self.breaks, self.conts = [], []
        r = self.block(body, st)
        r = self.merge([r] + self.conts)
        br = self.breaks
        self.breaks, self.conts = sb, sc
        if r is None:
            return self.merge(br)
        c = self.truth(self.ev(cond, r))
        if c is FALSE:
            return self.merge([r] + br)
        r2 = self.loop_generic(s, r, cond, None, body, None, kind="while")
        return self.merge([r2] + br)

    def s_for(self, s, st):
        target, it, body, orelse = s.a
        self.prange_next = False
        itv = self.ev(it, st)
        par = "prange" if self.prange_next else None
        self.prange_next = False
        items = self.const_items(itv, st)
        if items is not None and len(items) <= MAXUNROLL:
            sb, sc = self.breaks, self.conts
            self.breaks = []
            cur = st
            lvl = self.race.open((par, (), s.loc)) if self.race is not None and par else None
            for i, x in enumerate(items):
                if cur is None:
                    break
                if lvl is not None:
                    self.race.step(lvl, i)
                self.conts = []
                self.assign(target, x, cur, s.loc)
                cur = self.block(body, cur)
                cur = self.merge([cur] + self.conts)
            if lvl is not None:
                self.race.leave(lvl)
            br = self.breaks
            self.breaks, self.conts = sb, sc
            if orelse and cur is not None:
                cur = self.block(orelse, cur)
            return self.merge([cur] + br)
        return self.sym_loop(s, st, None, None, body, par, target=target, itv=itv, orelse=orelse)

    def loop_generic(self, s, st, cond, inc, body, par, kind):
        rc, lvl = self.race, None
        if rc is not None and self.unroll_par:
            lvl = rc.open(par) if par is not None else rc.deeper() if kind == "cfor" else None
        if lvl is None:
            return self.loop_generic0(s, st, cond, inc, body, par, kind, None)
        try:
            return self.loop_generic0(s, st, cond, inc, body, par, kind, lvl)
        finally:
            rc.leave(lvl)

    def loop_generic0(self, s, st, cond, inc, body, par, kind, lvl):
        # constant-trip unrolling
        if par is not None and self.unroll_par:
            par = self.par = None
        sb, sc = self.breaks, self.conts
        exits = []
        cur = st
        it = 0
        neff = len(self.effects)
        nret = len(self.rets) if self.rets is not None else 0
        start = st.fork(st.pc)
        if par is not None or cond is None:
            start = None
        while cur is not None and it < MAXUNROLL:
            c = self.truth(self.ev(cond, cur)) if cond is not None else TRUE
            c = restrict_care(c, cur.pc) if c.var is not None and cur.pc is not TRUE else c
            if c is FALSE:
                exits.append(cur)
                cur = None
                break
            if c is not TRUE:
                break
            if par is not None or cond is None:
                break
            if cond is not None and cond.op in ("num", "bool") and not self.small:
                break
            self.breaks, self.conts = [], []
            pc = cur.pc
            if lvl is not None:
                self.race.step(lvl, it)
            cur = self.block(body, cur)
            if self.small and cur is not None and cond.op in ("num", "bool") and self.breaks and cur.pc is not pc:
                break
            cur = self.merge([cur] + self.conts)
            exits.extend(self.breaks)
            if cur is not None and inc is not None:
                self.ev(inc, cur)
            it += 1
        self.breaks, self.conts = sb, sc
        if cur is None:
            return self.merge(exits)
        if it >= MAXUNROLL:
            raise UnrollLimit("unroll limit at %s" % (s.loc,))
        if it and start is not None:
            # a partially peeled loop is analysed whole
            del self.effects[neff:]
            if self.rets is not None:
                del self.rets[nret:]
            cur, exits = start, []
        self.par = None
        if lvl is not None:
            raise AnalysisError("iterations of the parallel loop at %s are not decided" % (s.loc,))
        r = self.sym_loop(s, cur, cond, inc, body, par)
        return self.merge(exits + [r])

    def assigned(self, body, extra=()):
        names = set()
        for n in walk(list(body) + [x for x in extra if x is not None]):
            o = n.op
            if o == "set":
                for t in n.a[0]:
                    names |= self.tnames(t)
            elif o == "augset":
                names |= self.tnames(n.a[1])
            elif o == "assign":
                names |= self.tnames(n.a[0])
            elif o == "aug":
                names |= self.tnames(n.a[1])
            elif o == "incdec":
                names |= self.tnames(n.a[1])
            elif o == "decl":
                names.add(n.a[0])
            elif o == "for":
                names |= self.tnames(n.a[0])
            elif o == "with":
                for _, t in n.a[0]:
                    if t is not None:
                        names |= self.tnames(t)
            elif o == "call" and n.a[0].op == "attr" and n.a[0].a[0].op == "name" and n.a[0].a[1] in ("append", "extend", "pop", "insert", "remove", "clear", "update"):
                names.add("~" + n.a[0].a[0].a[0])
        return names

    def tnames(self, t):
        if t.op == "name":
            return {t.a[0]}
        if t.op in ("tuple", "list"):
            r = set()
            for x in t.a[0]:
                r |= self.tnames(x)
            return r
        if t.op == "star":
            return self.tnames(t.a[0])
        if t.op == "sub" and t.a[0].op == "name":
            return {"~" + t.a[0].a[0]}
        return set()

    def sub_phi(self, end, phi):
        """end - phi when end is phi plus something not involving phi (through ite gates); else None"""
        p = P(phi)
        if not isinstance(end, Poly):
            return None
        a = end.as_atom()
        if a is not None and a.kind == "ite" and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
            x, y = self.sub_phi(a.args[1], phi), self.sub_phi(a.args[2], phi)
            if x is None or y is None or self.mentions(a.args[0], phi):
                return None
            return ite(a.args[0], x, y)
        # an ite term inside the sum that carries phi
        d = end - p
        if not self.mentions(d, phi):
            return d
        # sum of terms where phi occurs only as ite(c, phi+.., phi+..) leading term
        for at in end.atoms():
            if at.kind == "ite" and isinstance(at.args[1], Poly) and self.mentions(P(at), phi):
                rest = end - P(at)
                if not self.mentions(rest, phi):
                    x = self.sub_phi(P(at), phi)
                    if x is not None:
                        return x + rest
        return None

    def mentions(self, v, at):
        return at in atoms_deep(v)

    def sym_loop(self, s, st, cond, inc, body, par, target=None, itv=None, orelse=None):
        lid = next(self.loopid)
        self.bounds.pop(atom("lv", lid, isint=True))
        names = self.assigned(body, (inc, cond))
        if target is not None:
            tn = self.tnames(target)
        else:
            tn = set()
        appended = {x[1:] for x in names if x.startswith("~")}
        names = {x for x in names if not x.startswith("~")}
        for nm in appended:
            v = st.env.get(nm)
            if isinstance(v, (Tup, DictV)):
                # becomes an opaque mutable container
                a = atom("list", nm, next(self.seq))
                m = MemObj()
                if isinstance(v, Tup):
                    for i, x in enumerate(v.items):
                        m.vals[(P(i),)] = x
                st.mem[a] = m
                st.env[nm] = P(a)
        outer = {k: v for k, v in st.env.items() if k in names and k not in tn and not (isinstance(v, Box) or isinstance(v, Ptr) and v.base.kind == "local")}
        kv = atom("lv", lid, isint=True)
        base_mem = dict(st.mem)
        loop_facts = {}

        # induction knowledge: name -> (init, step)
        induct = {}
        meminduct = {}
        lo, hi, step = ZERO, None, ONE
        el = None
        if target is not None:
            el, nel = self.iter_elem(itv, P(kv), st)
            hi = nel
            self.bounds[kv] = (ZERO, nel - 1)

        def setup(induct, hav_mem):
            x = State(dict(st.env), dict(base_mem), TRUE)
            for nm, v in outer.items():
                if nm in induct:
                    x.env[nm] = induct[nm]
                else:
                    ph = atom("phi", lid, nm, isint=isinstance(v, Poly) and v.isint())
                    x.env[nm] = P(ph) if not isinstance(v, Ptr) else Ptr(ph)
            for b in hav_mem:
                m0 = base_mem.get(b)
                m = MemObj()
                if b.kind == "cell":
                    iv = m0.vals.get("*") if m0 is not None else None
                    if b in meminduct:
                        m.vals["*"] = meminduct[b]
                    else:
                        ph = atom("phi", lid, b, isint=self.cell_int.get(b, False))
                        m.vals["*"] = P(ph) if not self.cell_ptr.get(b) else Ptr(ph)
                else:
                    m.gen = self.loop_gen(b, m0, lid, hav_mem[b])
                    if m.gen == (m0.gen if m0 is not None else 0) and m0 is not None:
                        m = m0
                x.mem[b] = m
            return x

        def run(induct, hav_mem):
            x = setup(induct, hav_mem)
            saved_eff, self.effects = self.effects, []
            sb, sc = self.breaks, self.conts
            self.breaks, self.conts = [], []
            self.loopvars.append(kv)
            try:
                c = TRUE
                if target is not None:
                    self.assign(target, el, x, s.loc)
                elif cond is not None:
                    c = self.truth(self.ev(cond, x))
                    if c is FALSE:
                        c = FALSE
                x.pc = TRUE
                nrets = len(self.rets) if self.rets is not None else 0
                e = self.block(body, x)
                e = self.merge([e] + self.conts)
                if e is not None and inc is not None:
                    self.ev(inc, e)
                eff = self.effects
                br = self.breaks
                rets = []
                if self.rets is not None:
                    rets = self.rets[nrets:]
                    del self.rets[nrets:]
                return c, e, eff, br, rets
            finally:
                self.effects = saved_eff
                self.breaks, self.conts = sb, sc
                self.loopvars.pop()

        # counter of a for-loop: known induction before the first pass
        hav = {}
        if target is None and inc is not None:
            nm = d = None
            if inc.op == "incdec" and inc.a[1].op == "name":
                nm, d = inc.a[1].a[0], (ONE if inc.a[0] in ("++", "+", 1) else P(-1))
            elif inc.op == "aug" and inc.a[1].op == "name" and inc.a[0] in ("+", "-"):
                v = self.ev(inc.a[2], State(dict(st.env), dict(st.mem), TRUE)) if inc.a[2].op in ("num", "name") else None
                if isinstance(v, Poly) and (inc.a[2].op == "num" or inc.a[2].a[0] not in outer):
                    nm, d = inc.a[1].a[0], (v if inc.a[0] == "+" else -v)
            if nm in outer and isinstance(outer[nm], Poly) and nm not in self.assigned(body):
                induct[nm] = outer[nm] + P(kv) * d
                tr = self.trip(cond, st, induct, setup, hav, kv) if cond is not None else None
                if tr is not None:
                    hi = tr
                    self.bounds[kv] = (ZERO, hi - 1)
        # discover memory writes and further induction variables; every attempt numbers its objects alike,
        # and starts from what an earlier visit (in another attempt of an enclosing loop) found
        marks = self.seq.n, self.loopid.n, self.frames.n
        seed = self.loop_seed.get((id(s), lid))
        if seed is not None:
            for b, k in seed.items():
                if b in base_mem or b.kind not in ("cell", "local"):
                    hav[b] = k
        for attempt in range(6):
            self.seq.n, self.loopid.n, self.frames.n = marks
            outer_log, self.loadlog = self.loadlog, set()
            c, e, eff, br, rets = run(induct, hav)
            loaded = self.loadlog
            self.loadlog = outer_log
            if outer_log is not None:
                outer_log |= loaded
            writes = {}
            ends = [x for x in [e] + br + [r[1] for r in rets] if x is not None]
            for x in ends:
                for b, m in x.mem.items():
                    if m is not base_mem.get(b) and (b in base_mem or b.kind not in ("cell", "local")):
                        if b in hav and self._same_as_setup(m, b):
                            pass
                        writes[b] = writes.get(b, set()) | set(m.vals)
            newh = {b: k for b, k in writes.items() if b not in hav}
            # induction candidates
            newi = {}
            if e is not None:
                for nm, v0 in outer.items():
                    if nm in induct:
                        continue
                    v1 = e.env.get(nm)
                    ph = atom("phi", lid, nm)
                    if isinstance(v0, Poly) and isinstance(v1, Poly):
                        d = self.sub_phi(v1, ph)
                        if d is not None and d.t and not self.loop_variant(d, lid, kv):
                            newi[nm] = (v0, d)
                    elif isinstance(v0, Ptr) and isinstance(v1, Ptr) and v1.base is ph and not self.loop_variant(v1.off, lid, kv) and v1.off.t:
                        newi[nm] = (v0, v1.off)
                for b in list(hav) + list(newh):
                    if b.kind == "cell" and b not in meminduct and b in hav:
                        m0 = base_mem.get(b)
                        v0 = m0.vals.get("*") if m0 else None
                        v1 = e.mem[b].vals.get("*") if b in e.mem else None
                        ph = atom("phi", lid, b)
                        if isinstance(v0, Poly) and isinstance(v1, Poly):
                            d = self.sub_phi(v1, ph)
                            if d is not None and d.t and not self.loop_variant(d, lid, kv):
                                newi[b] = (v0, d)
            if not newh and not newi:
                break
            hav.update(newh)
            if not newi and not any(b in loaded or b.kind == "cell" for b in newh):
                break
            for nm, (v0, d) in newi.items():
                if isinstance(nm, Atom):
                    meminduct[nm] = v0 + P(kv) * d
                elif isinstance(v0, Ptr):
                    induct[nm] = Ptr(v0.base, v0.off + P(kv) * d)
                else:
                    induct[nm] = v0 + P(kv) * d
            # derive bound from the condition once induction is known
            if target is None and cond is not None and hi is None and induct:
                tr = self.trip(cond, st, induct, setup, hav, kv)
                if tr is not None:
                    hi = tr
                    self.bounds[kv] = (ZERO, hi - 1)
        else:
            self.seq.n, self.loopid.n, self.frames.n = marks
            c, e, eff, br, rets = run(induct, hav)
        self.loop_seed[(id(s), lid)] = {b: hav[b] for b in hav if b.kind != "cell"}
        lp = Loop(kv, ZERO, hi, ONE, st.pc, s.loc, ())
        lp.parallel = par
        lp.body = eff
        lp.iter = itv
        lp.cond = c
        lp.hasbreak = bool(br) or bool(rets)
        lp.induct = dict(induct)
        if hi is None:
            for x in [c]:
                pass
        self.emit(lp)
        # ---- state after the loop
        out = State(dict(st.env), dict(base_mem), st.pc)
        for nm, v0 in outer.items():
            v1 = e.env.get(nm) if e is not None else None
            ph = atom("phi", lid, nm)
            if nm in induct and hi is not None and not br:
                trip = hi if self.sign(hi) == "+" else P(atom("max0", hi, isint=True))
                out.env[nm] = self.subst_val(induct[nm], {kv: trip})
                lp.outer_writes[nm] = "induction"
                continue
            acc = None
            if isinstance(v0, (Poly, B)) and isinstance(v1, Poly):
                d = self.sub_phi(v1, ph)
                if d is not None:
                    if not d.t:
                        out.env[nm] = v0
                        continue
                    acc = self.num(v0) + P(atom("sum", kv, d, hi if hi is not None else ZERO, bool(br), isint=d.isint()))
                    lp.outer_writes[nm] = "sum"
            if acc is not None and not br:
                out.env[nm] = acc
                continue
            if v1 is not None and not self.mentions_phi(v1, lid) and isinstance(v1, (Poly, B, Ptr)) and not br and not self.mentions(v1, kv):
                # same value every iteration
                out.env[nm] = self.merge_val(self.nonempty(hi, lid), v1, v0)
                lp.outer_writes[nm] = "overwrite"
                continue
            if v1 == P(ph):
                out.env[nm] = v0
                continue
            a = atom("loopout", lid, nm, isint=isinstance(v0, Poly) and v0.isint())
            lp.outer_writes[nm] = "carried"
            lp.carried.append((nm, v0, v1))
            out.env[nm] = P(a) if not isinstance(v0, Ptr) else Ptr(a)
        # names first assigned in the loop keep an opaque value
        if e is not None:
            for nm, v in e.env.items():
                if nm not in out.env:
                    if self.lang == "py":
                        out.env[nm] = self.subst_val(v, {kv: hi - 1}) if hi is not None and not br and not self.mentions_phi(v, lid) and isinstance(v, (Poly, B, Tup)) else P(atom("loopout", lid, nm))
        if e is not None:
            for b, m in e.mem.items():
                if b.kind == "alloc" and b not in out.mem and b not in hav:
                    out.mem[b] = m
        for b in hav:
            m0 = base_mem.get(b)
            m1 = e.mem.get(b) if e is not None else None
            if b.kind == "cell":
                v0 = m0.vals.get("*") if m0 else None
                v1 = m1.vals.get("*") if m1 else None
                mm = MemObj()
                ph = atom("phi", lid, b)
                if b in meminduct and hi is not None and not br:
                    trip = hi if self.sign(hi) == "+" else P(atom("max0", hi, isint=True))
                    mm.vals["*"] = self.subst_val(meminduct[b], {kv: trip})
                else:
                    d = self.sub_phi(v1, ph) if isinstance(v1, Poly) and isinstance(v0, Poly) else None
                    if d is not None and not br:
                        mm.vals["*"] = v0 + P(atom("sum", kv, d, hi if hi is not None else ZERO, bool(br), isint=d.isint()))
                        lp.outer_writes[str(b)] = "sum"
                    else:
                        mm.vals["*"] = P(atom("loopout", lid, b, isint=self.cell_int.get(b, False)))
                        lp.outer_writes[str(b)] = "carried"
                out.mem[b] = mm
                continue
            mm = MemObj()
            mm.gen = ("l", lid)
            # element-wise definition  b[kv+c] = f(kv) unconditionally
            if m1 is not None and not br and hi is not None:
                ks = [k for k in m1.vals if isinstance(k, tuple)]
                if len(ks) == 1 and len(ks[0]) == 1 and isinstance(ks[0][0], Poly) and not self.mentions_phi(m1.vals[ks[0]], lid):
                    k0 = ks[0][0]
                    rest = k0 - P(kv)
                    val = m1.vals[ks[0]]
                    if not rest.t:
                        if not self.self_ref(val, b, k0):
                            mm.maps = [(kv, ZERO, hi, val)]
                            mm.gen = 0
                            mm.prev = m0
                    elif self.cut is not None and kv not in atoms_deep(rest) and not self.self_ref(val, b, k0):
                        mm.maps = [(kv, rest, rest + hi, self.subst_val(val, {kv: P(kv) - rest}))]
                # attribute-like keys overwritten with invariant values
            if m1 is not None:
                for k, v in m1.vals.items():
                    if isinstance(k, str) and not self.mentions_phi(v, lid) and not self.mentions(v, kv):
                        mm.vals[k] = v
            out.mem[b] = mm
        if rets:
            # returns from inside the loop: opaque condition
            rc = var_b(atom("truth", atom("loopret", lid)))
            v = rets[0][0] if len(rets) == 1 else P(atom("loopretval", lid))
            if self.mentions(v, kv):
                v = P(atom("loopretval", lid))
            self.rets.append((v, State({}, dict(out.mem), st.pc & rc)))
            out.pc = st.pc & ~rc
        if cond is not None and hi is None and cond.op in ("num", "bool") and not br and e is None and not rets:
            return None
        if orelse:
            out = self.block(orelse, out)
        return out

    def self_ref(self, val, b, key=None):
        for a in atoms_deep(val):
            if a.kind == "load" and a.args[0] is b and not (self.cut is not None and a.args[1] == (key,)):
                return True
        return False

    def _same_as_setup(self, m, b):
        return False

    def loop_gen(self, b, m0, lid, keys):
        """generation tag for memory of base b at the start of an iteration.

        The value read in an iteration is named as of the iteration start; the
        tag is left unchanged for array elements so that element values read in
        one iteration keep their pre-loop names (iterations are independent of
        each other where that matters, which the parallel-loop analysis checks
        separately)."""
        return (m0.gen if m0 is not None else 0) if self.iter_independent else ("li", lid, m0.gen if m0 is not None else 0)

    iter_independent = True

    def nonempty(self, hi, lid):
        if hi is None:
            return var_b(atom("truth", atom("loopnonempty", lid)))
        if self.sign(hi - 1) == "+":
            return TRUE
        return lt0(-hi)

    def mentions_phi(self, v, lid):
        return any(a.kind == "phi" and a.args[0] == lid for a in atoms_deep(v))

    def loop_variant(self, d, lid, kv):
        for a in atoms_deep(d):
            if a is kv or (a.kind == "phi" and a.args[0] == lid) or (a.kind in ("call", "out", "opaque") and a.args and isinstance(a.args[-1], int)):
                return True
            if a.kind == "load" or a.kind == "attr":
                return True
        return False

    def trip(self, cond, st, induct, setup, hav, kv):
        x = setup(induct, hav)
        saved, self.effects = self.effects, []
        try:
            c = self.truth(self.ev(cond, x))
        finally:
            self.effects = saved
        # c must be  a*kv + b < 0  (possibly conjoined with more)
        if c.var is None:
            return None
        cs = cubes(c)
        if len(cs) != 1:
            return None
        for a, v in cs[0].items():
            if a.kind in ("lt", "le", "eq"):
                p = a.args[0]
                co = ZERO
                rest = ZERO
                ok = True
                for m, cc in p.t.items():
                    md = dict(m)
                    if kv.id in md:
                        if md[kv.id] != 1:
                            ok = False
                            break
                        co = co + Poly({tuple((q, e) for q, e in m if q != kv.id): cc})
                    else:
                        rest = rest + Poly({m: cc})
                if not ok or not co.t:
                    continue
                k = co.const()
                if k is None:
                    continue
                if a.kind == "lt" and v and k > 0:      # k*kv + rest < 0
                    if k == 1:
                        return -rest
                    return P(atom("ceildiv", -rest, P(k), isint=True))
                if a.kind == "lt" and not v and k < 0:  # k*kv + rest >= 0 -> kv <= rest/-k
                    if k == -1:
                        return rest + 1
                if a.kind == "le" and v and k == 1:
                    return -rest + 1
                if a.kind == "le" and not v and k == -1:  # -kv+rest > 0
                    return rest
                if a.kind == "eq" and not v and k in (1, -1):
                    return -rest if k == 1 else rest
        return None

    # -------------------------------------------------------------- top level
    def run_func(self, fn, args=None, kw=None, self_val=None, env=None, defaults=False):
        """analyse fn with symbolic arguments; returns (effects, return value, final state)"""
        self.lang = fn.lang
        self.closure = None
        self.cur_func = fn
        self.effects = []
        self.mod = fn.module
        st = State({}, {}, TRUE)
        vals = []
        for i, (name, ty, d) in enumerate(fn.params):
            if defaults and d is not None and not (args and name in args):
                self.lang, self.closure, self.mod = fn.lang, None, fn.module
                vals.append(self.ev(d, st))
            elif args and name in args:
                vals.append(args[name])
            elif name == "self" and self_val is not None:
                vals.append(self_val)
            else:
                a = atom("sym", name, isint=is_int_type(ty) if fn.lang == "c" else False)
                vals.append(Ptr(a) if fn.lang == "c" and ty and "*" in ty else P(a))
                if fn.lang == "py" and ty and self.pkg:
                    t = self.ann_type(fn.module, ty) if fn.module else None
                    if t is not None:
                        self.types[a] = t
        kwv = []
        for name, ty, d in fn.kwonly:
            if args and name in args:
                kwv.append((name, args[name]))
        r = self.inline(FuncV(fn), vals, kwv, st, None)
        self.final = st
        self.last_mem = st.mem
        return self.effects, r, st


def const_key(k):
    """dictionary keys whose identity is known"""
    if isinstance(k, Tup):
        return all(const_key(x) for x in k.items)
    return isinstance(k, (str, EnumV)) or isinstance(k, Poly) and k.const() is not None


def list_index(items, x):
    """position of the first item equal to x: a number, a conditional number, or None when undecided"""
    conds = []
    for y in items:
        if isinstance(x, Poly) and isinstance(y, Poly):
            conds.append(alg.eq0(x - y))
        elif type(x) is type(y) and (isinstance(x, str) or isinstance(x, EnumV)):
            conds.append(TRUE if x == y else FALSE)
        elif x is y:
            conds.append(TRUE)
        else:
            return None
    if not any(c is TRUE for c in conds):
        return None
    k = next(i for i, c in enumerate(conds) if c is TRUE)
    r = P(k)
    for i in range(k - 1, -1, -1):
        r = ite(conds[i], P(i), r)
    return r


_adeep = {}


def _children(y):
    if isinstance(y, Poly):
        return y.atoms()
    if isinstance(y, B):
        return b_atoms(y)
    if isinstance(y, Ptr):
        return (y.base, y.off)
    if isinstance(y, (tuple, list)):
        return y
    if isinstance(y, Tup):
        return y.items
    if isinstance(y, SliceV):
        return (y.a, y.b, y.c)
    if isinstance(y, MethV):
        return (y.recv,)
    if isinstance(y, DictV):
        return list(y.items.values())
    if isinstance(y, FuncV):
        return (y.self_,) if y.self_ is not None else ()
    return ()


def _atom_deep(a):
    r = _adeep.get(a)
    if r is None:
        acc = {a}
        for z in a.args:
            acc |= atoms_deep(z)
        r = _adeep[a] = frozenset(acc)
    return r


def atoms_deep(v):
    """all atoms reachable inside a value"""
    if isinstance(v, Atom):
        return _atom_deep(v)
    if isinstance(v, (Poly, B)):
        k = ("v", v)
        r = _adeep.get(k)
        if r is None:
            acc = set()
            for z in _children(v):
                acc |= _atom_deep(z)
            r = _adeep[k] = frozenset(acc)
        return r
    acc = set()
    for z in _children(v):
        acc |= atoms_deep(z)
    return acc
