"""Element-wise meaning of numpy operations on arrays of small known length (Interp.small).

An array is an allocation (one per array object, so references share it); its elements live in memory under constant
indices. Operations whose result shape is not decided give None and fall back to the general treatment."""
from .alg import *
from . import alg

LIMIT = 96


class Undecided(Exception):
    pass


class OutOfRange(Exception):
    """an element outside an array is read or written"""

    def __init__(self, msg, loc=None):
        Exception.__init__(self, msg)
        self.msg, self.loc = msg, loc


def arr(it, v):
    if not isinstance(v, Poly):
        return None
    a = v.as_atom()
    if a is None or a.kind != "alloc":
        return None
    n = it.alens.get(a)
    n = n.const() if isinstance(n, Poly) else None
    if n is None or n > LIMIT or n != int(n):
        return None
    return a, int(n)


def items(it, st, v):
    r = arr(it, v)
    return None if r is None else [it.load(st, v, (P(i),)) for i in range(r[1])]


def new(it, st, xs):
    from .interp import MemObj
    a = it.new_alloc()
    m = MemObj()
    for i, x in enumerate(xs):
        m.vals[(P(i),)] = x
    it.alens[a] = P(len(xs))
    st.mem[a] = m
    return P(a)


def put(it, st, v, i, x, loc):
    it.store(st, v, (P(i),), x, loc)


def seq(it, st, v):
    """elements of an array or a list"""
    from .interp import Tup
    if isinstance(v, Tup):
        return list(v.items)
    return items(it, st, v)


def decided(x):
    if x is TRUE or x is FALSE:
        return x is TRUE
    if isinstance(x, Poly) and x.const() is not None:
        return bool(x.const())
    return None


def pick(it, st, n, k):
    """positions selected by a subscript, or None"""
    from .interp import SliceV, Tup, NONE
    if isinstance(k, SliceV):
        c = []
        for y in (k.a, k.b, k.c):
            if y is NONE:
                c.append(None)
            elif isinstance(y, Poly) and y.const() is not None:
                c.append(int(y.const()))
            else:
                return None
        return list(range(n))[slice(*c)]
    xs = seq(it, st, k) if isinstance(k, (Tup, Poly)) else None
    if xs is None:
        return None
    if all(isinstance(x, B) for x in xs) and len(xs) == n and xs:
        d = [decided(x) for x in xs]
        if None in d:
            return None
        return [i for i in range(n) if d[i]]
    out = []
    for x in xs:
        if not isinstance(x, Poly) or x.const() is None:
            return None
        i = int(x.const())
        if not -n <= i < n:
            return None
        out.append(i % n)
    return out


def table_get(it, b, k, loc):
    """read of a table of known shape (Interp.tables: atom -> (shape, entry function))"""
    if getattr(k, "items", None) == [] or getattr(k, "items", None) == ():
        return b
    a = b.as_atom()
    t = it.tables.get(a) if a is not None else None
    if t is None:
        return None
    shape, entry = t
    ks = list(k.items) if hasattr(k, "items") else [k]
    if len(ks) != len(shape):
        return None
    out = []
    for x, n in zip(ks, shape):
        c = x.const() if isinstance(x, Poly) else None
        if c is None:
            from .interp import AnalysisError
            raise AnalysisError("index %s of the table is not decided" % (x,))
        if c.denominator != 1 or not -n <= c < n:
            raise OutOfRange("entry %s of a table axis of %d entries is read" % (c, n), loc)
        out.append(int(c) % n)
    return entry(*out)


def getitem(it, st, b, k, loc=None):
    if getattr(it, "nd", None):
        from . import smallnd
        r = smallnd.getitem(it, st, b, k, loc)
        if r is not None:
            return r
    if it.tables:
        r = table_get(it, b, k, loc)
        if r is not None:
            return r
    r = arr(it, b)
    if r is None:
        return None
    n = r[1]
    if isinstance(k, Poly) and k.const() is not None:
        i = int(k.const())
        if -n <= i < n:
            return it.load(st, b, (P(i % n),))
        raise OutOfRange("element %d of an array of %d elements is read" % (i, n), loc)
    p = pick(it, st, n, k)
    if p is None:
        return None
    xs = items(it, st, b)
    return new(it, st, [xs[i] for i in p])


def setitem(it, st, b, k, v, loc):
    if getattr(it, "nd", None):
        from . import smallnd
        if smallnd.setitem(it, st, b, k, v, loc):
            return True
    r = arr(it, b)
    if r is None:
        return False
    n = r[1]
    if isinstance(k, Poly) and k.const() is not None:
        i = int(k.const())
        if -n <= i < n:
            put(it, st, b, i % n, v, loc)
            return True
        raise OutOfRange("element %d of an array of %d elements is written" % (i, n), loc)
    p = pick(it, st, n, k)
    if p is None:
        return False
    xs = seq(it, st, v) if not isinstance(v, B) else None
    for j, i in enumerate(p):
        put(it, st, b, i, v if xs is None else xs[j] if len(xs) == len(p) else xs[0], loc)
    return True


def zipped(it, st, a, b):
    from .interp import Tup
    x, y = items(it, st, a), items(it, st, b)
    if x is None and y is None:
        return None
    if x is None:
        x = seq(it, st, a)
        x = [a] * len(y) if x is None else x
    if y is None:
        y = seq(it, st, b)
        y = [b] * len(x) if y is None else y
    if len(x) != len(y):
        if len(x) == 1:
            x = x * len(y)
        elif len(y) == 1:
            y = y * len(x)
        else:
            raise Undecided("arrays of %d and %d elements are combined" % (len(x), len(y)))
    return list(zip(x, y))


def binop(it, st, op, a, b, n=None):
    if getattr(it, "nd", None):
        from . import smallnd
        r = smallnd.binop(it, st, op, a, b, n)
        if r is not None:
            return r
    z = zipped(it, st, a, b)
    return None if z is None else new(it, st, [it.binop(op, x, y, n) for x, y in z])


def compare(it, st, op, a, b):
    if op not in ("<", "<=", ">", ">=", "==", "!="):
        return None
    z = zipped(it, st, a, b)
    return None if z is None else new(it, st, [it.compare(op, x, y, st) for x, y in z])


def unary(it, st, op, v):
    xs = items(it, st, v)
    if xs is None:
        return None
    if op == "-":
        return new(it, st, [-it.num(x) for x in xs])
    if op in ("~", "!"):
        return new(it, st, [~it.truth(x) if isinstance(x, B) else P(atom("invert", it.num(x))) for x in xs])
    return v


def total(it, xs):
    r = ZERO
    for x in xs:
        r = r + (ite(x, ONE, ZERO) if isinstance(x, B) else it.num(x))
    return r


UFUNC = {"sqrt", "exp", "log", "sin", "cos", "tan", "abs", "absolute", "fabs", "floor", "isnan", "isfinite", "arctan", "arccos", "square", "int64", "uint64", "uint32", "float64", "array", "asarray", "ascontiguousarray"}


def const_len(v):
    from .interp import Tup
    if isinstance(v, Tup) and len(v.items) == 1:
        v = v.items[0]
    c = v.const() if isinstance(v, Poly) else None
    return None if c is None or not 0 <= c <= LIMIT else int(c)


def call(it, st, name, av, kv, node):
    """library call; None: not handled"""
    if getattr(it, "nd", None) is not None:
        from . import smallnd
        r = smallnd.call(it, st, name, av, kv, node)
        if r is not None:
            return r
    from .interp import Tup
    short = name.split(".")[-1]
    kw = dict(kv)
    if short in ("zeros", "empty", "ones", "full"):
        n = const_len(av[0] if av else kw.get("shape"))
        if n is None:
            return None
        v = {"zeros": ZERO, "ones": ONE}.get(short)
        if short == "full":
            v = av[1] if len(av) > 1 else kw.get("fill_value")
        xs = [v if v is not None else P(it.fresh("empty")) for _ in range(n)]
        if short in ("zeros", "ones") and "bool" in str(kw.get("dtype", av[1] if len(av) > 1 else "")):
            xs = [FALSE if short == "zeros" else TRUE] * n
        return new(it, st, xs)
    if short in ("zeros_like", "empty_like", "ones_like", "full_like") and av:
        r = arr(it, av[0])
        if r is None:
            return None
        v = {"zeros_like": ZERO, "ones_like": ONE}.get(short)
        if short == "full_like":
            v = av[1] if len(av) > 1 else kw.get("fill_value")
        return new(it, st, [v if v is not None else P(it.fresh("empty")) for _ in range(r[1])])
    if short == "arange" and av and all(isinstance(x, Poly) for x in av):
        lo, hi, s = (ZERO, av[0], ONE) if len(av) == 1 else (av[0], av[1], av[2] if len(av) > 2 else ONE)
        n = (hi - lo).const()
        if s != ONE or n is None or not 0 <= n <= LIMIT:
            return None
        return new(it, st, [lo + i for i in range(int(n))])
    if short in ("array", "asarray") and len(av) >= 1 and isinstance(av[0], Tup) and not any(isinstance(x, Tup) for x in av[0].items):
        return new(it, st, av[0].items)
    if short == "array" and av and arr(it, av[0]):
        return new(it, st, items(it, st, av[0]))
    if short in ("logical_not", "invert") and len(av) == 1:
        return unary(it, st, "~", av[0])
    if short in ("logical_and", "logical_or", "bitwise_and", "bitwise_or", "add", "subtract", "multiply", "divide") and len(av) == 2:
        return binop(it, st, {"logical_and": "&", "logical_or": "|", "bitwise_and": "&", "bitwise_or": "|", "add": "+", "subtract": "-", "multiply": "*", "divide": "/"}[short], *av)
    if short == "argsort" and av:
        xs = items(it, st, av[0])
        if xs is not None:
            d = [decided(x) if not isinstance(x, Poly) else x.const() for x in xs]
            if None not in d:
                return new(it, st, [P(i) for i in sorted(range(len(xs)), key=lambda i: d[i])])
    if short == "where" and len(av) == 1 or short in ("nonzero", "flatnonzero", "argwhere") and len(av) == 1:
        xs = items(it, st, av[0])
        if xs is None:
            return None
        d = [decided(x) for x in xs]
        if None in d:
            return None
        r = new(it, st, [P(i) for i in range(len(xs)) if d[i]])
        return r if short in ("flatnonzero", "argwhere") else Tup([r])
    if short == "where" and len(av) == 3:
        c = items(it, st, av[0])
        if c is None:
            return None
        col = [c]
        for v in av[1:]:
            xs = items(it, st, v)
            col.append(xs if xs is not None else [v] * len(c))
        return new(it, st, [it.merge_val(it.truth(x), y, z) for x, y, z in zip(*col)])
    if short in ("sum", "count_nonzero", "nansum") and len(av) == 1 and arr(it, av[0]):
        return total(it, items(it, st, av[0]))
    if short in ("any", "all") and len(av) == 1 and arr(it, av[0]):
        return method(it, st, av[0], short, [], [], node)
    if short in ("concatenate", "hstack", "append") and av:
        parts = av[0].items if isinstance(av[0], Tup) and short != "append" else av
        xs = [seq(it, st, p) for p in parts]
        if any(x is None for x in xs):
            return None
        return new(it, st, [y for x in xs for y in x])
    if short == "cumsum" and len(av) == 1 and arr(it, av[0]):
        out, s = [], ZERO
        for x in items(it, st, av[0]):
            s = s + total(it, [x])
            out.append(s)
        return new(it, st, out)
    if short == "copy" and len(av) == 1 and arr(it, av[0]):
        return new(it, st, items(it, st, av[0]))
    if short == "len" and len(av) == 1 and arr(it, av[0]):
        return P(arr(it, av[0])[1])
    if short in UFUNC and len(av) == 1 and arr(it, av[0]):
        if short in ("asarray", "ascontiguousarray"):
            return av[0]
        return new(it, st, [it.call_ext(name, [x], kv, st, node) if short not in ("int64", "uint64", "uint32", "float64") else x for x in items(it, st, av[0])])
    return None


def method(it, st, recv, mname, av, kv, node):
    if getattr(it, "nd", None):
        from . import smallnd
        r = smallnd.method(it, st, recv, mname, av, kv, node)
        if r is not None:
            return r
    r = arr(it, recv)
    if r is None:
        return None
    a, n = r
    xs = items(it, st, recv)
    if mname == "argsort":
        return call(it, st, "argsort", [recv] + list(av), kv, node)
    kw = dict(kv)
    loc = getattr(node, "loc", None)
    from .interp import NONE
    if mname == "sum" and not av:
        return total(it, xs)
    if mname in ("any", "all") and not av:
        v = FALSE if mname == "any" else TRUE
        for x in xs:
            v = (v | it.truth(x)) if mname == "any" else (v & it.truth(x))
        return v
    if mname in ("copy", "flatten", "astype"):
        return new(it, st, xs)
    if mname in ("ravel", "view", "reshape"):
        return recv
    if mname == "fill" and len(av) == 1:
        for i in range(n):
            put(it, st, recv, i, av[0], loc)
        return NONE
    if mname == "resize" and av:
        k = const_len(av[0])
        if k is None:
            return None
        it.alens[a] = P(k)
        for i in range(n, k):
            put(it, st, recv, i, FALSE if xs and isinstance(xs[0], B) else ZERO, loc)
        return NONE
    if mname in ("max", "min") and not av and xs:
        c = [x.const() if isinstance(x, Poly) else None for x in xs]
        if None not in c:
            return P(max(c) if mname == "max" else min(c))
    if mname == "nonzero" and not av:
        return call(it, st, "nonzero", [recv], [], node)
    if mname == "tolist" and not av:
        from .interp import Tup
        return Tup(xs, "list")
    if mname == "item" and not av and n == 1:
        return xs[0]
    return None


def attr(it, v, name):
    from .interp import Tup
    if getattr(it, "nd", None):
        from . import smallnd
        r = smallnd.attr(it, v, name)
        if r is not None:
            return r
    r = arr(it, v)
    if r is None:
        return None
    if name == "size":
        return P(r[1])
    if name == "shape":
        return Tup([P(r[1])])
    if name == "ndim":
        return ONE
    if name == "flat":
        return v
    return None
