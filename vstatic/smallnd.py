"""Arrays of two or three axes with concrete shapes, for Interp.nd (a dict, None: off): atom -> (cells, shape, index).

`cells` is a one-dimensional array of smallnp; `index` lists its element for every position in row order, so that
basic slicing shares storage as numpy's views do."""
from .alg import *
from . import smallnp
import itertools


def get(it, v):
    if getattr(it, "nd", None) is None or not isinstance(v, Poly):
        return None
    a = v.as_atom()
    return it.nd.get(a) if a is not None else None


def make(it, st, shape, xs):
    """new array holding xs in row order"""
    old = smallnp.LIMIT
    smallnp.LIMIT = 100000
    cells = smallnp.new(it, st, xs)
    smallnp.LIMIT = old
    return view(it, st, cells, shape, list(range(len(xs))))


def view(it, st, cells, shape, index):
    from .interp import MemObj
    a = it.new_alloc()
    st.mem[a] = MemObj()
    it.nd[a] = (cells, tuple(shape), index)
    return P(a)


def values(it, st, v):
    r = get(it, v)
    if r is None:
        return None
    return [it.load(st, r[0], (P(i),)) for i in r[2]]


def shape_of(v):
    """constant shape in a tuple of at least two lengths"""
    from .interp import Tup
    if not isinstance(v, Tup) or len(v.items) < 2:
        return None
    out = []
    for x in v.items:
        c = x.const() if isinstance(x, Poly) else None
        if c is None or c != int(c):
            return None
        out.append(int(c))
    return tuple(out)


def axes(k, shape, loc):
    """positions per axis, and which axes stay; None: not understood"""
    from .interp import SliceV, Tup, NONE
    ks = list(k.items) if isinstance(k, Tup) else [k]
    if any(str(x) == "Ellipsis" for x in ks):
        j = [i for i, x in enumerate(ks) if str(x) == "Ellipsis"][0]
        ks = ks[:j] + [SliceV(NONE, NONE, NONE)] * (len(shape) - len(ks) + 1) + ks[j + 1:]
    if len(ks) > len(shape):
        return None
    ks += [SliceV(NONE, NONE, NONE)] * (len(shape) - len(ks))
    pos, keep = [], []
    for x, n in zip(ks, shape):
        if isinstance(x, SliceV):
            c = []
            for y in (x.a, x.b, x.c):
                if y is NONE:
                    c.append(None)
                elif isinstance(y, Poly) and y.const() is not None:
                    c.append(int(y.const()))
                else:
                    return None
            pos.append(list(range(n))[slice(*c)])
            keep.append(True)
        elif isinstance(x, Poly) and x.const() is not None:
            i = int(x.const())
            if not -n <= i < n:
                raise smallnp.OutOfRange("index %d of an axis of %d cells is used" % (i, n), loc)
            pos.append([i % n])
            keep.append(False)
        else:
            return None
    return pos, keep


def select(r, pos):
    _, shape, index = r
    out = []
    for c in itertools.product(*pos):
        f = 0
        for i, n in zip(c, shape):
            f = f * n + i
        out.append(index[f])
    return out


def getitem(it, st, b, k, loc=None):
    r = get(it, b)
    if r is None:
        return None
    ax = axes(k, r[1], loc)
    if ax is None:
        return None
    pos, keep = ax
    sel = select(r, pos)
    shape = [len(p) for p, q in zip(pos, keep) if q]
    if not shape:
        return it.load(st, r[0], (P(sel[0]),))
    return view(it, st, r[0], shape, sel)


def setitem(it, st, b, k, v, loc):
    r = get(it, b)
    if r is None:
        return False
    ax = axes(k, r[1], loc)
    if ax is None:
        return False
    pos, keep = ax
    sel = select(r, pos)
    shape = tuple(len(p) for p, q in zip(pos, keep) if q)
    rv = get(it, v)
    if rv is None:
        xs = [v] * len(sel)
        if smallnp.arr(it, v) and len(shape) == 1:
            xs = smallnp.items(it, st, v)
            if len(xs) != len(sel):
                raise smallnp.OutOfRange("%d values stored into %d cells" % (len(xs), len(sel)), loc)
    else:
        vs = values(it, st, v)
        if rv[1] == shape or tuple(n for n in rv[1] if n != 1) == tuple(n for n in shape if n != 1):
            xs = vs
        elif len(vs) == 1:
            xs = vs * len(sel)
        else:
            raise smallnp.OutOfRange("values of shape %s are stored into cells of shape %s" % (rv[1], shape), loc)
    for i, x in zip(sel, xs):
        smallnp.put(it, st, r[0], i, x, loc)
    return True


def binop(it, st, op, a, b, n=None):
    ra, rb = get(it, a), get(it, b)
    if ra is None and rb is None:
        return None
    xa = values(it, st, a) if ra else None
    xb = values(it, st, b) if rb else None
    if ra and rb and ra[1] != rb[1]:
        raise smallnp.OutOfRange("arrays of shapes %s and %s are combined" % (ra[1], rb[1]), getattr(n, "loc", None))
    shape = (ra or rb)[1]
    k = len(xa or xb or [])
    return make(it, st, shape, [it.binop(op, (xa[i] if ra else a), (xb[i] if rb else b), n) for i in range(k)])


def attr(it, v, name):
    from .interp import Tup
    r = get(it, v)
    if r is None:
        return None
    size = 1
    for n in r[1]:
        size *= n
    return {"size": P(size), "shape": Tup([P(n) for n in r[1]]), "ndim": P(len(r[1]))}.get(name)


def call(it, st, name, av, kv, node):
    short = name.split(".")[-1]
    kw = dict(kv)
    if getattr(it, "nd", None) is None:
        return None
    if short in ("zeros", "empty", "ones", "full"):
        sh = shape_of(av[0] if av else kw.get("shape"))
        if sh is None:
            return None
        v = {"zeros": ZERO, "ones": ONE}.get(short)
        if short == "full":
            v = av[1] if len(av) > 1 else kw.get("fill_value")
        n = 1
        for k in sh:
            n *= k
        return make(it, st, sh, [v if v is not None else P(it.fresh("empty")) for _ in range(n)])
    if av and get(it, av[0]) is not None:
        r = get(it, av[0])
        if short in ("zeros_like", "empty_like", "ones_like"):
            return call(it, st, short[:-5], [attr(it, av[0], "shape")], kv, node)
        if short in ("asarray", "ascontiguousarray") and len(r[2]) == len(values(it, st, av[0])):
            return av[0] if short == "asarray" else make(it, st, r[1], values(it, st, av[0]))
        if short in ("array", "copy"):
            return make(it, st, r[1], values(it, st, av[0]))
        if short == "len":
            return P(r[1][0])
        if short == "copyto" and len(av) == 2:
            from .interp import SliceV, NONE, Tup
            setitem(it, st, av[0], Tup([]), av[1], getattr(node, "loc", None))
            return NONE
    return None


def method(it, st, recv, mname, av, kv, node):
    r = get(it, recv)
    if r is None:
        return None
    if mname in ("copy", "astype"):
        return make(it, st, r[1], values(it, st, recv))
    if mname == "fill" and len(av) == 1:
        from .interp import NONE
        for i in r[2]:
            smallnp.put(it, st, r[0], i, av[0], getattr(node, "loc", None))
        return NONE
    return None
