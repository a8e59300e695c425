"""Stores to multi-dimensional arrays, expressed per cell of a canonical index box."""
from .regions import *
from . import alg
from .alg import *


def I(k):
    return P(atom("cell", k, isint=True))


class Cell:
    """one store statement: base[I0,I1,..] = val for I_k in ranges[k] (inclusive lo, exclusive hi)"""

    def __init__(self, base, ranges, val, pc, extra, acc):
        self.base, self.ranges, self.val, self.pc, self.extra, self.acc = base, ranges, val, pc, extra, acc
        self.order = acc.order
        self.loc = acc.loc

    def key(self):
        return tuple(I(k) for k in range(len(self.ranges)))


def nd_store(R, a):
    key = a.args[0] if a.idx is None else (a.idx,)
    if not (isinstance(key, tuple) and all(isinstance(k, Poly) for k in key)):
        raise Broken("store with index %s at %s" % (key, a.loc))
    dims = {d.var: d for d in a.dims}
    ranges, mp = [], {}
    for ax, p in enumerate(key):
        vs = [d.var for d in a.dims if R.coeff(p, d.var) is None or R.coeff(p, d.var).t]
        if not vs:
            ranges.append((p, p + 1))
            continue
        if len(vs) != 1:
            raise Broken("index %s depends on several loops at %s" % (p, a.loc))
        v = vs[0]
        co = R.coeff(p, v)
        if co not in (ONE, P(-1)) or v in mp:
            raise Broken("index %s is not a unit-stride walk at %s" % (p, a.loc))
        rest = p - co * P(v)
        lo, hi = (rest, rest + dims[v].n) if co == ONE else (rest - dims[v].n + 1, rest + 1)
        ranges.append((lo, hi))
        mp[v] = co * (I(ax) - rest)
    extra = [d for d in a.dims if d.var not in mp]
    for d in extra:
        for lo, hi in ranges:
            if d.var in atoms_deep((lo, hi)):
                raise Broken("loop bounds depend on an outer loop at %s" % (a.loc,))
    b = R.subst_access(a, mp)
    return Cell(b.base, ranges, b.val, b.pc, extra, a)


def nd_stores(R, eff, want):
    return [nd_store(R, a) for a in R.collect(eff, want)]


def strip_self(val, base, key):
    """val = n*base[key] + rest; returns (n, rest)"""
    n, rest = ZERO, {}
    for m, c in val.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = alg._atom_list[m[0][0]]
            if a.kind == "load" and a.args[0] is base and a.args[1] == key:
                n = n + c
                continue
        rest[m] = c
    return n, Poly(rest)


def merge_cells(cells):
    """join stores of the same value over adjacent ranges along one axis"""
    cells = list(cells)
    again = True
    while again:
        again = False
        for i in range(len(cells)):
            for j in range(len(cells)):
                if i == j:
                    continue
                a, b = cells[i], cells[j]
                if a.base is not b.base or a.val != b.val or not alg.b_equiv(a.pc, b.pc) or len(a.ranges) != len(b.ranges):
                    continue
                diff = [k for k in range(len(a.ranges)) if a.ranges[k] != b.ranges[k]]
                if len(diff) == 1 and a.ranges[diff[0]][1] == b.ranges[diff[0]][0]:
                    k = diff[0]
                    a.ranges[k] = (a.ranges[k][0], b.ranges[k][1])
                    del cells[j]
                    again = True
                    break
            if again:
                break
    return cells


def show_ranges(r):
    return " x ".join("[%s,%s)" % x for x in r)
