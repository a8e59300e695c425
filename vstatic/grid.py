"""Geometry specification shared by the guard/current synchronisation checks."""
from .world import *
from .regions import *
from . import alg

EFIELDS = ("ex", "ey", "ez", "bx", "by", "bz")
CURRENTS = ("jx", "jy", "jz", "rho")


def grid_facts(it, n, ng):
    """n: list of polys (nx, ny[, nz]); ng poly.  Domain: ng >= 1, n_a >= ng."""
    f = {}
    ga = ng.as_atom()
    if ga is None:
        raise Broken("guard width is not a plain value: %s" % ng)
    ga.isint = True
    f[ga] = 1 + slack("g")
    for i, p in enumerate(n):
        a = p.as_atom()
        if a is None:
            raise Broken("patch size is not a plain value: %s" % p)
        a.isint = True
        f[a] = 1 + slack("g") + slack("n%d" % i)
    it.nonneg.update(f)
    return f


class GridRegions(Regions):
    def sign(self, p):
        return alg.sign_affine(p, self.bounds, self.it.nonneg)


def strides(n, ng):
    s = [ONE]
    for p in reversed(n[1:]):
        s.insert(0, s[0] * (p + 2 * ng))
    return s


def box_desc(R, n, ng, regs):
    """regs: per axis list of (start offsets tuple.., count); starts are physical
    coordinates in [-ng, n+ng) and must not straddle zero"""
    st = strides(n, ng)
    k = len(regs[0][0])
    offs = [ZERO] * k
    dims = []
    for a, (starts, cnt) in enumerate(regs):
        for i, s in enumerate(starts):
            sg = R.sign(s)
            if sg == "-":
                s = s + n[a] + 2 * ng
            elif sg != "+":
                raise Broken("region start %s has no sign" % s)
            offs[i] = offs[i] + s * st[a]
        dims.append((tuple([st[a]] * k), cnt))
    return R.canon(tuple(offs), dims)


def guard_copy_spec(R, n, ng, d):
    """guard strip of a patch in direction d <- interior strip of the neighbour in direction d"""
    regs = []
    for a, s in enumerate(d):
        if s < 0:
            regs.append(((-ng, n[a] - ng), ng))
        elif s > 0:
            regs.append(((n[a], ZERO), ng))
        else:
            regs.append(((ZERO, ZERO), n[a]))
    return box_desc(R, n, ng, regs)


def current_spec(R, n, ng, d):
    """interior strip += strip that the neighbour in direction d deposited in its guard cells"""
    regs = []
    for a, s in enumerate(d):
        if s < 0:
            regs.append(((ZERO, n[a]), ng))
        elif s > 0:
            regs.append(((n[a] - ng, -ng), ng))
        else:
            regs.append(((ZERO, ZERO), n[a]))
    return box_desc(R, n, ng, regs)


def part(desc, *which):
    """keep some of the simultaneous index maps of a descriptor"""
    offs, dims = desc
    return (tuple(offs[i] for i in which), tuple((tuple(s[i] for i in which), n) for s, n in dims))


def patch_of(base, container):
    """npdata(container[k].<path>) -> (k, path tuple) or None"""
    if base.kind != "npdata":
        return None
    path = []
    a = base.args[0]
    while isinstance(a, Atom) and a.kind == "attr":
        path.insert(0, a.args[1])
        a = a.args[0]
    if isinstance(a, Atom) and a.kind == "load" and a.args[0] is container and len(a.args[1]) == 1:
        return a.args[1][0], tuple(path)
    return None


def np_load(container, k, path, idx):
    a = atom("load", container, (k,))
    for p in path:
        a = atom("attr", a, p)
    return P(atom("load", atom("npdata", a), (idx,), isint=True))
