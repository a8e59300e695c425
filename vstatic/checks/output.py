"""P30 gathered and saved fields.

The gather and the writers run over small grids of patches with every cell a distinct symbol; the patches are spread
over ranks in any order, messages are matched by tag as buffered sends. The gathered array, and the regions written to
the file, are compared cell by cell with the symbol of the owning patch."""
from ..world import *
from ..interp import *
from .. import alg, smallnp, smallnd
from .topology import run_jobs, fresh
import itertools

AX = "xyz"


def S(name):
    return sym(name)


class Lay:
    """grid of patches: shape, cells per patch, guards, rank of each patch; list order per rank given by `order`"""

    def __init__(self, shape, per, ng, ranks, flip=False):
        self.shape, self.per, self.ng, self.ranks, self.flip = tuple(shape), tuple(per), ng, tuple(ranks), flip
        self.dim = len(shape)
        self.cells = list(itertools.product(*[range(n) for n in shape]))
        self.n = tuple(a * b for a, b in zip(shape, per))
        self.size = max(ranks) + 1

    def of(self, rank):
        ks = [k for k in range(len(self.cells)) if self.ranks[k] == rank]
        return ks[::-1] if self.flip else ks

    def text(self):
        return "%s patches of %s cells on ranks %s" % ("x".join(map(str, self.shape)), "x".join(map(str, self.per)), list(self.ranks))


def cell(comp, k, ij):
    return "%s_%d_%s" % (comp, k, "_".join(map(str, ij)))


def prep(w, L, comps):
    it = fresh(w)
    it.small = True
    it.nd = {}
    it.exact = {atom("sym", "s%d" % r) for r in range(L.size)}
    it.maxdepth = 60
    it.intrin["SYM"] = lambda it_, av, kv, st, n: S(av[0])

    def field(it_, av, kv, st, n):
        comp, k = av[0], int(av[1].const())
        sh = [p + 2 * L.ng for p in L.per]
        return smallnd.make(it_, st, sh, [S(cell(comp, k, ij)) for ij in itertools.product(*[range(x) for x in sh])])
    it.intrin["FIELD"] = field
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE
    it.intrin["hasattr"] = lambda it_, av, kv, st, n: FALSE if av[1] == "domain_mask" else it_.mkcall("hasattr", av, kv, st, n) if hasattr(it_, "mkcall") else FALSE
    return it


def objects(L, comps):
    """source of the patches and of one simulation and communicator per rank"""
    D = "%dD" % L.dim
    src = ""
    for k, c in enumerate(L.cells):
        for comp in comps:
            src += "    f%d.%s = FIELD('%s', %d)\n" % (k, comp, comp, k)
        src += "    p%d.fields = f%d\n    p%d.index = %d\n    p%d.rank = %d\n" % (k, k, k, k, k, L.ranks[k])
        for a in range(L.dim):
            x = AX[a]
            src += "    f%d.n%s = %d\n    p%d.n%s = %d\n    p%d.ipatch_%s = %d\n    p%d.%s0 = %d\n    p%d.%smin = %d\n    p%d.%smax = %d\n" % (k, x, L.per[a], k, x, L.per[a], k, x, c[a], k, x, c[a] * L.per[a], k, x, c[a] * L.per[a], k, x, (c[a] + 1) * L.per[a] - 1)
        src += "    f%d.n_guard = %d\n    p%d.n_guard = %d\n" % (k, L.ng, k, L.ng)
    for r in range(L.size):
        src += "    m%d.rank = %d\n    m%d.size = %d\n    m%d.comm = c%d\n    s%d.mpi = m%d\n    s%d.dimension = %d\n    s%d.n_guard = %d\n    s%d.patches = ps%d\n" % (r, r, r, L.size, r, r, r, r, r, L.dim, r, L.ng, r, r)
        for a in range(L.dim):
            x = AX[a]
            src += "    s%d.n%s = %d\n    s%d.n%s_per_patch = %d\n    s%d.npatch_%s = %d\n    s%d.d%s = 1\n    s%d.L%s = %d\n" % (r, x, L.n[a], r, x, L.per[a], r, x, L.shape[a], r, x, r, x, L.n[a])
        src += "    ps%d.patches = []\n    ps%d.npatches = 0\n    ps%d.dimension = %d\n    ps%d.index = []\n" % (r, r, r, L.dim, r) if False else "    ps%d = Patches(%d)\n" % (r, L.dim)
        for k in L.of(r):
            src += "    ps%d.append(p%d)\n" % (r, k)
        src = src.replace("    s%d.patches = ps%d\n" % (r, r), "") + "    s%d.patches = ps%d\n" % (r, r)
    return src


def params(L, simcls):
    D = "%dD" % L.dim
    out = []
    for k in range(len(L.cells)):
        out += ["p%d: Patch%s" % (k, D), "f%d: Fields%s" % (k, D)]
    for r in range(L.size):
        out += ["s%d: %s" % (r, simcls), "m%d: MPIManager" % r, "c%d" % r]
    return out


HEADS = '''
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.fields import Fields2D, Fields3D
from .core.mpi.mpi_manager import MPIManager
from .core.species import Electron
from .simulation.simulation import Simulation, Simulation3D
from .callback.utils import get_fields, ExtractSpeciesDensity
from .callback.hdf5 import SaveFieldsToHDF5, SaveSpeciesDensityToHDF5
'''


class Net:
    """communicators c0, c1, ... of the ranks; ranks run one after the other, the root last"""

    def __init__(self, it, L):
        self.L, self.it = L, it
        self.gathered = {}
        self.sent = {}
        self.bad = None
        it.intrin[".gather"] = self.gather
        it.intrin[".Isend"] = it.intrin[".Send"] = self.send
        it.intrin[".Recv"] = self.recv
        it.intrin[".Barrier"] = it.intrin[".wait"] = it.intrin[".Wait"] = lambda it_, av, kv, st, n: NONE
        it.intrin[".Waitall"] = lambda it_, av, kv, st, n: NONE
        it.intrin[".Get_rank"] = lambda it_, av, kv, st, n: P(self.rank(it_, av[0]))
        it.intrin[".Get_size"] = lambda it_, av, kv, st, n: P(L.size)

    def rank(self, it, v):
        s = str(v)
        if s[:1] == "c" and s[1:].isdigit():
            return int(s[1:])
        raise Broken("communicator %s is not one of the ranks'" % s)

    def gather(self, it, av, kv, st, n):
        r = self.rank(it, av[0])
        self.gathered.setdefault(r, []).append(av[1])
        if r != 0:
            return NONE
        i = len(self.gathered[0]) - 1
        return Tup([self.gathered[q][i] for q in range(self.L.size)], "list")

    def send(self, it, av, kv, st, n):
        kw = dict(kv)
        r = self.rank(it, av[0])
        dest = kw.get("dest", av[2] if len(av) > 2 else None)
        tag = kw.get("tag", av[3] if len(av) > 3 else ZERO)
        vals = smallnd.values(it, st, av[1])
        if vals is None:
            vals = smallnp.items(it, st, av[1])
        if vals is None or dest is None or dest.const() is None or tag.const() is None:
            raise Broken("a message is not followed: %s" % (av[1],))
        if dest.const() != 0:
            self.bad = self.bad or "rank %d sends to rank %s" % (r, dest)
        self.sent.setdefault(int(tag.const()), []).append((r, list(vals)))
        return P(it.fresh("request"))

    def recv(self, it, av, kv, st, n):
        kw = dict(kv)
        tag = kw.get("tag", av[3] if len(av) > 3 else None)
        if tag is None or tag.const() is None:
            raise Broken("a receive without a decided tag")
        q = self.sent.get(int(tag.const()), [])
        src = kw.get("source", av[2] if len(av) > 2 else None)
        src = None if src is None or not isinstance(src, Poly) or src.const() is None or src.const() < 0 else int(src.const())
        q = [m for m in q if src is None or m[0] == src]
        if not q:
            self.bad = self.bad or "the root waits for tag %s, which nobody sends" % tag
            return NONE
        m = q[0]
        self.sent[int(tag.const())].remove(m)
        b = smallnd.get(it, av[1])
        if b is None:
            raise Broken("the receive buffer is not followed")
        if len(m[1]) > len(b[2]):
            self.bad = self.bad or "a message of %d cells arrives in a buffer of %d" % (len(m[1]), len(b[2]))
            return NONE
        for i, x in zip(b[2], m[1]):
            smallnp.put(it, st, b[0], i, x, getattr(n, "loc", None))
        return NONE

    def left(self):
        return sum(len(x) for x in self.sent.values())


def owner(L, g):
    c = tuple(i // n for i, n in zip(g, L.per))
    return L.cells.index(c), tuple(i % n for i, n in zip(g, L.per))


def gather_job(L, fields, at=None):
    w = world()
    it = prep(w, L, fields)
    net = Net(it, L)
    got = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (got.append((st, av[0])), NONE)[1]
    cls = "Simulation" if L.dim == 2 else "Simulation3D"
    src = HEADS + "def main(%s):\n" % ", ".join(params(L, cls)) + objects(L, fields)
    extra = "" if L.dim == 2 else ", %s" % ("None" if at is None else at)
    for r in list(range(1, L.size)) + [0]:
        src += "    x%d = get_fields(s%d, %r%s)\n" % (r, r, list(fields), extra)
    src += "    OUT(x0)\n    return 0\n"
    loc = ("src/lambdapic/callback/utils.py", 0)
    case = L.text() + (", slice at %s" % ("the default" if at is None else at) if L.dim == 3 else "") + ": "
    key = "%dd fields" % L.dim
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("gather", key, False, case + str(x), loc)], it.analysed
    if not got:
        raise Broken("gathering fields cannot be followed")
    m = net.bad
    st, res = got[-1]
    arrs = list(res.items) if isinstance(res, Tup) else None
    if arrs is None:
        raise Broken("the gathered fields are not a list: %s" % (res,))
    if len(arrs) != len(fields):
        m = m or "%d arrays for %d fields" % (len(arrs), len(fields))
    planes = [None]
    if L.dim == 3:
        z = float(L.n[2]) / 2 if at is None else at
        planes = [i for i in range(L.n[2]) if abs(i - z) <= 0.5 + 1e-12] or [L.n[2] - 1]
    for f, v in zip(fields, arrs):
        if m:
            break
        r = smallnd.get(it, v)
        if r is None:
            raise Broken("a gathered field is not an array: %s" % (v,))
        vals = smallnd.values(it, st, v)
        if r[1] != L.n[:2]:
            m = "shape %s of a domain of %s cells" % (r[1], L.n)
            break
        why = None
        for z in planes:
            why = None
            for (i, j), x in zip(itertools.product(range(L.n[0]), range(L.n[1])), vals):
                k, loc_ = owner(L, (i, j) if z is None else (i, j, z))
                if x != S(cell(f, k, loc_)):
                    why = "%s at cell (%d, %d)%s is %s, expected %s" % (f, i, j, "" if z is None else " of plane %d" % z, x, cell(f, k, loc_))
                    break
            if why is None:
                break
        m = m or why
    if not m and net.left():
        m = "%d messages are never received" % net.left()
    return [("gather", key, m is None, case + (m or ""), loc)], it.analysed


def gat(shape, per, ng, ranks, flip, fields, at=None):
    return gather_job(Lay(shape, per, ng, ranks, flip), fields, at)


def slicetext(sl):
    return "None" if sl is None else "(%s,)" % ", ".join(("slice(%s, %s, %s)" % x) if isinstance(x, tuple) else str(x) for x in sl)


def chosen(L, sl):
    """global indices selected per axis, and the shape of the result"""
    sl = [(None, None, None)] * L.dim if sl is None else sl
    out = []
    for x, n in zip(sl, L.n):
        out.append(list(range(n))[slice(*x)] if isinstance(x, tuple) else [list(range(n))[x]])
    return out


def density_job(shape, per, ng, ranks, flip, target, sl):
    """ExtractSpeciesDensity: the root holds (charge density after - before) / charge"""
    L = Lay(shape, per, ng, ranks, flip)
    w = world()
    it = prep(w, L, ("rho",))
    net = Net(it, L)
    got = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (got.append((st, av[0])), NONE)[1]
    it.intrin[".sync_currents"] = lambda it_, av, kv, st, n: NONE
    cls = "Simulation" if L.dim == 2 else "Simulation3D"
    src = HEADS + "def main(%s, sp: Electron):\n" % ", ".join(params(L, cls)) + objects(L, ("rho",))
    src += "    sp.ispec = %d\n    sp.q = SYM('q')\n" % target
    for r in range(L.size):
        src += "    x%d = ExtractSpeciesDensity(s%d, sp, 1, %s)\n" % (r, r, slicetext(sl))
    for k in range(len(L.cells)):
        src += "    f%d.rho = FIELD('rho', %d)\n" % (k, k)
    rs = list(range(1, L.size)) + [0]
    for i in range(target + 2):
        for k in range(len(L.cells)):
            src += "    f%d.rho[...] = FIELD('rho%d', %d)\n" % (k, i, k)
        for r in rs:
            src += "    s%d.ispec = %d\n    x%d._call(s%d)\n" % (r, i, r, r)
    src += "    OUT(x0.density)\n    return 0\n"
    loc = ("src/lambdapic/callback/utils.py", 0)
    case = "%s, species %d, slice %s: " % (L.text(), target, slicetext(sl))
    key = "%dd density" % L.dim
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("gather", key, False, case + str(x), loc)], it.analysed
    if not got:
        raise Broken("extracting densities cannot be followed")
    st, v = got[-1]
    r = smallnd.get(it, v)
    if r is None:
        raise Broken("the density is not an array: %s" % (v,))
    sel = chosen(L, sl)
    m = net.bad
    if r[1] != tuple(len(x) for x in sel):
        m = m or "shape %s for a selection of %s cells" % (r[1], [len(x) for x in sel])
    else:
        for g, x in zip(itertools.product(*sel), smallnd.values(it, st, v)):
            k, c = owner(L, g)
            want = S(cell("rho%d" % target, k, c))
            if target:
                want = want - S(cell("rho%d" % (target - 1), k, c))
            want = want * alg.inv(S("q"))
            if not (isinstance(x, Poly) and (x == want or equal(x, want))):
                m = m or "density at cell %s is %s, expected %s" % (g, x, want)
    if not m and net.left():
        m = "%d messages are never received" % net.left()
    return [("gather", key, m is None, case + (m or ""), loc)], it.analysed


def file_job(kind, shape, per, ng, ranks, flip, sl, mpi):
    """regions written by all ranks to the file of SaveFieldsToHDF5 / SaveSpeciesDensityToHDF5"""
    L = Lay(shape, per, ng, ranks, flip)
    w = world()
    comps = ("ex", "bz", "rho") if kind == "fields" else ("rho0", "rho1")
    it = prep(w, L, comps)
    net = Net(it, L)
    del it.intrin[".Barrier"]
    it.intrin[".sync_currents"] = lambda it_, av, kv, st, n: NONE
    cls = "Simulation" if L.dim == 2 else "Simulation3D"
    src = HEADS + "def main(%s, sp: Electron):\n" % ", ".join(params(L, cls)) + objects(L, comps[:3] if kind == "fields" else ())
    src += "    sp.ispec = 1\n    sp.q = SYM('q')\n"
    where = {}
    for r in range(L.size):
        if kind == "fields":
            src += "    x%d = SaveFieldsToHDF5('out', 1, %r, %s, %s)\n" % (r, list(comps), mpi, slicetext(sl))
        else:
            src += "    x%d = SaveSpeciesDensityToHDF5(sp, 'out', 1, %s, %s)\n" % (r, mpi, slicetext(sl))
    mark = []
    it.intrin["AT"] = lambda it_, av, kv, st, n: it_.emit(CallE("@rank", [av[0]], [], TRUE, None, (), NONE)) or NONE
    names = ["ex", "bz", "rho"] if kind == "fields" else ["density"]
    if kind == "density":
        for k in range(len(L.cells)):
            src += "    f%d.rho = FIELD('rho0', %d)\n" % (k, k)
        for r in range(L.size):
            src += "    s%d.ispec = 0\n    x%d._call(s%d)\n" % (r, r, r)
        for k in range(len(L.cells)):
            src += "    f%d.rho[...] = FIELD('rho1', %d)\n" % (k, k)
    for r in range(L.size):
        src += "    AT(%d)\n" % r + ("    s%d.ispec = 1\n" % r if kind == "density" else "") + "    x%d._call(s%d)\n" % (r, r)
    src += "    return 0\n"
    loc = ("src/lambdapic/callback/hdf5.py", 0)
    case = "%s, slice %s%s: " % (L.text(), slicetext(sl), ", parallel file" if mpi else "")
    key = "%dd %s" % (L.dim, kind)
    datasets = {}

    def create(it_, av, kv, st, n):
        kw = dict(kv)
        data = kw.get("data", av[4] if len(av) > 4 else None)
        shp = kw.get("shape", av[2] if len(av) > 2 else None)
        s = smallnd.get(it_, data)[1] if data is not None and smallnd.get(it_, data) else smallnd.shape_of(shp) if shp is not None else None
        datasets.setdefault(av[1], set()).add(s if s is not None else str(data) + str(shp))
        it_.emit(CallE("@create", [av[1]], [], st.pc, getattr(n, "loc", None), (), NONE))
        return P(atom("dset", av[1]))
    it.intrin[".create_dataset"] = create
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("file", key, False, case + str(x), loc)], it.analysed
    sel = chosen(L, sl)
    want_shape = tuple(len(x) for x in sel)
    m = net.bad
    out = {c: {} for c in names}
    epoch = {}
    made, wrote = {}, {}
    rank = None
    for e, loops, pc in flat(eff):
        if e.kind == "call":
            if e.name == "@rank":
                rank = int(e.args[0].const())
            elif e.name == "@create":
                made.setdefault(e.args[0], []).append((epoch.get(rank, 0), rank))
            elif e.name == "Barrier":
                epoch[rank] = epoch.get(rank, 0) + 1
            continue
        if e.kind != "store" or rank is None:
            continue
        b = str(e.base)
        c = [x for x in names if isinstance(e.base, Atom) and e.base.kind == "dset" and e.base.args[0] == x or "h5py.File" in b and b.endswith("[%s]" % x)]
        if not c:
            if "h5py.File" in b and ".attrs" not in b and "attrs" not in b:
                raise Broken("a store to the file is not understood: %s" % str(e)[:120])
            continue
        c = c[0]
        if loops or pc is not TRUE and not b_equiv(pc, TRUE):
            raise Broken("a store to the file happens in an undecided loop or condition: %s" % str(e)[:160])
        ks = e.key if isinstance(e.key, tuple) else (e.key,)
        if len(ks) == 1 and isinstance(ks[0], Tup):
            ks = tuple(ks[0].items)
        ax = smallnd.axes(Tup(list(ks)), want_shape, loc)
        if ax is None:
            raise Broken("a store to the file is not understood: %s" % str(e)[:160])
        vals = smallnd.values(it, st, e.val)
        if vals is None:
            raise Broken("what is stored in the file is not followed: %s" % str(e.val)[:120])
        pos = list(itertools.product(*ax[0]))
        shp = tuple(len(p) for p in ax[0])
        if tuple(n for n in smallnd.get(it, e.val)[1] if n != 1) != tuple(n for n in shp if n != 1):
            m = m or "cells of shape %s are stored into a region of shape %s" % (smallnd.get(it, e.val)[1], shp)
            continue
        for q, x in zip(pos, vals):
            out[c].setdefault(q, []).append(x)
        wrote.setdefault(c, []).append((epoch.get(rank, 0), rank))
    if not any(wrote.values()):
        raise Broken("nothing is stored in a file %s" % [str(e)[:300] for e,l,p in flat(eff)][-12:])
    for c in names:
        if datasets.get(c) != {want_shape}:
            m = m or "the data set %s has shape %s, the selection %s" % (c, sorted(map(str, datasets.get(c) or [])), want_shape)
        for q in itertools.product(*[range(x) for x in want_shape]):
            g = tuple(s[i] for s, i in zip(sel, q))
            k, lc = owner(L, g)
            if kind == "fields":
                want = S(cell(c, k, lc))
            else:
                want = (S(cell("rho1", k, lc)) - S(cell("rho0", k, lc))) * alg.inv(S("q"))
            xs = out[c].get(q, [])
            if not xs:
                m = m or "entry %s of %s (cell %s) is never written" % (q, c, g)
            for x in xs:
                if not (isinstance(x, Poly) and (x == want or equal(x, want))):
                    m = m or "entry %s of %s (cell %s) is %s, expected %s" % (q, c, g, x, want)
    late = None
    for c in names:
        for ec, rc in made.get(c, []):
            for ew, rw in wrote.get(c, []):
                if ew <= ec and (rc != rw):
                    late = late or "rank %d creates %s without a barrier before rank %d writes it" % (rc, c, rw)
    return [("file", key, m is None, case + (m or ""), loc), ("created", key, late is None, case + (late or ""), loc)], it.analysed


def particles_job(dim, rank, pats, others):
    from . import inert
    obs, an = inert.saved_job(dim, rank, pats, others)
    return obs, an


def p30(c):
    c.rule("gather", "the array on the root holds at every cell of the domain (or of the slice) the value of the cell of the patch that owns it; every message is received by the receive meant for it")
    c.rule("file", "the regions written by all ranks fill the data set, each entry with the value of the cell of the patch that owns it")
    c.rule("created", "a data set is created before a barrier that precedes every other rank's writing")
    c.rule("saved", "saved particle files hold every living particle once, in the same place of every data set, behind those of the ranks before, and no dead slot")
    thorough = c.tier == "thorough"
    g2 = [((1, 1), (3, 2), 2, (0,)), ((2, 3), (2, 3), 1, (0, 1, 0, 1, 1, 0)), ((3, 2), (3, 2), 2, (0, 0, 1, 1, 2, 2)), ((2, 2), (2, 2), 3, (1, 0, 0, 1)), ((1, 3), (2, 2), 1, (2, 0, 1))]
    g3 = [((1, 1, 2), (2, 2, 3), 1, (0, 1)), ((2, 1, 2), (2, 3, 2), 2, (0, 1, 1, 0)), ((1, 2, 2), (2, 2, 3), 1, (1, 0, 1, 0)), ((1, 2, 1), (1, 2, 3), 2, (1, 0))]
    jobs = [("gat",) + g + (f, ("ex", "rho")) for g in g2 for f in (False, True)]
    for i, g in enumerate(g3):
        n = g[0][2] * g[1][2]
        ats = [None] + [k / 4 for k in range(4 * n + 1)]
        for at in ats if thorough else ats[i % 2::2] + [None]:
            jobs.append(("gat",) + g + (bool(i % 2), ("ey", "jz"), at))
    s2 = [None, ((1, None, None), 2), ((None, None, 2), (1, 5, 1)), (-1, (None, None, 3)), ((2, 4, 1), (None, None, None)), ((-3, None, 2), (0, -1, 2)), ((1, 2, 1), (1, 2, 1))]
    s3 = [None, ((None, None, None), (None, None, None), 1), ((None, None, 2), (1, None, None), (None, None, 2)), (0, (None, None, None), -1), ((0, 2, 1), 1, (1, 3, 1))]
    for i, g in enumerate(g2):
        for j, sl in enumerate(s2):
            if sl is not None and any(not x for x in chosen_ok(g, sl)):
                continue
            jobs.append(("density_job",) + g + (bool(j % 2), (i + j) % 3, sl))
            jobs.append(("file_job", "fields") + g + (bool(i % 2), sl, bool((i + j) % 2)))
            jobs.append(("file_job", "density") + g + (bool(j % 2), sl, bool((i + j + 1) % 2)))
            if thorough:
                jobs.append(("file_job", "fields") + g + (bool(j % 2), sl, bool((i + j + 1) % 2)))
    for i, g in enumerate(g3):
        for j, sl in enumerate(s3):
            if sl is not None and any(not x for x in chosen_ok(g, sl)):
                continue
            jobs.append(("density_job",) + g + (bool(j % 2), (i + j) % 3, sl))
            jobs.append(("file_job", "fields") + g + (bool(i % 2), sl, bool((i + j) % 2)))
            if thorough or j % 2 == i % 2:
                jobs.append(("file_job", "density") + g + (bool(j % 2), sl, bool((i + j) % 2)))
    pats = list(itertools.product((0, 1), repeat=3))
    for d in (2, 3):
        for i, p in enumerate(pats):
            for q in pats if thorough else (pats[(i + 3) % 8],):
                jobs.append(("particles_job", d, i % 3, (p, q[:2]), ((2, 1), (0, 3))))
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/callback/utils.py", "src/lambdapic/callback/hdf5.py"}
    c.floor("gather", 4)
    c.floor("file", 4)
    c.floor("created", 4)
    c.floor("saved", 2)


def chosen_ok(g, sl):
    n = [a * b for a, b in zip(g[0], g[1])]
    out = []
    for x, k in zip(sl, n):
        if isinstance(x, tuple):
            out.append(list(range(k))[slice(*x)])
        else:
            out.append([x] if -k <= x < k else [])
    return out
