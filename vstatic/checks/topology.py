"""P05 neighbour tables and P36 placement of absorbing layers.

The functions that build the tables are analysed on one patch whose position along every axis is one of
four symbolic classes (only patch, first, inner, last; the patch count stays symbolic), under every
combination of periodic and open sides.  The classes partition all decompositions, so agreement on every
class is agreement on every grid of patches.
"""
import itertools
from ..world import *
from ..smallnp import OutOfRange
from ..interp import *
from .. import alg
from ..report import pmap

CLASSES = ("only", "first", "inner", "last")


def position(cls, ax):
    """(index along the axis, number of patches along it) for a position class"""
    n, m = slack("n" + ax), slack("m" + ax)
    return {"only": (P(0), P(1)), "first": (P(0), n + 2), "last": (n + 1, n + 2), "inner": (n + 1, n + m + 3)}[cls]


def expect(cls, ax, d, lo, hi):
    """neighbour index along one axis, None when there is no neighbour in that direction"""
    i, n = position(cls, ax)
    if d == 0:
        return i
    if d < 0:
        if cls in ("only", "first"):
            return n - 1 if lo == "periodic" else None
        return i - 1
    if cls in ("only", "last"):
        return P(0) if hi == "periodic" else None
    return i + 1


class Look(Exception):
    pass


def fresh(w):
    it = w.interp(False)
    alg.FACTS = {"pos": set(), "range": {}}
    it.isobj = lambda x: True
    return it


def lookup_key(v, m, calls):
    """key of a lookup in map m: m.get(key) or m[key]"""
    a = v.as_atom() if isinstance(v, Poly) else None
    if a is None:
        return None
    if a in calls:
        return calls[a]
    if a.kind == "load" and a.args[0] == m:
        k = a.args[1]
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], Tup):
            return tuple(k[0].items)
        return tuple(k)
    return None


def index_job(job):
    dim, cls, bcs = job
    w = world()
    it = fresh(w)
    axes = "xyz"[:dim]
    bnd = boundaries(w, dim)
    src = "from .core.patch.patch import Patches, Patch%dD\n" % dim
    names = ["n%s" % a for a in axes] + ["i%s" % a for a in axes]
    src += "def main(self: Patches, p: Patch%dD, m, idx, %s):\n" % (dim, ", ".join(names))
    for a in axes:
        src += "    p.ipatch_%s = i%s\n" % (a, a)
    src += "    p.index = idx\n    self.patches = [p]\n    self.indices = [idx]\n    self.npatches = 1\n    self.dimension = %d\n" % dim
    src += "    self.init_rect_neighbor_index_%dd(%s, boundary_conditions=%r, patch_index_map=m)\n" % (
        dim, ", ".join("n" + a for a in axes), {a + s: bcs[k][j] for k, a in enumerate(axes) for j, s in enumerate(("min", "max"))})
    src += "    a = p.neighbor_index\n    return [%s]\n" % ", ".join("a[%d]" % k for k in sorted(bnd))
    fn = w.driver(src)
    args = {}
    for k, a in enumerate(axes):
        i, n = position(cls[k], a)
        args["i" + a], args["n" + a] = i, n
    m = atom("sym", "patch_index_map")
    args["m"] = P(m)
    calls = {}

    def get(it_, av, kv, st, nd):
        if len(av) < 2 or not isinstance(av[0], Poly) or av[0].as_atom() is not m:
            return None
        k = av[1]
        key = tuple(k.items) if isinstance(k, Tup) else (k,)
        a = atom("mapped", key, isint=True)
        calls[a] = key
        return P(a)
    it.intrin[".get"] = get
    eff, ret, st = it.run_func(fn, args=args)
    obs = []
    meth = w.method(w.cls("core.patch.patch", "Patches"), "init_rect_neighbor_index_%dd" % dim)
    loc = (meth.file, meth.line)
    pos = "/".join(cls)
    side = "/".join("".join(b[0] for b in x) for x in bcs)
    if not isinstance(ret, Tup) or len(ret.items) != len(bnd):
        return [("index", "%dd table" % dim, False, "the neighbour table is not filled", loc)], it.analysed
    for v, k in zip(ret.items, sorted(bnd)):
        nm, d = bnd[k]
        want = [expect(cls[q], axes[q], d[q], *bcs[q]) for q in range(dim)]
        if any(x is None for x in want):
            ok = isinstance(v, Poly) and v.const() == -1
            msg = "is %s, expected -1 (open side)" % (v,)
        else:
            key = lookup_key(v, m, calls)
            ok = key is not None and len(key) == dim and all(isinstance(x, Poly) and (x - y).is_zero() for x, y in zip(key, want))
            msg = "names patch %s (%s), expected %s" % (key, v, tuple(want))
        obs.append(("index", "%dd %s" % (dim, nm), ok, "patch at %s, sides %s: entry %s" % (pos, side, msg), loc))
    return obs, it.analysed


def axis_bcs(thorough):
    return [("periodic", "periodic"), ("pml", "pml"), ("periodic", "pml"), ("pml", "periodic")]


def index_jobs(dim, thorough):
    one = axis_bcs(thorough)
    if dim == 2 or thorough:
        bcs = list(itertools.product(one, repeat=dim))
    else:
        bcs = list(itertools.product(one[:2], repeat=3))
        bcs += [tuple(one[2 + (k + t) % 2] if k == a else one[(k + t) % 2] for k in range(3)) for a in range(3) for t in range(2)]
    return [(dim, c, b) for c in itertools.product(CLASSES, repeat=dim) for b in bcs]


def batch(jobs):
    import importlib
    obs, fns = [], set()
    for j in jobs:
        mod = globals()
        if isinstance(j, tuple) and len(j) == 2 and j[0] == "@":
            mod, j = vars(importlib.import_module(j[1][0])), j[1][1]
        try:
            o, f = index_job(j) if isinstance(j[0], int) else mod[j[0]](*j[1:])
        except OutOfRange as e:
            o, f = [("range", "%s %s" % (j[0], j[1]), False, "case %s: %s" % (j[2:], e.msg), e.loc or ("src/lambdapic", 0))], set()
        obs += o
        fns |= f
    bad = [o for o in obs if not o[2]]
    agg = {}
    for o in obs:
        k = (o[0], o[1])
        agg.setdefault(k, [0, None, o[4]])
        agg[k][0] += 1
        if not o[2] and agg[k][1] is None:
            agg[k][1] = o[3]
    return agg, fns


def grid_job(dim, sizes, bcs):
    """the table built from the patches themselves: small grid, symbolic patch indices"""
    w = world()
    it = fresh(w)
    axes = "xyz"[:dim]
    bnd = boundaries(w, dim)
    cells = list(itertools.product(*[range(s) for s in sizes]))
    ps = ["p" + "_".join(map(str, c)) for c in cells]
    src = "from .core.patch.patch import Patches, Patch%dD\n" % dim
    src += "def main(self: Patches, %s):\n" % ", ".join("%s: Patch%dD" % (p, dim) for p in ps)
    for p, c in zip(ps, cells):
        for a, i in zip(axes, c):
            src += "    %s.ipatch_%s = %d\n" % (p, a, i)
    src += "    self.patches = [%s]\n    self.npatches = %d\n    self.dimension = %d\n" % (", ".join(ps), len(ps), dim)
    src += "    self.init_rect_neighbor_index_%dd(%s, boundary_conditions=%r)\n" % (
        dim, ", ".join("%d" % s for s in sizes), {a + s: bcs[k][j] for k, a in enumerate(axes) for j, s in enumerate(("min", "max"))})
    src += "    return [%s]\n" % ", ".join("%s.neighbor_index[%d]" % (p, k) for p in ps for k in sorted(bnd))
    src += "def idx(%s):\n    return [%s]\n" % (", ".join("%s" % p for p in ps), ", ".join(p + ".index" for p in ps))
    fn = w.driver(src)
    eff, ret, st = it.run_func(fn)
    it2 = fresh(w)
    ids = it2.run_func(w.driver(src, "idx"))[1].items
    byc = dict(zip(cells, ids))
    meth = w.method(w.cls("core.patch.patch", "Patches"), "init_rect_neighbor_index_%dd" % dim)
    obs = []
    vals = iter(ret.items)
    for c in cells:
        for k in sorted(bnd):
            nm, d = bnd[k]
            v = next(vals)
            t = []
            for q in range(dim):
                x = c[q] + d[q]
                if x < 0 and bcs[q][0] == "periodic":
                    x = sizes[q] - 1
                elif x >= sizes[q] and bcs[q][1] == "periodic":
                    x = 0
                t.append(x if 0 <= x < sizes[q] else None)
            want = P(-1) if None in t else byc[tuple(t)]
            ok = isinstance(v, Poly) and isinstance(want, Poly) and (v - want).is_zero()
            obs.append(("selfmap", "%dd %s" % (dim, nm), ok, "grid %s patch %s: entry is %s, expected %s" % (sizes, c, v, want), (meth.file, meth.line)))
    return obs, it.analysed


def rank_job(dim, shift, withmap):
    """ranks and local positions: p and q held together, one patch elsewhere, absent neighbours"""
    w = world()
    it = fresh(w)
    bnd = boundaries(w, dim)
    nb = {k: [-1, 3, 7, 11][(k + shift) % (4 if withmap else 3)] for k in bnd}
    src = "from .core.patch.patch import Patches, Patch%dD\n" % dim
    head = "def %s(self: Patches, p: Patch%dD, q: Patch%dD, rp, rq, r11):\n"
    pre = "    p.index = 7\n    q.index = 3\n    p.rank = rp\n    q.rank = rq\n    self.patches = [p, q]\n    self.indices = [7, 3]\n    self.npatches = 2\n    self.dimension = %d\n" % dim
    for k in bnd:
        pre += "    p.neighbor_index[%d] = %d\n    q.neighbor_index[%d] = -1\n" % (k, nb[k], k)
    src += head % ("main", dim, dim) + pre
    src += "    self.init_neighbor_rank_%dd(%s)\n    a = p.neighbor_rank\n    return [%s]\n" % (dim, "{7: rp, 3: rq, 11: r11}" if withmap else "", ", ".join("a[%d]" % k for k in sorted(bnd)))
    src += head % ("loc", dim, dim) + pre
    src += "    self.init_neighbor_ipatch_%dd()\n    a = p.neighbor_ipatch\n    return [%s]\n" % (dim, ", ".join("a[%d]" % k for k in sorted(bnd)))
    src += "def ref(rp, r):\n    return -1 if r == rp else r\n"
    P_ = w.cls("core.patch.patch", "Patches")
    obs = []
    eff, ret, st = it.run_func(w.driver(src))
    meth = w.method(P_, "init_neighbor_rank_%dd" % dim)
    s = {n: P(atom("sym", n)) for n in ("rp", "rq", "r11")}
    for v, k in zip(ret.items, sorted(bnd)):
        nm = bnd[k][0]
        r = {3: "rq", 11: "r11"}.get(nb[k])
        if r is None:
            ok = isinstance(v, Poly) and v.const() == -1
            want = "-1"
        else:
            it2 = fresh(w)
            want = it2.run_func(w.driver(src, "ref"), args={"rp": s["rp"], "r": s[r]})[1]
            ok = isinstance(v, Poly) and alg.equal(v, want)
        obs.append(("rank", "%dd %s" % (dim, nm), ok, "neighbour %d (own rank rp, patch 3 on rq, patch 11 on r11): entry is %s, expected %s" % (nb[k], v, want), (meth.file, meth.line)))
    fns = set(it.analysed)
    it = fresh(w)
    eff, ret, st = it.run_func(w.driver(src, "loc"))
    meth = w.method(P_, "init_neighbor_ipatch_%dd" % dim)
    for v, k in zip(ret.items, sorted(bnd)):
        want = {3: 1, 7: 0}.get(nb[k], -1)
        ok = isinstance(v, Poly) and v.const() == want
        obs.append(("local", "%dd %s" % (dim, bnd[k][0]), ok, "neighbour %d with local patches [7, 3]: entry is %s, expected %d" % (nb[k], v, want), (meth.file, meth.line)))
    return obs, fns | it.analysed


CONTAINER = '''
from .core.patch.patch import Patches, Patch2D
def main(p: Patch2D, q: Patch2D, r: Patch2D):
    s = Patches(2)
    p.index = 5
    q.index = 2
    r.index = 9
    s.append(p)
    s.append(q)
    s.prepend(r)
    x = s.pop(5)
    s.append(x)
    y = s.pop(9)
    return [s.patches, s.indices, s.npatches, x, y, p, q, r]
'''


def container_job():
    w = world()
    it = fresh(w)
    eff, ret, st = it.run_func(w.driver(CONTAINER))
    pl, il, n, x, y, p, q, r = ret.items
    P_ = w.cls("core.patch.patch", "Patches")
    obs = []

    def ob(nm, ok, msg):
        m = w.method(P_, nm)
        obs.append(("container", nm, ok, msg, (m.file, m.line)))
    ok = isinstance(pl, Tup) and isinstance(il, Tup) and [repr(a) for a in pl.items] == [repr(q), repr(p)] and [a.const() for a in il.items] == [2, 5] and n.const() == 2
    for nm in ("append", "prepend", "pop"):
        ob(nm, ok, "after append/prepend/pop the list holds %s with indices %s and count %s, expected patches q, p with 2, 5 and 2" % (pl, il, n))
    ob("pop", repr(x) == repr(p) and repr(y) == repr(r), "pop(index) returns %s, %s instead of the patches with these indices" % (x, y))
    return obs, it.analysed


def ctor_kwargs(e):
    return {k: v for k, v in e.kwargs}


def create_job(dim, sizes):
    """create_patches: one patch per cell of the patch grid, indices 0..N-1 in order, tables built last"""
    w = world()
    it = fresh(w)
    axes = "xyz"[:dim]
    cname = "Simulation" + ("3D" if dim == 3 else "")
    src = "from .simulation.simulation import %s\ndef main(self: %s):\n" % (cname, cname)
    for a, s in zip(axes, sizes):
        src += "    self.npatch_%s = %d\n" % (a, s)
    src += "    r = self.create_patches()\n    return [r.patches, r.indices, r.npatches, r.dimension]\n"
    src += "def attrs(self: %s, p):\n    return [p.index, %s]\n" % (cname, ", ".join("p.ipatch_%s, p.%s0" % (a, a) for a in axes))
    seen = []
    rect = "init_rect_neighbor_index_%dd" % dim

    def nb(it_, av, kv, st, n):
        seen.append((av, dict(kv), it_.getattr(av[0], "npatches", st), st.pc))
        return NONE
    it.intrin["Patches." + rect] = nb
    fn = w.driver(src)
    eff, ret, st = it.run_func(fn)
    cls = w.cls("simulation.simulation", cname)
    meth = w.method(cls, "create_patches")
    loc = (meth.file, meth.line)
    obs = []
    if not isinstance(ret, Tup) or not isinstance(ret.items[0], Tup):
        return [("create", "%dd patches" % dim, False, "create_patches does not return the list of patches (%s)" % (ret,), loc)], it.analysed
    pl, il, n, dm = ret.items
    N = 1
    for s in sizes:
        N *= s
    got = {}
    idx = []
    for q in pl.items:
        it.lang, it.closure, it.mod = "py", None, cls.module
        g = lambda nm: it.getattr(q, nm, st)
        c = tuple(int(g("ipatch_" + a).const()) if isinstance(g("ipatch_" + a), Poly) and g("ipatch_" + a).const() is not None else None for a in axes)
        got[c] = got.get(c, 0) + 1
        i = g("index")
        idx.append(i.const() if isinstance(i, Poly) else None)
        for a, k, s in zip(axes, c, sizes):
            L = it.getattr(P(atom("sym", "self")), "L" + a, st)
            x0 = g(a + "0")
            ok = k is not None and isinstance(x0, Poly) and alg.equal(x0, L * P(Fraction(k, s)))
            obs.append(("create", "%dd %s0" % (dim, a), ok, "patch %s of %s starts at %s" % (k, s, x0), loc))
            na = g("n" + a)
            want = it.getattr(P(atom("sym", "self")), "n%s_per_patch" % a, st)
            obs.append(("create", "%dd n%s" % (dim, a), isinstance(na, Poly) and alg.equal(na, want), "patch size is %s" % (na,), loc))
            da = g("d" + a)
            want = it.getattr(P(atom("sym", "self")), "d%s" % a, st)
            obs.append(("create", "%dd d%s" % (dim, a), isinstance(da, Poly) and alg.equal(da, want), "patch spacing is %s" % (da,), loc))
    cells = set(itertools.product(*[range(s) for s in sizes]))
    obs.append(("create", "%dd cover" % dim, set(got) == cells and all(v == 1 for v in got.values()), "patches cover %s of a grid %s" % (sorted(got.items(), key=repr), sizes), loc))
    obs.append(("create", "%dd order" % dim, idx == list(range(N)) and isinstance(il, Tup) and [x.const() for x in il.items] == idx and n.const() == N, "patch indices in list order are %s, expected 0..%d" % (idx, N - 1), loc))
    obs.append(("create", "%dd table" % dim, len(seen) == 1 and seen[0][3] is TRUE and isinstance(seen[0][2], Poly) and seen[0][2].const() == N,
                "neighbour tables built %d times%s" % (len(seen), ", after %s patches" % (seen[0][2],) if seen else ""), loc))
    for av, kv, _, _ in seen[:1]:
        m = w.method(w.cls("core.patch.patch", "Patches"), rect)
        names = [p[0] for p in m.params] + [p[0] for p in m.kwonly]
        b = dict(zip(names, av))
        b.update(kv)
        for a, s in zip(axes, sizes):
            v = b.get("npatch_" + a)
            obs.append(("create", "%dd npatch_%s" % (dim, a), isinstance(v, Poly) and v.const() == s, "neighbour table built for %s patches along %s, the grid has %d" % (v, a, s), loc))
        bc = b.get("boundary_conditions")
        want = it.getattr(P(atom("sym", "self")), "boundary_conditions", st)
        obs.append(("create", "%dd sides" % dim, repr(bc) == repr(want), "neighbour table built with boundary conditions %s" % (bc,), loc))
    return obs, it.analysed


def run_jobs(c, jobs, n=8, mod=None, skip=(), only=None):
    """jobs are (function name, arguments...) of the module `mod`; obligations are merged per rule and key"""
    if mod is not None:
        jobs = [("@", (mod["__name__"], j)) for j in jobs]
    chunks = [jobs[i::n * 4] for i in range(n * 4)]
    total = {}
    for ok, r in pmap(batch, [x for x in chunks if x]):
        if not ok:
            c.break_(r)
            continue
        agg, fns = r
        c.functions |= fns
        for k, (n_, bad, loc) in agg.items():
            t = total.setdefault(k, [0, None, loc])
            t[0] += n_
            if bad is not None and t[1] is None:
                t[1] = bad
    total = {k: v for k, v in total.items() if k[0] not in skip and (only is None or k[0] in only)}
    for (rule, key), (n_, bad, loc) in sorted(total.items()):
        c.ob(rule, key, bad is None, bad or "%d cases" % n_, loc)
    c.notes.append({"cases": {"%s %s" % k: v[0] for k, v in total.items()}})


def p05(c):
    c.rule("index", "for every position class of a patch and every combination of sides, the entry for each direction names the patch one step in that direction (wrapped on periodic sides, -1 beyond open ones)")
    c.rule("selfmap", "the same when the table is built from the patches themselves")
    c.rule("rank", "the rank entry is the rank of the neighbour exactly when it differs from the patch's own rank, else -1")
    c.rule("local", "the local entry is the position of the neighbour in the local list, -1 when it is not held here")
    c.rule("container", "list of patches, list of indices and count stay in step under append, prepend and pop")
    c.rule("create", "one patch per cell of the patch grid, indices in list order, tables built once from all of them")
    c.rule("enum", "compiled code numbers the directions like the Python enumeration")
    c.rule("rebuild", "rank and local tables are rebuilt after the placement of patches is decided")
    w = world()
    c.units |= {"src/lambdapic/core/patch/patch.py", "src/lambdapic/simulation/simulation.py"}
    c.rule("opposite", "tables of opposite directions negate every direction")
    thorough = c.tier == "thorough"
    jobs = index_jobs(2, thorough) + index_jobs(3, thorough)
    per, opn = ("periodic", "periodic"), ("pml", "pml")
    for b in itertools.product((per, opn, ("periodic", "pml"), ("pml", "periodic")), repeat=2):
        jobs.append(("grid_job", 2, (3, 2), b))
    for b in ((per, per, per), (opn, opn, opn), (per, opn, per), (opn, per, opn)):
        jobs.append(("grid_job", 3, (2, 1, 3), b))
    for dim in (2, 3):
        for sh in range(4):
            jobs.append(("rank_job", dim, sh, True))
            if sh < 3:
                jobs.append(("rank_job", dim, sh, False))
    jobs += [("table_job", 2), ("table_job", 3)]
    jobs.append(("container_job",))
    jobs += [("create_job", 2, (3, 2)), ("create_job", 2, (1, 4)), ("create_job", 3, (2, 3, 2)), ("create_job", 3, (1, 2, 3))]
    run_jobs(c, jobs)
    enums(c, w)
    c.floor("index", 34)
    c.floor("rank", 34)
    c.floor("local", 34)
    c.floor("create", 20)
    c.floor("rebuild", 6)
    c.floor("enum", 60)


def c_units(w):
    base = os.path.join(w.root, "src")
    for dp, _, fs in os.walk(os.path.join(base, "lambdapic")):
        for f in sorted(fs):
            if f.endswith(".c"):
                rel = os.path.relpath(os.path.join(dp, f), base)
                with open(os.path.join(dp, f)) as fh:
                    txt = fh.read()
                yield rel[:-2].replace(os.sep, "."), txt


def const_of(n, u):
    while n.op in ("cast", "icast", "paren"):
        n = n.a[-1]
    if n.op == "num":
        return int(n.a[0])
    if n.op == "name":
        return u.enums.get(n.a[0])
    return None


def enums(c, w):
    """C enumerations of the directions against the Python ones"""
    n = 0
    for name, txt in c_units(w):
        if "XMIN" not in txt:
            continue
        u = w.linker.unit(name)
        c.units.add(u.path)
        for tname, rows in sorted(u.enum_types.items()):
            nm = {a for a, _ in rows}
            dim = 3 if "ZMIN" in nm else 2 if "XMIN" in nm else 0
            if not dim:
                continue
            n += 1
            e = w.enum(w.cls("core.patch.patch", "Boundary%dD" % dim))
            got = dict(rows)
            for k, v in e.items():
                c.ob("enum", "%s %s" % (name, k), got.get(k) == v, "%s is %s in C and %d in Python" % (k, got.get(k), v), u.path)
        for gname, g in sorted(u.globals.items()):
            if "enum Boundary" in g.a[1] and "[" in g.a[1] and g.a[2] is not None and g.a[2].op == "init":
                bnd = boundaries(w, 3 if "3D" in g.a[1] else 2)
                inv = {d: k for k, (_, d) in bnd.items()}
                vals = [const_of(x, u) for x in g.a[2].a[0]]
                for k, (nm, d) in sorted(bnd.items()):
                    want = inv[tuple(-x for x in d)]
                    c.ob("opposite", "%s %s[%s]" % (name, gname, nm), k < len(vals) and vals[k] == want, "opposite of %s is %s, expected %s" % (nm, vals[k] if k < len(vals) else None, bnd[want][0]), g.loc)
    c.need(n >= 6, "only %d C enumerations of directions found" % n)


# ------------------------------------------------------------------ initialisation order
INIT = '''
from .simulation.simulation import Simulation, Simulation3D
def main(self: Simulation{d}):
    self.dimension = {dim}
    self.initialize()
    return self.patches
'''


def init_trace(dim):
    """events of Simulation.initialize on rank 0 that concern the placement of patches"""
    w = world()
    it = fresh(w)
    d = "3D" if dim == 3 else ""
    simf = w.cls("simulation.simulation", "Simulation" + d).module
    it.inline_pred = lambda fn: "/simulation/" in str(fn.file) and fn.name != "create_patches" or getattr(fn.module, "synthetic", False)
    it.noinline = {"_add_default_species_if_empty", "create_patches"}
    it.isobj = lambda a: True
    ev = []

    def rec(name):
        def h(it_, av, kv, st, n):
            ev.append((name, repr(av[0]) if av else "", st.pc, n.loc, tuple(map(repr, av[1:])) + tuple("%s=%r" % x for x in kv)))
            return None
        return h
    for nm in ("init_neighbor_rank_%dd" % dim, "init_neighbor_ipatch_%dd" % dim, "scatter", "create_patches", "append"):
        it.intrin["." + nm] = rec(nm)
        it.intrin["Patches." + nm] = it.intrin["." + nm]
    it.intrin["Simulation%s.create_patches" % d] = it.intrin["Simulation.create_patches"] = rec("create_patches")
    it.intrin["compute_rank"] = rec("compute_rank")
    it.intrin[".Get_rank"] = lambda it_, av, kv, st, n: P(0)
    eff, ret, st = it.run_func(w.driver(INIT.format(d=d, dim=dim)))
    return ev, eff, ret, it


def rebuild_job(dim):
    ev, eff, ret, it = init_trace(dim)
    w = world()
    meth = w.method(w.cls("simulation.simulation", "Simulation"), "initialize")
    loc = (meth.file, meth.line)
    rows = list(enumerate(flat(eff)))
    glob = local = None
    for i, (e, loops, pc) in rows:
        if e.kind == "call" and e.name == "create_patches":
            glob = repr(e.res)
        if e.kind == "store" and e.key == "patches" and repr(e.base) == "self":
            local = repr(e.val)
    obs = []

    def pos(f):
        return [(i, e, pc) for i, (e, loops, pc) in rows if f(e)]
    ranks = pos(lambda e: e.kind == "store" and e.key == "rank" and glob is not None and repr(e.base).startswith(glob))
    nr = pos(lambda e: e.kind == "call" and e.name == "init_neighbor_rank_%dd" % dim and repr(e.recv) == glob)
    sc = pos(lambda e: e.kind == "call" and e.name == "scatter" and repr(e.res) == local)
    nl = pos(lambda e: e.kind == "call" and e.name == "init_neighbor_ipatch_%dd" % dim and repr(e.recv) == local)
    nr2 = pos(lambda e: e.kind == "call" and e.name == "init_neighbor_rank_%dd" % dim and repr(e.recv) == local)
    obs.append(("rebuild", "%dd ranks assigned" % dim, bool(ranks) and ranks[0][2] is TRUE, "initialize assigns no rank to the created patches", loc))
    if ranks and sc:
        good = [x for x in nr if ranks[-1][0] < x[0] < sc[-1][0] and x[2] is TRUE]
        obs.append(("rebuild", "%dd rank table" % dim, bool(good) or bool(nr2), "neighbour ranks are not built between the rank assignment and the distribution of the patches", good[0][1].loc if good else loc))
        obs.append(("rebuild", "%dd local table" % dim, any(x[0] > sc[-1][0] and x[2] is TRUE for x in nl), "local neighbour positions are not built after the patches were distributed", loc))
    else:
        obs.append(("rebuild", "%dd distribution" % dim, False, "no distribution of the patches found", loc))
    # layers are attached to the distributed patches once their fields exist and before the solver lists them
    pm = pos(lambda e: e.kind == "call" and e.name == "add_pml_boundary")
    fl = pos(lambda e: e.kind == "call" and e.name == "set_fields")
    mx = pos(lambda e: e.kind == "call" and str(e.name).startswith("new:MaxwellSolver"))
    ok = bool(pm and fl and mx) and all(fl[-1][0] < x[0] < mx[0][0] and local is not None and repr(x[1].recv).startswith(local) for x in pm)
    obs.append(("order", "%dd layers" % dim, ok, "absorbing layers are attached at %s, fields at %s, field solver at %s" % ([x[1].loc for x in pm][:2], [x[1].loc for x in fl][:1], [x[1].loc for x in mx][:1]), loc))
    return obs, it.analysed


# ------------------------------------------------------------------ absorbing layers
def pml_job(job):
    dim, cls, bcs = job
    w = world()
    it = fresh(w)
    axes = "xyz"[:dim]
    cname = "Simulation" + ("3D" if dim == 3 else "")
    names = ["n%s" % a for a in axes] + ["i%s" % a for a in axes]
    src = "from .simulation.simulation import %s\nfrom .core.patch.patch import Patch%dD\n" % (cname, dim)
    src += "def main(self: %s, p: Patch%dD, th, %s):\n" % (cname, dim, ", ".join(names))
    for a in axes:
        src += "    p.ipatch_%s = i%s\n    self.npatch_%s = n%s\n" % (a, a, a, a)
    src += "    p.pml_boundary = []\n    self.patches = [p]\n    self.cpml_thickness = th\n"
    src += "    self.boundary_conditions = %r\n" % {a + s: bcs[k][j] for k, a in enumerate(axes) for j, s in enumerate(("min", "max"))}
    src += "    self._init_pml()\n    return p.pml_boundary\n"
    fn = w.driver(src)
    args = {}
    for k, a in enumerate(axes):
        i, n = position(cls[k], a)
        args["i" + a], args["n" + a] = i, n
    th = P(atom("sym", "th"))
    args["th"] = th
    made = {}

    def ctor(nm):
        def h(it_, av, kv, st, n):
            a = atom("newobj", nm, next(it_.seq))
            it_.types[a] = w.cls("core.boundary.cpml", nm)
            made[a] = (nm, av, dict(kv), st.pc)
            return P(a)
        return h
    sides = [a.upper() + s for a in axes for s in ("min", "max")]
    for s in sides:
        it.intrin["PML" + s] = ctor("PML" + s)

    # how many layers one patch may carry is the rejection rule, not the placement rule
    def add(it_, av, kv, st, n):
        it_.emit(CallE("add_pml_boundary", av[1:], kv, st.pc, n.loc, (), NONE, recv=av[0]))
        return NONE
    it.intrin[".add_pml_boundary"] = it.intrin["Patch%dD.add_pml_boundary" % dim] = add
    eff, ret, st = it.run_func(fn, args=args)
    meth = w.method(w.cls("simulation.simulation", cname), "_init_pml")
    loc = (meth.file, meth.line)
    got = {}
    other = []
    for e, loops, pc in flat(eff):
        if e.kind == "call" and e.name == "add_pml_boundary":
            a = e.args[0].as_atom() if e.args and isinstance(e.args[0], Poly) else None
            if pc is FALSE or loops:
                other.append(show_b(pc))
                continue
            if a not in made or repr(e.recv) != "p":
                other.append(repr(e.args))
                continue
            nm, av, kv, _ = made[a]
            got.setdefault(nm, []).append((pc, av, kv))
    obs = []
    pos = "/".join(cls)
    side = "/".join("".join(b[0] for b in x) for x in bcs)
    for k, a in enumerate(axes):
        for j, s in enumerate(("min", "max")):
            nm = "PML" + a.upper() + s
            at = cls[k] in (("only", "first") if j == 0 else ("only", "last"))
            want = at and bcs[k][j] == "pml"
            g = got.get(nm, [])
            ok = len(g) == (1 if want else 0) and all(x[0] is TRUE for x in g)
            obs.append(("side", "%dd %s" % (dim, nm), ok, "patch at %s, sides %s: layer attached %d times%s, expected %d" % (
                pos, side, len(g), "" if all(x[0] is TRUE for x in g) else " (only if %s)" % show_b(g[0][0]), want), loc))
            for x in g:
                v = list(x[1]) + [x[2].get("fields"), x[2].get("thickness")]
                ok = any(isinstance(y, Poly) and repr(y) == "p.fields" for y in v) and any(isinstance(y, Poly) and y == th for y in v)
                obs.append(("layer", "%dd %s" % (dim, nm), ok, "layer is built from %s instead of the patch's fields and the configured thickness" % (v,), loc))
    if other:
        obs.append(("side", "%dd other" % dim, False, "layer attached to an unrecognised patch: %s" % other[:2], loc))
    return obs, it.analysed


def p36(c):
    c.rule("side", "for every position class of a patch and every combination of sides, each layer is attached exactly when the patch touches that side and the side is not periodic")
    c.rule("layer", "the layer is built from the patch's own fields and the configured thickness")
    c.rule("order", "layers are attached to the distributed patches after their fields exist and before the field solver lists them")
    c.rule("window", "when the moving window starts the layers along its axis, and only these, are removed from every patch")
    c.units |= {"src/lambdapic/simulation/simulation.py", "src/lambdapic/callback/utils.py", "src/lambdapic/core/patch/patch.py"}
    thorough = c.tier == "thorough"
    jobs = [("pml_job", j) for j in index_jobs(2, thorough) + index_jobs(3, thorough)]
    jobs += [("order_job", 2), ("order_job", 3)]
    run_jobs(c, jobs)
    from . import window
    run_jobs(c, window.p36_jobs(thorough), mod=vars(window), only={"window"})
    c.floor("window", 3)
    c.floor("side", 10)
    c.floor("layer", 10)
    c.floor("order", 2)


def order_job(dim):
    o, f = rebuild_job(dim)
    return [x for x in o if x[0] == "order"], f


def table_job(dim):
    o, f = rebuild_job(dim)
    return [x for x in o if x[0] == "rebuild"], f
