"""P19: sorting permutes whole particles and reports the bounds of every cell.

The Python sorter and the compiled kernel are followed on enumerated slot patterns (every combination of cells, edges,
outside and dead over a few slots; every patch of a run holds another pattern). Attribute values are symbols."""
from ..world import *
from ..interp import *
from .. import smallnp
from .exchange import setup, AX
from .qed import S, flag, same
from .topology import run_jobs
from fractions import Fraction as F
import itertools

ATT = {2: ["x", "y", "w", "ux", "inv_gamma", "_id"], 3: ["x", "y", "z", "w", "uz", "_id"]}
H = (F(2), F(3), F(1, 2))
LO = (F(5), F(-7), F(9))


def num(x):
    x = F(x)
    return "(%d / %d)" % (x.numerator, x.denominator) if x.denominator != 1 else "(%d)" % x


def job(dim, nb, n, reverse, pats, again, tag):
    """nb buckets of n cells each side...; pats: one pattern per patch; a slot is None (dead) or a bucket (or 'out')"""
    w = world()
    it = setup(w)
    att = ATT[dim]
    np_ = len(pats)
    full0 = it.intrin.get("full")

    def full(it_, av, kv, st, n_):
        if av and isinstance(av[0], Tup) and len(av[0].items) > 1:
            k = 1
            for x in av[0].items:
                k *= int(it_.num(x).const())
            return smallnp.new(it_, st, [av[1] if len(av) > 1 else dict(kv).get("fill_value")] * k)
        r = smallnp.call(it_, st, "np.full", av, kv, n_)
        if r is None:
            raise Broken("the length of an array made by the sorter is not decided")
        return r
    it.intrin["full"] = full
    snaps = []

    def snap(it_, av, kv, st, n_):
        snaps.append({k: [smallnp.items(it_, st, st.mem[atom("sym", "a%d" % i)].vals[k]) for i in range(np_)] for k in att + ["is_dead"]})
        return NONE
    it.intrin["SNAP"] = snap
    bounds = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n_: (bounds.append([[smallnp.items(it_, st, x) for x in v.items] for v in av[:2]] + [flag(av[2])]), NONE)[1]
    src = "from .core.patch.patch import Patches, Patch%dD\nfrom .core.particles import ParticlesBase\nfrom .core.species import Species\nfrom .core.sort.particle_sort import ParticleSort%dD\n" % (dim, dim)
    src += "def main(ps: Patches, sp: Species, %s, %s):\n" % (", ".join("p%d: Patch%dD" % (i, dim) for i in range(np_)), ", ".join("a%d: ParticlesBase" % i for i in range(np_)))
    src += "    sp.ispec = 0\n"
    cell = [F(n[a], nb[a]) * H[a] for a in range(dim)]       # size of a bucket

    def setpos(pats, r):
        r, sl = (r, "[:]") if r == 1 else (r, "")
        s = ""
        for i, pat in enumerate(pats):
            vals = [[], [], []]
            for k, b in enumerate(pat):
                for a in range(dim):
                    lo = LO[a] + i * 100
                    if b == "out":      # beyond one side, or beyond several
                        v = (k + i) % (2 * dim + 1)
                        q = (k + a) % nb[a]
                        if v == 2 * dim or v // 2 == a:
                            q = -1 - (i // 7) % 2 if (v + i // 3) % 2 else nb[a] + (i // 5) % 2
                    else:
                        q = (b if b is not None else tuple((k + a + i) % m for a, m in enumerate(nb)))[a]
                    f = F((k * 3 + i + r) % 4, 4)          # 0: exactly on the lower edge
                    vals[a].append(lo - H[a] / 2 + (q + f) * cell[a])
            for a in range(dim):
                s += "    a%d.%s%s = ARR(%s)\n" % (i, AX[a], sl, ", ".join(map(num, vals[a])))
            s += "    a%d.is_dead%s = ARR(%s)\n" % (i, sl, ", ".join(str(b is None) for b in pat))
        return s
    src += setpos(pats, 0)
    for i, pat in enumerate(pats):
        for a in range(dim):
            src += "    p%d.%s0 = %s\n    p%d.n%s = %d\n    p%d.d%s = %s\n" % (i, AX[a], num(LO[a] + i * 100), i, AX[a], n[a], i, AX[a], num(H[a]))
        src += "    p%d.particles = [a%d]\n" % (i, i)
        for k in att[dim:]:
            auto = reverse in ("+", "-") and k in ("w", "ux", "uz")     # the sign of the drift decides the numbering
            src += "    a%d.%s = ARR(%s)\n" % (i, k, ", ".join(("(%s%d)" % (reverse if k != "w" else "", 1 + i * 16 + j)) if auto else 'SYM("%s_%d_%d")' % (k, i, j) for j in range(len(pat))))
        if "ux" not in att and reverse in ("+", "-"):
            src += "    a%d.ux = ARR(%s)\n" % (i, ", ".join("%s1" % reverse for j in pat))
        src += "    a%d.attrs = %r\n    a%d.npart = %d\n" % (i, att, i, len(pat))
    src += "    ps.dimension = %d\n    ps.npatches = %d\n    ps.patches = [%s]\n    ps.species = [sp]\n" % (dim, np_, ", ".join("p%d" % i for i in range(np_)))
    for a in range(dim):
        src += "    ps.n%s = %d\n    ps.d%s = %s\n" % (AX[a], n[a], AX[a], num(H[a]))
    kw = ", ".join(["n%s_buckets=%d" % (AX[a], nb[a]) for a in range(dim)] + ["d%s_buckets=%s" % (AX[a], num(cell[a])) for a in range(dim)])
    src += "    s = ParticleSort%dD(ps, sp, %s, reverse_x=%s)\n" % (dim, kw, None if reverse in ("+", "-") else reverse)
    one = "    SNAP()\n    s()\n    SNAP()\n    OUT(s.bucket_bound_min_list, s.bucket_bound_max_list, s.reverse_x)\n"
    src += one
    pat2 = pats[1:] + pats[:1] if again else None
    if again:
        pat2 = [tuple(reversed(p)) for p in pats]
        if again == "grown":
            for i in range(np_):
                if i % 3 != 1:
                    pat2[i] += (((pats[i] + ("out",))[0]), None, tuple((i + k) % m for k, m in enumerate(nb)))
                    src += "    a%d._npart_created = %d\n    a%d.extend(3)\n" % (i, len(pats[i]), i)
                    for k in att[dim:]:
                        src += "    a%d.%s[:] = ARR(%s)\n" % (i, k, ", ".join('SYM("%s_%d_%d_g")' % (k, i, j) for j in range(len(pat2[i]))))
        if again == "replaced":
            for i in range(np_):
                for k in att[dim:]:
                    src += "    a%d.%s = ARR(%s)\n" % (i, k, ", ".join('SYM("%s_%d_%d_g")' % (k, i, j) for j in range(len(pat2[i]))))
        src += setpos(pat2, 2 if again == "replaced" else 1) + one
    src += "    return 0\n"
    loc = ("src/lambdapic/core/sort/cpu%dd.c" % dim, 0)
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("range", tag, False, str(x), x.loc or loc)], it.analysed
    if len(snaps) != (4 if again else 2):
        raise Broken("the sorter is not followed to its end")
    bad = {}
    if reverse in ("+", "-") and any(b[2] is None for b in bounds):
        raise Broken("the numbering the sorter chose is not decided")
    keys = [("permutation", "first"), ("bounds", "first")] + ([("permutation", "again"), ("bounds", "again")] if again else [])
    for rnd in range(len(snaps) // 2):
        A, B = snaps[2 * rnd], snaps[2 * rnd + 1]
        ps = (pats, pat2)[rnd]
        nm = ("first", "again")[rnd]
        for i in range(np_):
            if any(A[k][i] is None or B[k][i] is None for k in A):
                raise Broken("the arrays of a patch cannot be followed through the sort")
            m = perm(A, B, i, att + ["is_dead"])
            if isinstance(m, str):
                bad.setdefault(("permutation", nm), "slots %s of a patch with buckets %s: %s" % (ps[i], nb, m))
                continue
            m = delimit(m, ps[i], nb, bounds[rnd][:2], i, bounds[rnd][2] if reverse in ("+", "-") else reverse, A["is_dead"][i])
            if m:
                bad.setdefault(("bounds", nm), "slots %s of a patch with buckets %s: %s" % (ps[i], nb, m))
    return [(r, tag + " " + k, (r, k) not in bad, bad.get((r, k), ""), loc) for r, k in keys] + [("range", tag, True, "", loc)], it.analysed


def perm(A, B, i, att):
    """source slot of every final slot, or what is wrong"""
    n = len(A["w"][i])
    for k in att:
        if len(B[k][i]) != n:
            return "%s has %d slots afterwards" % (k, len(B[k][i]))
    src = []
    for j in range(n):
        c = [q for q in range(n) if same(A["w"][i][q], B["w"][i][j])] if "w" in att else []
        if len(c) != 1:
            return "slot %d holds weight %s afterwards" % (j, B["w"][i][j])
        src.append(c[0])
    if sorted(src) != list(range(n)):
        d = next(x for x in src if src.count(x) > 1)
        return "the particle of slot %d is there %d times afterwards" % (d, src.count(d))
    for j, q in enumerate(src):
        for k in att:
            if k == "is_dead":
                if flag(A[k][i][q]) != flag(B[k][i][j]) or flag(B[k][i][j]) is None:
                    return "the dead flag of slot %d is not the one of its particle" % j
            elif not same(A[k][i][q], B[k][i][j]):
                return "%s of slot %d is %s, its particle has %s" % (k, j, B[k][i][j], A[k][i][q])
    return src


def delimit(src, pat, nb, bounds, i, reverse, dead):
    tot = 1
    for x in nb:
        tot *= x
    lo, hi = [[x.const() if isinstance(x, Poly) else None for x in b[i]] for b in bounds]
    if any(x is None for x in lo + hi) or len(lo) != tot:
        raise Broken("the bounds of a bucket are not decided")
    where = {}
    for b in range(tot):
        if not 0 <= lo[b] <= hi[b] <= len(pat):
            return "bucket %d spans slots %s to %s of %d" % (b, lo[b], hi[b], len(pat))
        for j in range(int(lo[b]), int(hi[b])):
            if j in where:
                return "slot %d belongs to two buckets" % j
            where[j] = b
    for j, q in enumerate(src):
        b = pat[q]
        if b is None:
            continue
        if j not in where:
            return "slot %d holds a live particle in no bucket" % j
        if b == "out":
            continue
        ix = nb[0] - 1 - b[0] if reverse else b[0]
        c = ix
        for a in range(1, len(nb)):
            c = c * nb[a] + b[a]
        if where[j] != c:
            return "a particle of cell %s is in bucket %d (slot %d), expected %d" % (b, where[j], j, c)
    return None


def attrs_job(name):
    """the arrays a particle set declares are among the attributes the sorters (and exchanges) move"""
    w = world()
    it = setup(w)
    got = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n_: (got.append(av[0]), NONE)[1]
    cls = w.cls("core.particles", name)
    it.run_func(w.driver("from .core.particles import %s\ndef main():\n    a = %s(0, 0)\n    OUT(a.attrs)\n    return 0\n" % (name, name)))
    if len(got) != 1 or not isinstance(got[0], Tup) or not all(isinstance(x, str) for x in got[0].items):
        raise Broken("the attribute list of %s is not decided" % name)
    own = set(got[0].items)
    obs = []
    import ast
    for k in w.pkg.mro(cls):
        for f, an in k.annots.items():
            t = an if isinstance(an, str) else repr(an)
            if "float64" in t and "NDArray" in t:
                obs.append(("attributes", "%s.%s" % (name, f), f in own, "%s is an array of every particle of %s, yet not among its attributes: it stays behind when slots are reordered" % (f, name), (cls.module.path if hasattr(cls.module, "path") else "src/lambdapic/core/particles.py", 0)))
    for x in sorted(own):
        obs.append(("attributes", "%s:%s once" % (name, x), got[0].items.count(x) == 1, "%s is listed twice" % x, ("src/lambdapic/core/particles.py", 0)))
    return obs, it.analysed


def p19(c):
    c.rule("permutation", "after a sort every slot holds one whole particle of before (all attributes, identifier and dead flag of the same slot), each exactly once")
    c.rule("bounds", "the reported bounds split the slots among the buckets, and a live particle inside a cell is within the bounds of that cell's bucket")
    c.rule("range", "no access outside an array on any followed pattern")
    c.rule("attributes", "every per-particle array a particle class declares is in the list of attributes the sorter moves, once")
    w = world()
    mod = w.mod("core.particles")
    jobs = [("attrs_job", k) for k, v in sorted(mod.classes.items()) if any(x.name == "ParticlesBase" for x in w.pkg.mro(v))]

    def add(dim, nb, n, reverse, pats, again=False, chunk=24):
        for q in range(0, len(pats), chunk):
            jobs.append(("job", dim, nb, n, reverse, pats[q:q + chunk], again, "%dD %s%s %d-%d" % (dim, "x".join(map(str, nb)), {"+": " drifting up", "-": " drifting down", True: " mirrored", False: ""}[reverse], q, len(pats[q])) + (" " + str(again) if again else "")))
    cells = lambda nb: list(itertools.product(*[range(x) for x in nb]))
    P2 = cells((2, 3)) + [None, "out"]
    add(2, (2, 3), (2, 3), False, list(itertools.product(P2, repeat=3))[:: 1 if c.tier == "thorough" else 3])
    P1 = cells((3, 1)) + [None, "out"]
    four = list(itertools.product(P1, repeat=4))
    for rev in (False, True, "+", "-"):
        add(2, (3, 1), (3, 4), rev, four[:: 1 if c.tier == "thorough" else 5])
    # several sizes, sorted twice with everything moved in between
    var = [p for m in (0, 1, 2, 5, 7) for p in [tuple(P2[(k * s + t) % len(P2)] for k in range(m)) for s, t in ((1, 0), (3, 1), (5, 4), (7, 6))]]
    add(2, (2, 3), (2, 3), False, var, True)
    add(2, (2, 3), (2, 3), False, var, "grown")
    add(2, (2, 3), (2, 3), False, var, "replaced")
    P3 = cells((2, 3, 2)) + [None, "out"]
    add(3, (2, 3, 2), (2, 3, 2), False, list(itertools.product(P3, repeat=2)))
    var = [p for m in (0, 1, 3, 5, 8) for p in [tuple(P3[(k * s + t) % len(P3)] for k in range(m)) for s, t in ((1, 0), (3, 1), (5, 4), (11, 6))]]
    add(3, (2, 3, 2), (2, 3, 2), False, var, True)
    add(3, (2, 3, 2), (2, 3, 2), False, var, "grown")
    add(3, (2, 3, 2), (2, 3, 2), False, var, "replaced")
    Q = cells((3, 1, 1)) + [None, "out"]
    for rev in (False, True, "+", "-"):
        add(3, (3, 1, 1), (3, 2, 4), rev, list(itertools.product(Q, repeat=3)) if c.tier == "thorough" else list(itertools.product(Q, repeat=3))[::2])
    run_jobs(c, jobs, mod=globals())
    for r, m in (("permutation", 20), ("bounds", 20), ("range", 15), ("attributes", 40)):
        c.floor(r, m)
    c.assume("positions are representatives of their cell (inside and exactly on its lower edge); slots are enumerated in small numbers")
