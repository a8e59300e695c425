"""P28 binary collisions.

The formulas the collision kernel leaves in both partners are extracted symbolically and compared with the conservation
laws in every region (weights, draws, degenerate kinematics); the pairing is followed for every pattern of dead slots and
every order the shuffle can produce; the cells and species handed to it are followed through the patch loops."""
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs
from .qed import setup, slots, read, old, same, near, S, CONSTS
import itertools
from fractions import Fraction as F
import math

C = 299792458
# a system of units where the numbers stay near one (the formulas must hold in any; c is a number in them)
UNIT = {"c": C, "epsilon_0": 0.3, "pi": math.pi, "h": 0.02, "k": 1.0, "hbar": 0.02 / (2 * math.pi), "e": 1.0, "m_e": 1.0}
MOM = ("ux", "uy", "uz")


def prep(w, dim=2):
    it = setup(w, dim)
    it.letmax = 8
    it.nu = 0

    def uni(it_, av, kv, st, n):
        it_.nu += 1
        u = S("U%d" % it_.nu)
        a = list(av[1:])
        return u if not a else a[0] + (a[1] - a[0]) * u
    it.intrin[".uniform"] = it.intrin[".random"] = uni
    it.intrin[".shuffle"] = lambda it_, av, kv, st, n: NONE
    return it


HEADC = '''
from .core.particles import ParticlesBase
from .core.collision.cpu import inter_collision_cell, intra_collision_cell, inter_collision_patches, intra_collision_patches, debye_length_patches
from .core.collision.collision import Collision
from .core.collision.utils import pack_particle_data
'''


def kernel_job(kind, lnl):
    """one pair; kind: two species, or two particles of one species"""
    w = world()
    it = prep(w)
    if kind == "inter":
        src = HEADC + "def main(a: ParticlesBase, b: ParticlesBase, g):\n" + slots("a", 1, [0]) + slots("b", 1, [0])
        src += "    pa = pack_particle_data(a, SYM('m1'), SYM('q1'))\n    pb = pack_particle_data(b, SYM('m2'), SYM('q2'))\n"
        src += "    inter_collision_cell(pa, 0, 1, pb, 0, 1, %s, SYM('deb'), SYM('vol'), SYM('dt'), g)\n    return 0\n" % ("SYM('lnL')" if lnl else "0.0")
        part = [("a", 0), ("b", 0)]
    else:
        src = HEADC + "def main(a: ParticlesBase, g):\n" + slots("a", 2, [0, 0])
        src += "    pa = pack_particle_data(a, SYM('m1'), SYM('q1'))\n"
        src += "    intra_collision_cell(pa, 0, 2, %s, SYM('deb'), SYM('vol'), SYM('dt'), g)\n    return 0\n" % ("SYM('lnL')" if lnl else "0.0")
        part = [("a", 0), ("a", 1)]
    eff, ret, st = it.run_func(w.driver(src))
    if ret is None:
        raise Broken("the collision of one pair cannot be followed")
    fin = {o: read(it, st, o) for o, _ in part}
    loc = ("src/lambdapic/core/collision/cpu.py", 0)
    obs = []
    tag = "%s %s" % (kind, "fixed logarithm" if lnl else "computed logarithm")
    # everything except momenta and inverse Lorentz factors is untouched
    m = None
    for o, i in part:
        for a in fin[o]:
            if a in MOM + ("inv_gamma", "is_dead", "event"):
                continue
            if not same(fin[o][a][i], old(o, a, i)):
                m = m or "%s of a colliding particle changes" % a
    obs.append(("kernel", tag + " other attributes", m is None, m or "", loc))
    us = [((0.3, -0.2, 0.5), (-0.4, 0.1, 0.7)), ((3.0, 1.0, -2.0), (0.0, 0.0, 0.0)), ((0.0, 0.0, 2.0), (0.0, 0.0, -2.0)),
          ((0.0, 0.0, 0.05), (0.0, 0.0, 0.01)), ((F(3, 4), F(0), F(0)), (F(3, 4), F(0), F(0))), ((F(0), F(0), F(-4, 3)), (F(0), F(0), F(-4, 3))), ((5.0, 0.0, 0.0), (-5.0, 0.0, 0.0)),
          ((F(0), F(0), F(0)), (F(0), F(0), F(0))), ((0.02, 0.03, -0.01), (-0.015, 0.002, 0.03))]
    wts = [(1.0, 1.0), (1.0, 0.25), (0.25, 1.0)]
    ms = [(1, 1), (1, 1836)] if kind == "inter" else [(1, 1)]
    bad = {}
    n = 0
    draws = [{1: a, 2: b, 3: c} for a, b in ((0.3, 0.7), (0.04, 0.1), (0.999, 0.5)) for c in (0.1, 0.6)]
    for (u1, u2), (w1, w2), (m1, m2), U, dt in itertools.product(us, wts, ms, draws, (C**3, 1e4 * C**3)):
        vals = {"m1": m1, "m2": m2, "q1": 1.0, "q2": -1.0, "lnL": 3.0, "deb": 1e-3, "vol": 4.0, "dt": dt, "w": None}
        g1, g2 = [alg._root(1 + sum(x * x for x in u)) for u in (u1, u2)]
        for (o, i), u, g, wt in zip(part, (u1, u2), (g1, g2), (w1, w2)):
            for a, x in zip(MOM, u):
                vals["%s_%s_%d" % (o, a, i)] = x
            vals["%s_inv_gamma_%d" % (o, i)] = 1 / g
            vals["%s_w_%d" % (o, i)] = wt

        def leaf(a):
            if a.kind == "sym":
                s = str(a.args[0])
                if s in vals:
                    return vals[s]
                if s[0] == "U" and s[1:].isdigit():
                    return U.get(int(s[1:]), 0.42)
            if a.kind == "const":
                return UNIT.get(str(a.args[0]))
            return None
        memo = {}
        got = []
        try:
            for o, i in part:
                got.append([float(alg.evaluate(fin[o][a][i], leaf, memo)) for a in MOM + ("inv_gamma",)])
        except ZeroDivisionError:
            bad.setdefault("defined", "momenta u1=%s u2=%s, masses %s, weights %s: division by zero" % (u1, u2, (m1, m2), (w1, w2)))
            continue
        n += 1
        case = "momenta u1=%s u2=%s, masses %s, weights %s, draws %s: " % (u1, u2, (m1, m2), (w1, w2), U)
        if any(math.isnan(x) for g in got for x in g):
            bad.setdefault("defined", case + "a momentum is not a number")
            continue
        M = [m1, m2 if kind == "inter" else m1]
        scale = sum(mm * (1 + sum(abs(x) for x in u)) for mm, u in zip(M, (u1, u2)))
        for k in range(2):
            ig = 1 / math.sqrt(1 + sum(x * x for x in got[k][:3]))
            if not near(got[k][3], ig, 1e-6):
                bad.setdefault("gamma", case + "inverse Lorentz factor of partner %d is %s, its momentum gives %s" % (k + 1, got[k][3], ig))
        moved = [max(abs(x - y) for x, y in zip(got[k][:3], u)) > 1e-9 * (1 + max(map(abs, u))) for k, u in enumerate((u1, u2))]
        rel = max(abs(x / g1 - y / g2) for x, y in zip(u1, u2)) > 1e-6
        if not rel and any(moved):
            bad.setdefault("rest", case + "particles without relative velocity are scattered")
        if not rel:
            continue
        # the draw that decides about the partners is one of the draws; accept any consistent one
        ok = False
        for k in U:
            want = [w2 / max(w1, w2) > U[k], w1 / max(w1, w2) > U[k]]
            hit = True
            for j in range(2):
                if moved[j] and not want[j]:
                    hit = False
                if want[j] and not moved[j] and not small_angle(got, want, j):
                    hit = False
            ok = ok or hit
        if not ok:
            bad.setdefault("weights", case + "partner 1 %s, partner 2 %s" % tuple("changes" if x else "keeps its momentum" for x in moved))
        if all(moved) or w1 == w2:
            for j in range(3):
                d = sum(M[k] * (got[k][j] - (u1, u2)[k][j]) for k in range(2))
                if abs(d) > 1e-6 * scale:
                    bad.setdefault("momentum", case + "the sum of momenta along axis %d changes by %s (scale %s)" % (j, d, scale))
            e = sum(M[k] * (math.sqrt(1 + sum(x * x for x in got[k][:3])) - (g1, g2)[k]) for k in range(2))
            if abs(e) > 1e-6 * scale:
                bad.setdefault("energy", case + "the sum of energies changes by %s (scale %s)" % (e, scale))
        elif moved[0] != moved[1]:
            # energy of the changed partner in the frame of the pair is what it was
            k = 0 if moved[0] else 1
            ptot = [sum(M[q] * (u1, u2)[q][j] for q in range(2)) for j in range(3)]
            etot = M[0] * g1 + M[1] * g2
            inv = lambda u, g: etot * g - sum(a * b for a, b in zip(ptot, u))
            a, b = inv(got[k][:3], math.sqrt(1 + sum(x * x for x in got[k][:3]))), inv((u1, u2)[k], (g1, g2)[k])
            if abs(a - b) > 1e-6 * scale * max(1, etot / min(M)):
                bad.setdefault("energy", case + "partner %d does not keep its energy in the frame of the pair (%s, was %s)" % (k + 1, a, b))
    if n < 200:
        raise Broken("only %d cases of a collision could be decided" % n)
    for k in ("momentum", "energy", "gamma", "weights", "rest", "defined"):
        obs.append(("kernel", "%s %s" % (tag, k), k not in bad, bad.get(k, ""), loc))
    return obs, it.analysed


def small_angle(got, want, j):
    return False


def pairing_job(kind, sizes):
    """which pairs collide, for dead patterns and shuffles; sizes: slots of each side"""
    w = world()
    obs = []
    an = set()
    loc = ("src/lambdapic/core/collision/utils.py", 0)
    bad = {}
    cases = 0
    off = [2, 1]
    for deads in itertools.product(*[list(itertools.product((0, 1), repeat=n)) for n in sizes]):
        live = [[i + off[k] for i, d in enumerate(dd) if not d] for k, dd in enumerate(deads)]
        nmax = max(sizes)
        perms = list(itertools.permutations(range(nmax))) if nmax <= 3 else [tuple(range(nmax)), tuple(reversed(range(nmax))), (1, 3, 0, 2) + tuple(range(4, nmax)), (2, 0, 3, 1) + tuple(range(4, nmax)), tuple(range(1, nmax)) + (0,)]
        for pm in perms:
            it = prep(w)
            got = []

            def kern(it_, av, kv, st, n):
                got.append((str(av[0].items[-2]), idx(av[1]), str(av[2].items[-2]), idx(av[3]), av[6].const(), av[7].const()))
                return NONE
            it.intrin["collision_kernel"] = kern

            def shuffle(it_, av, kv, st, n):
                xs = smallnp.items(it_, st, av[1])
                if xs is None:
                    raise Broken("the shuffled index array is not followed")
                order = [p for p in pm if p < len(xs)]
                for i, p in enumerate(order):
                    smallnp.put(it_, st, av[1], i, xs[p], None)
                return NONE
            it.intrin[".shuffle"] = shuffle
            # neighbours of the cell are alive: taking them is seen
            D = [[0] * off[k] + list(dd) + [0] for k, dd in enumerate(deads)]
            if kind == "intra":
                src = HEADC + "def main(a: ParticlesBase, g):\n" + slots("a", len(D[0]), D[0]) + "    pa = pack_particle_data(a, SYM('m1'), SYM('q1'))\n"
                src += "    intra_collision_cell(pa, %d, %d, 2.0, 0.0, SYM('vol'), SYM('dt'), g)\n    return 0\n" % (off[0], off[0] + sizes[0])
            else:
                src = HEADC + "def main(a: ParticlesBase, b: ParticlesBase, g):\n" + slots("a", len(D[0]), D[0]) + slots("b", len(D[1]), D[1])
                src += "    pa = pack_particle_data(a, SYM('m1'), SYM('q1'))\n    pb = pack_particle_data(b, SYM('m2'), SYM('q2'))\n"
                src += "    inter_collision_cell(pa, %d, %d, pb, %d, %d, 2.0, 0.0, SYM('vol'), SYM('dt'), g)\n    return 0\n" % (off[0], off[0] + sizes[0], off[1], off[1] + sizes[1])
            case = "dead %s, shuffle %s: " % (deads, pm)
            try:
                it.run_func(w.driver(src))
            except smallnp.OutOfRange as x:
                bad.setdefault("range", case + str(x))
                continue
            except UnrollLimit:
                bad.setdefault("ends", case + "the pairing does not end")
                continue
            an |= it.analysed
            cases += 1
            side = {"m1": 0, "m2": 1}
            cnt = [{}, {}]
            for ma, i, mb, j, dtc, wc in got:
                if kind == "intra":
                    lv = [live[0], live[0]]
                    if i == j:
                        bad.setdefault("pairs", case + "slot %d collides with itself" % i)
                    for x in (i, j):
                        cnt[0][x] = cnt[0].get(x, 0) + 1
                else:
                    lv = live
                    if (ma, mb) != ("m1", "m2"):
                        bad.setdefault("pairs", case + "a pair is not made of both species")
                    cnt[0][i] = cnt[0].get(i, 0) + 1
                    cnt[1][j] = cnt[1].get(j, 0) + 1
                for k, x in enumerate((i, j)):
                    if x not in lv[k]:
                        d = D[0 if kind == "intra" else k]
                        bad.setdefault("pairs", case + "slot %d (%s) takes part" % (x, "dead" if 0 <= x < len(d) and d[x] else "of another cell"))
                if wc is None or not 0 < wc <= 1:
                    bad.setdefault("factor", case + "weight factor %s" % wc)
            if kind == "intra":
                N = len(live[0])
                if N < 2:
                    if got:
                        bad.setdefault("pairs", case + "%d pairs among %d living particles" % (len(got), N))
                    continue
                if len(got) != (N + 1) // 2 or any(cnt[0].get(x, 0) < 1 for x in live[0]):
                    bad.setdefault("cover", case + "pairs %s do not hold every living particle" % [(g[1], g[3]) for g in got])
                if any(g[4] != 2 * ((N + 1) // 2) - 1 for g in got):
                    bad.setdefault("factor", case + "time factor %s, expected %d" % ([str(g[4]) for g in got], 2 * ((N + 1) // 2) - 1))
                for g in got:
                    if cnt[0].get(g[1], 0) > 1 or cnt[0].get(g[3], 0) > 1:
                        if g[5] != alg.Fraction(1, 2):
                            bad.setdefault("factor", case + "a particle collides twice with weight factor %s" % g[5])
            else:
                n1, n2 = len(live[0]), len(live[1])
                if not n1 or not n2:
                    if got:
                        bad.setdefault("pairs", case + "%d pairs without partners" % len(got))
                    continue
                if len(got) != max(n1, n2) or any(cnt[k].get(x, 0) < 1 for k in (0, 1) for x in live[k]):
                    bad.setdefault("cover", case + "pairs %s do not hold every living particle" % [(g[1], g[3]) for g in got])
                if any(g[4] != max(n1, n2) for g in got):
                    bad.setdefault("factor", case + "time factor %s, expected %d" % ([str(g[4]) for g in got], max(n1, n2)))
                k = 1 if n1 >= n2 else 0
                for g in got:
                    r = cnt[k].get((g[1], g[3])[k], 1)
                    if g[5] != alg.Fraction(1, r):
                        bad.setdefault("factor", case + "a particle colliding %d times has weight factor %s in one of them" % (r, g[5]))
    for k in ("pairs", "cover", "factor", "range", "ends"):
        obs.append(("pairing", "%s %s %s" % (kind, "x".join(map(str, sizes)), k), k not in bad, bad.get(k, ""), loc))
    if not cases and not bad:
        raise Broken("no pairing could be followed")
    return obs, an


def idx(v):
    c = v.const() if isinstance(v, Poly) else None
    if c is None:
        raise Broken("the slot of a pair is not decided: %s" % (v,))
    return int(c)


def cells_job(kind):
    """two patches, 2x1 cells, three species: the cells, species, generators and screening entries handed to the pairing"""
    w = world()
    it = prep(w)
    got = []

    def cell(it_, av, kv, st, n):
        got.append([fmt(x) for x in av])
        return NONE
    it.intrin["intra_collision_cell"] = lambda *a: (got.append(("intra",) + tuple(fmt(x) for x in a[1])), NONE)[1]
    it.intrin["inter_collision_cell"] = lambda *a: (got.append(("inter",) + tuple(fmt(x) for x in a[1])), NONE)[1]

    def fmt(x):
        if isinstance(x, Tup) and x.kind.startswith("nt:"):
            return str(x.items[-2])
        return str(x)
    src = HEADC + "def main(c: Collision, s0, s1, s2, pp):\n    pp.npatches = 2\n    pp.dimension = 2\n"
    for s in range(3):
        src += "    s%d.ispec = %d\n" % (s, s)
    groups = {"mixed": "[[s1, s1, s0, s2]]", "pairs": "[[s0, s0], [s2, s1], [s1, s2]]"}[kind]
    src += "    Collision.__init__(c, %s, pp, [0, 0, 0], GEN())\n" % groups
    src += "    c.part_lists = LISTS('part')\n    c.bucket_bound_min_lists = LISTS('min')\n    c.bucket_bound_max_lists = LISTS('max')\n"
    src += "    c.debye_length_inv_square_list = [ARR(SYM('deb_0_0'), SYM('deb_0_1')), ARR(SYM('deb_1_0'), SYM('deb_1_1'))]\n"
    src += "    c.gen_list = [SYM('gen_0'), SYM('gen_1')]\n    c(SYM('dt'))\n    return 0\n"
    it.intrin["GEN"] = lambda it_, av, kv, st, n: S("gen")
    pk = lambda st, k, s, p: (Tup([S("part_%d_%d" % (s, p)) for _ in range(0)] + [S("x")] * 9 + [S("part_%d_%d" % (s, p)), S("q")], "nt:x,y,z,ux,uy,uz,inv_gamma,w,is_dead,m,q") if k == "part"
                              else smallnp.new(it, st, [S("%s_%d_%d_%d" % (k, s, p, c_)) for c_ in range(2)]))
    it.intrin["LISTS"] = lambda it_, av, kv, st, n: Tup([Tup([pk(st, av[0], s, p) for p in range(2)], "list") for s in range(3)], "list")
    eff, ret, st = it.run_func(w.driver(src))
    loc = ("src/lambdapic/core/collision/cpu.py", 0)
    want = set()
    prs = {"mixed": [(1, 1), (0, 1), (1, 2), (0, 2)], "pairs": [(0, 0), (1, 2)]}[kind]
    for a, b in prs:
        for p in range(2):
            for c_ in range(2):
                A = ("part_%d_%d" % (a, p), "min_%d_%d_%d" % (a, p, c_), "max_%d_%d_%d" % (a, p, c_))
                B_ = ("part_%d_%d" % (b, p), "min_%d_%d_%d" % (b, p, c_), "max_%d_%d_%d" % (b, p, c_))
                want.add((("intra",) + A if a == b else ("inter",) + A + B_, "deb_%d_%d" % (p, c_), "gen_%d" % p))
    seen = {}
    m = None
    for g in got:
        k = 4 if g[0] == "intra" else 7
        key = (g[:k], g[k + 1], g[-1])
        if key not in want:
            m = m or "a collision of %s with screening %s and generator %s is not one of the requested pairs in one cell" % (g[:k], g[k + 1], g[-1])
        seen[key] = seen.get(key, 0) + 1
        if not any(str(x) == "dt" for x in g):
            m = m or "the time step does not reach the pairing"
    for x in want:
        if seen.get(x, 0) != 1 and not m:
            m = "the collision of %s is performed %d times per step" % (x[0], seen.get(x, 0))
    return [("cells", "groups %s" % kind, m is None, m or "", loc)], it.analysed


def debye_job():
    """the screening entries of a cell come from the living particles of that cell in this step only"""
    w = world()
    it = prep(w)
    loc = ("src/lambdapic/core/collision/cpu.py", 0)
    obs = []

    def cell(it_, av, kv, st, n):
        s = str(av[0].items[-2])
        return Tup([S("inv_%s_%s" % (s, av[1])), S("den_%s_%s" % (s, av[1]))])
    it.intrin["debye_length_cell"] = cell
    it.intrin["constrain_debye_length_patches"] = lambda it_, av, kv, st, n: NONE
    src = HEADC + "def main(c: Collision, s0, s1):\n    s0.ispec = 0\n    s1.ispec = 1\n    c.all_species = [s0, s1]\n    c.part_lists = LISTS('part')\n    c.bucket_bound_min_lists = LISTS('min')\n    c.bucket_bound_max_lists = LISTS('max')\n"
    src += "    c.cell_vol = SYM('vol')\n    d0 = ARR(SYM('od_0'), SYM('od_1'))\n    d1 = ARR(SYM('on_0'), SYM('on_1'))\n    c.debye_length_inv_square_list = [d0]\n    c.total_density_list = [d1]\n    c.calculate_debye_length()\n    OUT(d0, d1)\n    return 0\n"
    pk = lambda st, k, s: (Tup([S("x")] * 9 + [S("m%d" % s), S("q")], "nt:x,y,z,ux,uy,uz,inv_gamma,w,is_dead,m,q") if k == "part" else smallnp.new(it, st, [P(10 * s + c_ + (k == "max")) for c_ in range(2)]))
    it.intrin["LISTS"] = lambda it_, av, kv, st, n: Tup([Tup([pk(st, av[0], s)], "list") for s in range(2)], "list")
    out = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (out.extend(smallnp.items(it_, st, x) for x in av), NONE)[1]
    it.run_func(w.driver(src))
    if not out:
        raise Broken("the screening lengths cannot be followed")
    for k, (nm, xs) in enumerate((("screening", out[0]), ("density", out[1]))):
        m = None
        for c_, x in enumerate(xs):
            for den in ((0.5, 0.25), (0.5, 0.0), (0.0, 0.0)):
                def leaf(a):
                    s = str(a)
                    for sp in range(2):
                        if s == "inv_m%d_%d" % (sp, 10 * sp + c_):
                            return 3.0 + sp if den[sp] > 0 else -1.0
                        if s == "den_m%d_%d" % (sp, 10 * sp + c_):
                            return den[sp]
                    if s in ("od_0", "od_1", "on_0", "on_1"):
                        return 1000.0
                    return None
                try:
                    got = float(alg.evaluate(x, leaf))
                except ValueError as e:
                    m = m or "cell %d: the %s depends on another cell (%s)" % (c_, nm, e)
                    continue
                want = sum(((3.0 + sp) if k == 0 else den[sp]) for sp in range(2) if den[sp] > 0)
                if not near(got, want):
                    m = m or "cell %d, densities %s: the %s is %s, expected %s%s" % (c_, den, nm, got, want, " (the value of the previous step remains in it)" if got > 900 else "")
        obs.append(("screening", nm, m is None, m or "", loc))
    return obs, it.analysed


def leafof(vals):
    def leaf(a):
        if isinstance(a, ExtV):
            return math.inf if a.name.endswith("inf") else math.nan if a.name.endswith("nan") else None
        if getattr(a, "kind", "") == "const":
            return UNIT.get(str(a.args[0]))
        if getattr(a, "kind", "") == "sym":
            return vals.get(str(a.args[0]))
        return None
    return leaf


def cell_job(dead):
    """screening and density contributed by one species in one cell: its living particles only"""
    w = world()
    it = prep(w)
    loc = ("src/lambdapic/core/collision/cpu.py", 0)
    out = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (out.append(av), NONE)[1]
    n = len(dead)
    src = HEADC + "from .core.collision.cpu import debye_length_cell\ndef main(a: ParticlesBase):\n" + slots("a", n + 2, [0] + list(dead) + [0])
    src += "    pa = pack_particle_data(a, SYM('m1'), SYM('q1'))\n    x, y = debye_length_cell(pa, 1, %d, SYM('vol'))\n    OUT(x, y)\n    return 0\n" % (n + 1)
    it.run_func(w.driver(src))
    if not out:
        raise Broken("the screening of a cell cannot be followed")
    m = {"density": None, "screening": None}
    live = [i + 1 for i, d in enumerate(dead) if not d]
    for us in (((0.3, -0.2, 0.5), (-0.4, 0.1, 0.7), (0.2, 0.6, -0.1)), ((5.0, 0.0, 0.0), (-5.0, 0.0, 1.0), (0.0, 2.0, 0.0))):
        ws = (1.5, 0.5, 2.0)
        vals = {"m1": 3.0, "q1": -2.0, "vol": 4.0}
        for i in range(n + 2):
            u = us[(i - 1) % 3] if 1 <= i <= n else (90.0, 80.0, 70.0)
            for a, x in zip(MOM, u):
                vals["a_%s_%d" % (a, i)] = x
            vals["a_w_%d" % i] = ws[(i - 1) % 3] if 1 <= i <= n else 33.0
        try:
            x, y = [float(alg.evaluate(q, leafof(vals))) for q in out[0]]
        except ZeroDivisionError:
            m["density"] = m["density"] or "dead %s: division by zero" % (dead,)
            continue
        W = sum(vals["a_w_%d" % i] for i in live)
        if not near(y, W / 4.0):
            m["density"] = m["density"] or "dead %s: density %s, the living particles give %s" % (dead, y, W / 4.0)
        if not live:
            continue
        mean = [sum(vals["a_w_%d" % i] * vals["a_%s_%d" % (a, i)] for i in live) / W for a in MOM]
        u2 = [sum((vals["a_%s_%d" % (a, i)] - b) ** 2 for a, b in zip(MOM, mean)) for i in live]
        kt = sum(vals["a_w_%d" % i] * q / math.sqrt(1 + q) / 3 for i, q in zip(live, u2)) / W * 3.0 * C ** 2
        if kt < 1e-12 * C ** 2:
            continue
        want = W / 4.0 * 4.0 / (UNIT["epsilon_0"] * kt)
        if not near(x, want, 1e-6):
            m["screening"] = m["screening"] or "dead %s: inverse squared screening length %s, the living particles give %s" % (dead, x, want)
    return [("screening", "one cell, dead %s: %s" % (dead, k), m[k] is None, m[k] or "", loc) for k in m], it.analysed


def limit_job():
    """the screening length is never below the distance between the particles"""
    w = world()
    it = prep(w)
    loc = ("src/lambdapic/core/collision/cpu.py", 0)
    out = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (out.extend(smallnp.items(it_, st, av[0])), NONE)[1]
    src = HEADC + "from .core.collision.cpu import constrain_debye_length_patches\ndef main():\n    d = ARR(SYM('d_0'), SYM('d_1'))\n    n = ARR(SYM('n_0'), SYM('n_1'))\n    constrain_debye_length_patches([d], [n])\n    OUT(d)\n    return 0\n"
    it.run_func(w.driver(src))
    m = None
    for i, x in enumerate(out):
        for d, n in ((2.0, 3.0), (50.0, 3.0), (-1.0, 0.0), (0.0, 0.0), (1e3, 0.01), (4.0, 40.0)):
            try:
                got = float(alg.evaluate(x, leafof({"d_%d" % i: d, "n_%d" % i: n})))
            except ZeroDivisionError:
                m = m or "inverse squared length %s, density %s: division by zero" % (d, n)
                continue
            want = min(d, (4 * math.pi * n / 3) ** (2 / 3)) if d > 0 else d
            if not near(got, want, 1e-6):
                m = m or "inverse squared length %s, density %s becomes %s, expected %s" % (d, n, got, want)
    if len(out) != 2:
        raise Broken("the limit of the screening length cannot be followed")
    return [("screening", "lower limit", m is None, m or "", loc)], it.analysed


def sorter_job(dim, when):
    """collisions pair the particles of one cell: the sorters they read have one bucket per cell, whenever the groups are given"""
    w = world()
    it = prep(w, dim)
    made, used = {}, []
    SORT = {2: "ParticleSort2D", 3: "ParticleSort3D"}
    cls = {2: "Simulation", 3: "Simulation3D"}[dim]

    def mk(nm):
        def f(it_, av, kv, st, n):
            o = P(atom("sorter", next(it_.seq)))
            made[o] = (nm, list(av), dict(kv), n)
            return o
        return f
    for d in SORT:
        it.intrin[SORT[d]] = mk(SORT[d])
    it.intrin["Collision"] = lambda it_, av, kv, st, n: (used.append((list(av), dict(kv))), P(atom("collision", next(it_.seq))))[1]
    seen = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (seen.append(av), NONE)[1]
    src = "from .simulation.simulation import Simulation, Simulation3D\nfrom .core.species import Species\n"
    src += "def main(sim: %s, s0: Species, s1: Species, s2: Species, pp, gen):\n    sim.species = [s0, s1, s2]\n    pp.species = [s0, s1, s2]\n    sim.patches = pp\n    sim.rand_gen = gen\n" % cls
    src += "    pp.nx = SYM('nx')\n    pp.ny = SYM('ny')\n    pp.nz = SYM('nz')\n    pp.dx = SYM('dx')\n    pp.dy = SYM('dy')\n    pp.dz = SYM('dz')\n    sim._collision_groups = None\n    sim.collision = None\n    sim.initialized = False\n"
    if when == "before":
        src += "    sim.add_collision([[s0, s0, s1], [s2, s2]])\n    sim._init_sorter()\n    sim._init_collision()\n    sim.initialized = True\n"
    else:
        src += "    sim._init_sorter()\n    sim._init_collision()\n    sim.initialized = True\n    sim.add_collision([[s0, s0, s1], [s2, s2]])\n"
    src += "    OUT(sim.sorter)\n    return 0\n"
    eff, ret, st = it.run_func(w.driver(src))
    loc = ("src/lambdapic/simulation/simulation.py", 0)
    if not seen or not made:
        raise Broken("the construction of the sorters cannot be followed")
    m = None
    if len(used) != 1:
        m = "%d collision modules are made" % len(used)
    else:
        av, kv = used[0]
        lst = kv.get("sorter", av[2] if len(av) > 2 else None)
        for nm, ss in (("the collision module", lst), ("the simulation", seen[0][0])):
            if not isinstance(ss, Tup) or len(ss.items) != 3:
                m = m or "%s does not hold one sorter per species" % nm
                continue
            for k, o in enumerate(ss.items):
                if o not in made:
                    raise Broken("a sorter of %s is not known" % nm)
                knd, a, kw, node = made[o]
                if knd != SORT[dim]:
                    m = m or "a %s sorts a %dD simulation" % (knd, dim)
                sp = kw.get("species", a[1] if len(a) > 1 else None)
                if str(sp) != "s%d" % k:
                    m = m or "sorter %d of %s sorts %s" % (k, nm, sp)
                pos = {2: ("nx_buckets", "ny_buckets", "dx_buckets", "dy_buckets"), 3: ("nx_buckets", "ny_buckets", "nz_buckets", "dx_buckets", "dy_buckets", "dz_buckets")}[dim]
                for q, name in enumerate(pos):
                    v = kw.get(name, a[2 + q] if len(a) > 2 + q else NONE)
                    if v is NONE or str(v) == name[:2]:
                        continue
                    m = m or "species %d: %s used by collisions has %s = %s (one cell: %s)" % (k, "the sorter" if nm != "the simulation" else "the sorter called each step", name, v, name[:2])
    return [("sorters", "%dD, groups given %s initialisation" % (dim, when), m is None, m or "", loc)], it.analysed


def p28(c):
    c.rule("kernel", "for two partners: momenta and energies add up to what they were (equal weights), each partner changes with probability min(1, other weight / own weight), the inverse Lorentz factors belong to the new momenta, nothing else changes")
    c.rule("pairing", "pairs hold two different living particles of the cell, every living particle with a partner takes part, time and weight factors match the number of pairs")
    c.rule("cells", "every requested pair of species collides exactly once per step in every cell, with the particles, screening entry and random stream of that cell and patch")
    c.rule("screening", "screening length and density of a cell are those of its living particles in this step, the length not below the distance between particles")
    c.rule("sorters", "the sorters of a simulation with collisions have one bucket per cell for every species, also when the groups are given after initialisation")
    c.rule("range", "no element outside an array is touched")
    jobs = [("kernel_job", k, l) for k in ("inter", "intra") for l in (True, False)]
    jobs += [("pairing_job", "intra", (n,)) for n in (0, 1, 2, 3, 4)] + [("pairing_job", "inter", s) for s in ((0, 2), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3))]
    if c.tier == "thorough":
        jobs += [("pairing_job", "intra", (n,)) for n in (5, 6)] + [("pairing_job", "inter", s) for s in ((4, 3), (4, 2), (2, 4), (1, 5))]
    jobs += [("cells_job", k) for k in ("mixed", "pairs")] + [("debye_job",), ("limit_job",)] + [("cell_job", d) for d in itertools.product((0, 1), repeat=3)] + [("sorter_job", d, x) for d in (2, 3) for x in ("before", "after")]
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/collision/cpu.py", "src/lambdapic/core/collision/utils.py", "src/lambdapic/core/collision/collision.py", "src/lambdapic/simulation/simulation.py"}
    c.floor("kernel", 20)
    c.floor("pairing", 40)
    c.floor("cells", 2)
    c.floor("screening", 15)
    c.floor("sorters", 4)
