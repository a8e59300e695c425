"""P31 particles placed by a density profile, in the moving window, and from a file.

Counting and filling run over two small patches with concrete grids; density and particle numbers per cell are
tables. Every random draw is a distinct symbol with its range, so a position is judged by its range and its draws."""
from fractions import Fraction as Fr
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs, fresh
import itertools

AX = "xyz"
HEAD = '''
import numpy as np
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.species import Species, Electron, Photon
from .core.particles import ParticlesBase, QEDParticles, SpinParticles, SpinQEDParticles
from .simulation.simulation import Simulation, Simulation3D
from .callback.utils import MovingWindow, LoadParticles
'''
D = {"x": 3, "y": 5, "z": Fr(1, 2)}
X0 = {"x": 10, "y": -20, "z": 7}
N = {2: (2, 3), 3: (2, 2, 2)}
LOC = {"fill": ("src/lambdapic/core/patch/cpu.py", 0), "window": ("src/lambdapic/callback/utils.py", 0)}


def table(pat, s, g, what):
    """density (minimum 1) or particles per cell of species s at the global cell g"""
    i = sum(a * b for a, b in zip(g, (1, 3, 7))) + 5 * s
    if what == "dens":
        if pat == 0:
            return Fr(2 + i)
        if pat == 3:
            return Fr(i % 2)
        return (Fr(1), Fr(3, 2) + i, Fr(0), Fr(5), Fr(1) + Fr(1, 1000))[(i * pat + pat) % 5]
    if pat == 0:
        return Fr(2)
    return (Fr(1), Fr(2), Fr(5, 2), Fr(3))[(i * (pat + 1) + i // 4) % 4]


class Rand:
    """random generators: an atom per draw, with its range"""

    def __init__(self, it):
        self.range = {}
        self.gen = {}
        self.n = 0
        it.intrin[".spawn"] = self.spawn
        it.intrin[".uniform"] = lambda it_, av, kv, st, n: self.draw(it_, st, av, kv, n, True)
        it.intrin[".random"] = lambda it_, av, kv, st, n: self.draw(it_, st, av, kv, n, False)
        self.spawned = 0

    def spawn(self, it, av, kv, st, n):
        k = (av[1] if len(av) > 1 else dict(kv)["n_children"]).const()
        out = []
        for i in range(int(k)):
            out.append(P(atom("rgen", self.spawned)))
            self.spawned += 1
        return Tup(out, "list")

    def draw(self, it, st, av, kv, n, uni):
        kw = dict(kv)
        av = list(av)
        g = av.pop(0)
        lo, hi, size = P(0), P(1), None
        if uni:
            lo = av[0] if av else kw.get("low", lo)
            hi = av[1] if len(av) > 1 else kw.get("high", hi)
            size = av[2] if len(av) > 2 else kw.get("size")
        else:
            size = av[0] if av else kw.get("size")
        m = 1 if size is None or size is NONE else size.const() if isinstance(size, Poly) else None
        l, h = (x.const() if isinstance(x, Poly) else None for x in (lo, hi))
        if m is None or l is None or h is None:
            raise Broken("a random draw with undecided bounds or number: %s" % [str(x) for x in (lo, hi, size)])
        xs = []
        for i in range(int(m)):
            a = atom("draw", self.n)
            self.n += 1
            self.range[a] = (min(l, h), max(l, h))
            self.gen[a] = str(g)
            xs.append(P(a))
        return xs[0] if size is None or size is NONE else smallnp.new(it, st, xs)


def interval(v, R):
    """range of a polynomial that is linear in the draws, and its draws"""
    lo = hi = Fr(0)
    used = []
    for mono, c in v.t.items():
        if not mono:
            lo += c
            hi += c
            continue
        u = {x.id: x for x in R.range}.get(mono[0][0])
        if len(mono) != 1 or mono[0][1] != 1 or u is None:
            return None
        a, b = R.range[u]
        used.append(u)
        lo += min(c * a, c * b)
        hi += max(c * a, c * b)
    return lo, hi, used



def prep(w):
    it = fresh(w)
    it.small = True
    it.maxdepth = 60
    it.exact = {atom("sym", x) for x in ("s0", "s1", "s2", "sim")}
    R = Rand(it)
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE
    for nm in ("Species.compile_jit", ".compile_jit", "compile_jit"):
        it.intrin[nm] = lambda it_, av, kv, st, n: av[-2] if len(av) > 1 else av[0]
    for nm in ("Patches.update_lists", "Patches.update_particle_lists", "Simulation.update_lists", ".update_lists", ".update_particle_lists"):
        it.intrin[nm] = lambda it_, av, kv, st, n: NONE
    return it, R


def num(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else "%d / %d" % (x.numerator, x.denominator)


def fill_job(dim, pat, window):
    w = world()
    it, R = prep(w)
    ns = N[dim]
    ax = AX[:dim]
    args = ", ".join(ax)

    def look(what):
        def h(it_, av, kv, st, n):
            c = [x.const() if isinstance(x, Poly) else None for x in av]
            if any(x is None for x in c):
                raise Broken("a density is evaluated at an undecided place")
            g = [(v - X0[a]) / Fr(D[a]) for v, a in zip(c[1:], ax)]
            if any(x.denominator != 1 for x in map(Fr, g)):
                bad.append("a density is evaluated at %s, which is not a grid point" % [str(x) for x in c[1:]])
            return P(table(pat, int(c[0]), [int(x) for x in g], what))
        return h
    bad = []
    it.intrin["DENS"] = look("dens")
    it.intrin["PPC"] = look("ppc")
    src = HEAD
    for s in (0, 2):
        src += "def D%d(%s):\n    return DENS(%d, %s)\ndef N%d(%s):\n    return PPC(%d, %s)\n" % (s, args, s, args, s, args, s, args)
    ps = [(0,) * dim, (2,) + (0,) * (dim - 1)]        # first cell of each patch
    src += "def main(s0: Electron, s1: Electron, s2: Photon, sim: %s, win: MovingWindow, rg):\n" % ("Simulation" if dim == 2 else "Simulation3D")
    src += "    ps = Patches(%d)\n" % dim
    for k, p0 in enumerate(ps):
        src += "    p%d = Patch%dD(0, %d, %s, %s, %s, %s)\n" % (k, dim, k, ", ".join(str(k if a == 0 else 0) for a in range(dim)), ", ".join(num(X0[x] + D[x] * p0[a]) for a, x in enumerate(ax)), ", ".join(map(str, ns)), ", ".join(num(D[x]) for x in ax))
        src += "    ps.append(p%d)\n" % k
    for s in (0, 1, 2):
        src += "    s%d.radiation = None\n    s%d.polarization = None\n    s%d.density_jit = None\n    s%d.ppc_jit = None\n    s%d.density_min = 1\n    s%d._ispec = %d\n    s%d.name = 's%d'\n" % ((s,) * 6 + (s,) * 3)
        src += "    s%d.density = %s\n    s%d.ppc = %s\n" % (s, "None" if s == 1 else "D%d" % s, s, "N0" if s == 1 else "N%d" % s)
    if not window:
        for s in (0, 1, 2):
            src += "    ps.add_species(s%d)\n" % s
        src += "    n = [[len(p.particles[i].x) for i in range(3)] for p in [p0, p1]]\n    ps.fill_particles(rg)\n"
    else:
        src += "    sim.dimension = %d\n    sim.patches = ps\n    sim.rand_gen = rg\n    sim.species = [s0, s1, s2]\n    sim.time = 4\n    win.inject_particles = True\n    win.stop_inject_time = None\n" % dim
        src += "    for s in [s0, s1, s2]:\n        s.density_jit = s.density\n        s.ppc_jit = s.ppc\n"
        src += "    for k, p in enumerate([p0, p1]):\n        for s in [s0, s1, s2]:\n            q = s.create_particles(ipatch=k, rank=0)\n            q.initialize(0)\n            p.add_particles(q)\n"
        src += "    win._fill_particles(sim, [p0, p1])\n    n = 0\n"
    at = ["x", "y", "z", "w", "is_dead"]
    src += "    return [%s]\n" % ", ".join("[%s, p%d.particles[%d].npart]" % (", ".join("p%d.particles[%d].%s" % (k, s, a) for a in at), k, s) for k in (0, 1) for s in (0, 1, 2))
    kind = "window" if window else "fill"
    loc = LOC[kind]
    case = "%dd, density pattern %d%s: " % (dim, pat, ", moving window" if window else "")
    keyp = "%dd%s" % (dim, " window" if window else "")
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("count", keyp, False, case + "%s" % x, loc)], it.analysed
    obs = []
    used_by = {}
    out = {"count": None, "cell": None, "weight": None, "draws": None}

    def fail(r, m):
        out[r] = out[r] or m
    for k, p0 in enumerate(ps):
        for s in (0, 1, 2):
            res = ret.items[3 * k + s].items
            vals = [smallnp.items(it, st, v) for v in res[:5]]
            if any(v is None for v in vals):
                raise Broken("the particles of a filled patch are not followed: %s" % [str(r)[:80] for r in res])
            cells = [c for c in itertools.product(*[range(n) for n in ns])]
            want = []
            for c in cells:
                g = tuple(a + b for a, b in zip(p0, c))
                if s != 1:
                    d, q = table(pat, s, g, "dens"), int(table(pat, s, g, "ppc"))
                    if d > 1:
                        want.append((g, d, q))
            tot = sum(q for _, _, q in want)
            who = "species %d on patch %d" % (s, k)
            n = res[5].const() if isinstance(res[5], Poly) else None
            if any(len(v) != tot for v in vals) or n != tot:
                fail("count", "%s has room for %s particles, the profile asks for %d" % (who, sorted({len(v) for v in vals} | {int(n) if n is not None else -1}), tot))
                continue
            got = {}
            vol = Fr(1)
            for x in ax:
                vol *= Fr(D[x])
            for i in range(tot):
                pos = []
                for a in range(dim):
                    r = interval(vals[a][i], R) if isinstance(vals[a][i], Poly) else None
                    if r is None:
                        fail("count", "%s: slot %d holds no position drawn at random (%s)" % (who, i, str(vals[a][i])[:60]))
                        break
                    pos.append(r)
                if len(pos) < dim:
                    continue
                g = []
                for (lo, hi, us), x in zip(pos, ax):
                    mid = (lo + hi) / 2
                    j = (mid - X0[x]) / Fr(D[x])
                    if hi - lo != D[x] or Fr(j).denominator != 1 or hi <= lo:
                        fail("cell", "%s: the %s of slot %d lies between %s and %s, which is not a cell" % (who, x, i, lo, hi))
                        g = None
                        break
                    g.append(int(j))
                    for u in us:
                        if u in used_by:
                            fail("draws", "%s: the %s of slot %d uses the random number of %s" % (who, x, i, used_by[u]))
                        used_by[u] = "%s of slot %d of %s" % (x, i, who)
                if g is None:
                    continue
                gens = {R.gen[u] for _, _, us in pos for u in us}
                got.setdefault(tuple(g), []).append((i, gens))
                d = {c: (e, q) for c, e, q in want}.get(tuple(g))
                wv = vals[3][i].const() if isinstance(vals[3][i], Poly) else None
                if d is not None and wv != d[0] * vol / d[1]:
                    fail("weight", "%s: a particle of cell %s has the weight %s instead of %s" % (who, tuple(g), str(vals[3][i])[:60], d[0] * vol / d[1]))
                dead = vals[4][i]
                if smallnp.decided(dead) is not False:
                    fail("count", "%s: slot %d is dead" % (who, i))
            if out["cell"] is None and out["count"] is None:
                for c, d, q in want:
                    if len(got.get(c, [])) != q:
                        fail("cell", "%s: cell %s gets %d particles instead of %d" % (who, c, len(got.get(c, [])), q))
                for c in got:
                    if c not in [x[0] for x in want]:
                        fail("cell", "%s: cell %s gets particles, its density is not above the threshold or it is not in the patch" % (who, c))
            gs = {g for xs in got.values() for _, gg in xs for g in gg}
            if len(gs) > 1:
                fail("draws", "%s: positions come from %d generators" % (who, len(gs)))
            for g in gs:
                if used_by.setdefault(("gen", g), k) != k:
                    fail("draws", "two patches draw from the same generator")
    if bad:
        fail("cell", bad[0])
    for r in ("count", "cell", "weight", "draws"):
        obs.append((r, keyp, out[r] is None, case + (out[r] or ""), loc))
    return obs, it.analysed


# ------------------------------------------------------------------ files
CLS = {"base": "ParticlesBase", "qed": "QEDParticles", "spin": "SpinParticles", "both": "SpinQEDParticles"}
EXTRA = {"base": [], "qed": ["chi", "tau", "delta"], "spin": ["sx", "sy", "sz"], "both": ["sx", "sy", "sz", "chi", "tau", "delta"]}


def file_job(dim, cls, attrs, batch, places, before):
    """places: cell position of every particle of the file, in units of a quarter cell from the first patch's lower edge"""
    w = world()
    it, R = prep(w)
    ax = AX[:dim]
    ns = N[dim]
    n = len(places)
    data = {}
    for a, x in enumerate(ax):
        data[x] = [Fr(X0[x]) - Fr(D[x]) / 2 + Fr(D[x]) * p[a] / 4 for p in places]
    src = HEAD + "def main(s0: Electron, sim: %s, ld: LoadParticles):\n    ps = Patches(%d)\n" % ("Simulation" if dim == 2 else "Simulation3D", dim)
    ps = [(0,) * dim, (ns[0],) + (0,) * (dim - 1)]
    for k, p0 in enumerate(ps):
        src += "    p%d = Patch%dD(0, %d, %s, %s, %s, %s)\n" % (k, dim, k, ", ".join(str(k if a == 0 else 0) for a in range(dim)), ", ".join(num(X0[x] + D[x] * p0[a]) for a, x in enumerate(ax)), ", ".join(map(str, ns)), ", ".join(num(D[x]) for x in ax))
        src += "    ps.append(p%d)\n    o%d = ParticlesBase(%d, 0)\n    o%d.initialize(0)\n    p%d.add_particles(o%d)\n    q%d = %s(%d, 0)\n    q%d.initialize(%d)\n    p%d.add_particles(q%d)\n" % (k, k, k, k, k, k, k, CLS[cls], k, k, before[k], k, k)
        for i in range(before[k]):
            src += "    q%d.x[%d] = SYM('old%d_%d')\n" % (k, i, k, i)
    src += "    F = {%s}\n" % ", ".join(
        ["'%s': np.array([%s])" % (x, ", ".join(num(v) for v in data[x])) for x in ax] +
        ["'%s': np.array([%s])" % (a, ", ".join("SYM('%s_%d')" % (a, i) for i in range(n))) for a in attrs])
    src += "    SETFILE(F)\n    s0._ispec = 1\n    s0.name = 's0'\n    sim.dimension = %d\n    sim.patches = ps\n    ld.species = s0\n    ld.file = 'f'\n    ld._batch_size = %d\n    ld._call(sim)\n" % (dim, batch)
    slots = [a for a in ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "bz_part", "_id"] + EXTRA[cls]]
    src += "    return [%s]\n" % ", ".join("[%s, q%d.is_dead, q%d.npart, o%d.npart]" % (", ".join("q%d.%s" % (k, a) for a in slots), k, k, k) for k in (0, 1))
    it.intrin["SYM"] = lambda it_, av, kv, st, n_: sym(av[0])
    hold = {}

    def setf(it_, av, kv, st, n_):
        hold["f"] = av[0]
        return NONE
    it.intrin["SETFILE"] = setf
    it.intrin["File"] = it.intrin["h5py.File"] = it.intrin[".File"] = lambda it_, av, kv, st, n_: hold["f"]
    loc = ("src/lambdapic/callback/utils.py", 0)
    case = "%dd file with %d particles (%s), %s, batches of %d: " % (dim, n, ", ".join(list(ax) + list(attrs)), CLS[cls], batch)
    key = "%dd file" % dim
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("file", key, False, case + str(x), loc)], it.analysed
    m = {"file": None, "attributes": None, "factor": None}
    for k, p0 in enumerate(ps):
        res = ret.items[k].items
        vals = {a: smallnp.items(it, st, v) for a, v in zip(slots + ["is_dead"], res)}
        if any(v is None for v in vals.values()):
            raise Broken("the particles loaded from a file are not followed: %s" % [a for a in vals if vals[a] is None])
        mine = [i for i, p in enumerate(places) if all(4 * b <= p[a] < 4 * (b + ns[a]) for a, b in enumerate(p0))]
        ln = {len(v) for v in vals.values()} | {int(res[-2].const())}
        if res[-1].const() != 0:
            m["file"] = m["file"] or "another species receives particles"
        if ln != {before[k] + len(mine)}:
            m["file"] = m["file"] or "patch %d holds %s slots afterwards, %d before and %d of the file lie on it" % (k, sorted(ln), before[k], len(mine))
            continue
        for i in range(before[k]):
            if str(vals["x"][i]) != "old%d_%d" % (k, i):
                m["file"] = m["file"] or "slot %d of patch %d, there before, changes to %s" % (i, k, str(vals["x"][i])[:40])
        got = []
        for j in range(before[k], before[k] + len(mine)):
            wv = str(vals["w"][j])
            i = int(wv[2:]) if wv.startswith("w_") and wv[2:].isdigit() else None
            if i not in mine:
                m["file"] = m["file"] or "slot %d of patch %d holds the weight %s, which is not that of a particle on the patch" % (j, k, wv[:40])
                continue
            got.append(i)
            dead = vals["is_dead"][j]
            if smallnp.decided(dead) is not False:
                m["file"] = m["file"] or "the loaded particle %d stays dead" % i
            for a in slots:
                v = vals[a][j]
                if a in ("_id", "inv_gamma", "w"):
                    continue
                want = P(data[a][i]) if a in data else sym("%s_%d" % (a, i)) if a in attrs else P(0)
                if not isinstance(v, Poly) or not alg.is_zero(v - want):
                    m["attributes"] = m["attributes"] or "%s of particle %d of the file becomes %s instead of %s" % (a, i, str(v)[:60], want)
            u2 = P(1)
            for a in ("ux", "uy", "uz"):
                if a in attrs:
                    u2 = u2 + sym("%s_%d" % (a, i)) * sym("%s_%d" % (a, i))
            g = vals["inv_gamma"][j]
            if not isinstance(g, Poly) or not alg.is_zero(g * g * u2 - 1):
                m["factor"] = m["factor"] or "the inverse Lorentz factor of particle %d of the file becomes %s" % (i, str(g)[:80])
        if sorted(got) != sorted(mine):
            m["file"] = m["file"] or "patch %d gets the particles %s of the file, %s lie on it" % (k, sorted(got), mine)
    return [(r, key, m[r] is None, case + (m[r] or ""), loc) for r in m], it.analysed


def p31(c):
    c.rule("count", "the slots reserved for a species on a patch are the particles the profile asks for, and every one is filled and alive")
    c.rule("cell", "every cell above the threshold gets its number of particles, each drawn over the whole cell; no other cell gets any")
    c.rule("weight", "the weight of a particle is density times cell volume over the number of particles in the cell")
    c.rule("draws", "no random number is used twice and no generator serves two patches")
    c.rule("file", "every particle of a file that lies on a patch is added there once, alive; slots that were there stay")
    c.rule("attributes", "a loaded particle has the attributes of the file, and zero where the file has none")
    c.rule("factor", "the inverse Lorentz factor of a loaded particle is that of its momentum")
    thorough = c.tier == "thorough"
    jobs = []
    for dim in (2, 3):
        for pat in range(7) if thorough else range(5):
            for win in (False, True):
                jobs.append(("fill_job", dim, pat, win))
    pl2 = [(0, 0), (15, 3), (7, 11), (8, 0), (-1, 2), (16, 2), (3, 12), (9, 5)]
    pl3 = [p + (z,) for p, z in zip(pl2, (0, 7, 3, 4, 2, 2, 2, 5))] + [(1, 1, 8), (2, 2, -1)]
    sets = [["w"], ["w", "ux", "uy", "uz"], ["w", "uy", "chi", "sx"], ["w", "inv_gamma", "ux", "_id", "other", "tau", "sz"]]
    for dim, pl in ((2, pl2), (3, pl3)):
        for i, a in enumerate(sets):
            for j, cl in enumerate(CLS):
                if thorough or (i + j) % 2 == 0:
                    for b in (3, 100) if thorough else ((3, 100)[(i + j // 2) % 2],):
                        jobs.append(("file_job", dim, cl, a, b, pl, (2, 0)))
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/patch/cpu.py", "src/lambdapic/core/patch/patch.py", "src/lambdapic/callback/utils.py", "src/lambdapic/core/particles.py"}
    for r in ("count", "cell", "weight", "draws"):
        c.floor(r, 4)
    for r in ("file", "attributes", "factor"):
        c.floor(r, 2)
