"""P24 moving window (and the window clause of P36).

Small drivers put patches of symbolic position and content under the callback; the analysed values after the
call are compared with what a shift by one patch column has to leave behind.
"""
import itertools
from ..world import *
from ..interp import *
from .. import alg
from .topology import run_jobs, fresh, position, CLASSES, expect

HEAD = '''
from .callback.utils import MovingWindow
from .simulation.simulation import Simulation, Simulation3D
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.fields import Fields2D, Fields3D
from .core.particles import ParticlesBase
from .core.boundary.cpml import %s
'''
FATTRS = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]
axes3 = "xyz"
PMLS = ["PML" + a + s for a in "XYZ" for s in ("min", "max")]


def simarg(w, it, dim):
    cname = "Simulation" + ("3D" if dim == 3 else "")
    a = atom("newobj", cname, 0)
    it.types[a] = w.cls("simulation.simulation", cname)
    return P(a), cname


def window_loc(w, name="__call__"):
    m = w.method(w.cls("callback.utils", "MovingWindow"), name)
    return (m.file, m.line)


# ------------------------------------------------------------------ when and how often the window moves
WHEN = {
    # accumulated distance after this step -> (columns moved, direction)
    "right": lambda L, s: (L + s, 1),
    "left": lambda L, s: (-L - s, -1),
    "between+": lambda L, s: (L - s, 0),
    "between-": lambda L, s: (s - L, 0),
}


def scene_head(dim):
    """modules without content: they are the business of other checks"""
    return "    sim.pusher = []\n    sim.sorter = []\n    sim.radiation = []\n    sim.pairproduction = []\n    sim.collision = None\n    sim.species = []\n    sim.patches.species = []\n    sim.dimension = %d\n" % dim


def quiet(it):
    nop = lambda it_, av, kv, st, n: NONE
    for nm in ("init_rect_neighbor_index_2d", "init_rect_neighbor_index_3d", "init_neighbor_ipatch_2d", "init_neighbor_ipatch_3d",
               "init_neighbor_rank_2d", "init_neighbor_rank_3d", "generate_field_lists", "info", "debug", "warning"):
        it.intrin["." + nm] = it.intrin["Patches." + nm] = nop
    it.intrin[".allgather"] = lambda it_, av, kv, st, n: Tup([av[-1]], "list")


def when_job(case, fn_velocity, before):
    """one step of the callback, seen from a patch in the middle of the window"""
    w = world()
    it = fresh(w)
    it.maxdepth = 40
    sim, cname = simarg(w, it, 2)
    src = HEAD % "PML"
    src += "def main(self: MovingWindow, sim, p: Patch2D, v, dt, t, ts, acc, L, tot):\n"
    src += "    self.velocity = v\n    sim.dt = dt\n    sim.time = t\n    self.start_time = ts\n    self.patch_this_shift = acc\n    self.total_shift = tot\n    self.num_shifts = 1\n"
    src += "    sim.nx_per_patch = 1\n    sim.dx = L\n    sim.npatch_x = 7\n    sim.npatch_y = 1\n    sim.Lx = 7 * L\n    sim.nx = 7\n    p.ipatch_x = 3\n    p.ipatch_y = 0\n    sim.patches = Patches(2)\n    sim.patches.append(p)\n"
    src += scene_head(2)
    src += "    self(sim)\n    return [self.patch_this_shift, p.ipatch_x]\n"
    s = slack("s")
    r = slack("r") + 1
    L = s + r if case.startswith("between") else slack("L") + 1
    x, want = WHEN[case](L, s if not case.startswith("between") else r)
    dt, ts = P(atom("sym", "dt")), P(atom("sym", "ts"))
    v = P(atom("sym", "v"))
    quiet(it)
    cv = P(atom("sym", "v_now"))
    asked = []

    def vel(it_, av, kv, st, n):
        asked.append(av)
        return cv
    vel_now = v
    if fn_velocity:
        it.intrin["callable"] = lambda it_, av, kv, st, n: TRUE
        it.intrin["velocity"] = it.intrin[".velocity"] = vel
        vel_now = cv
    else:
        it.intrin["callable"] = lambda it_, av, kv, st, n: FALSE
    t = ts - 1 - slack("u") if before else ts + slack("u")
    acc = x - vel_now * dt
    tot = P(atom("sym", "tot"))
    eff, ret, st = it.run_func(w.driver(src), args={"sim": sim, "v": v, "dt": dt, "t": t, "ts": ts, "acc": acc, "L": L, "tot": tot})
    loc = window_loc(w)
    obs = []
    nm = "%s%s%s" % (case, " callable velocity" if fn_velocity else "", " before start" if before else "")
    if before:
        want, x = 0, acc
    col = ret.items[1]
    ok = isinstance(col, Poly) and col.const() == 3 - want
    obs.append(("when", nm, ok, "accumulated distance %s for patch length %s: a patch of column 3 ends in column %s, expected %d" % (x, L, col, 3 - want), loc))
    got = ret.items[0]
    rest = x - L * want
    obs.append(("carry", nm, isinstance(got, Poly) and alg.equal(got, rest), "distance carried over is %s, expected %s" % (got, rest), loc))
    if fn_velocity and not before:
        ok = len(asked) >= 1 and any(isinstance(y, Poly) and y == t for a in asked for y in a)
        obs.append(("when", "velocity at the current time", ok, "velocity is evaluated at %s" % (asked,), loc))
    return obs, it.analysed


# ------------------------------------------------------------------ what a shift does to a patch of each position
def shift_job(dim, cls, sign):
    w = world()
    it = fresh(w)
    it.maxdepth = 40
    sim, cname = simarg(w, it, dim)
    src = HEAD % "PML"
    src += "def main(self: MovingWindow, sim, p: Patch%dD, a: ParticlesBase, i, n, L, j, k):\n" % dim
    src += "    p.ipatch_x = i\n    sim.npatch_x = n\n    sim.Lx = L\n    p.particles = [a]\n    a.is_dead[:] = False\n    p.pml_boundary = []\n    p.fields.attrs = ['ex', 'rho']\n    p.fields.ex[:] = 7.0\n    sim.patches = Patches(%d)\n    sim.patches.append(p)\n" % dim
    src += scene_head(dim)
    src += "    self.num_shifts = 3\n    self.start_time = 0.0\n    sim.time = 2.0\n    sim.nx_per_patch = 4\n    sim.dx = 0.25\n    self.total_shift = 0\n    self.patch_this_shift = 0\n    self.velocity = %s\n    sim.dt = 1.0\n    self.inject_particles = False\n" % ("1.5" if sign > 0 else "-1.5")
    src += "    self(sim)\n"
    vals = ["p.ipatch_x", "p.x0", "p.xaxis", "p.fields.x0", "p.fields.xaxis"]
    rest = ["p.ipatch_y", "p.y0", "p.yaxis", "p.fields.y0", "p.fields.yaxis", "p.index", "p.rank", "p.fields"]
    src += "    return [p.fields.ex[%s], a.is_dead[j], %s]\n" % ("j, k" if dim == 2 else "j, k, j", ", ".join(vals + rest))
    src += "def ref(p: Patch%dD):\n    return [%s]\n" % (dim, ", ".join(vals + rest))
    i, n = position(cls, "x")
    L = P(atom("sym", "L"))
    obs = []
    quiet(it)
    eff, ret, st = it.run_func(w.driver(src), args={"sim": sim, "i": i, "n": n, "L": L})
    it2 = fresh(w)
    ref = list(it2.run_func(w.driver(src, "ref"))[1].items)
    loc = window_loc(w)
    leaves = cls in (("only", "first") if sign > 0 else ("only", "last"))
    side = "right" if sign > 0 else "left"
    f, dead = ret.items[:2]
    ok = isinstance(f, Poly) and f.const() == (0 if leaves else 7) and (dead is (TRUE if leaves else FALSE))
    obs.append(("column", "%dd %s %s" % (dim, side, cls), ok, "patch at position %s: field 7 becomes %s, live particles are marked dead: %s; it %s" % (cls, f, dead, "enters anew" if leaves else "stays"), loc))
    wi = (n - 1 if sign > 0 else P(0)) if leaves else i - sign
    want = [wi] + [r + (L * sign if leaves else P(0)) for r in ref[1:5]] + ref[5:]
    for nm, got, wv in zip(vals + rest, ret.items[2:], want):
        ok = isinstance(got, Poly) and isinstance(wv, Poly) and alg.equal(got, wv)
        obs.append(("column", "%dd %s %s" % (dim, side, nm), ok, "patch at position %s: after the shift %s is %s, expected %s" % (cls, nm, got, wv), loc))
    return obs, it.analysed


# ------------------------------------------------------------------ one complete step on a small grid
def scene_job(dim, sizes, bcs, sign, inject, first):
    """every patch of a small patch grid, half of them held by another process; two species, one without density"""
    w = world()
    it = fresh(w)
    it.maxdepth = 40
    sim, cname = simarg(w, it, dim)
    axes = "xyz"[:dim]
    cells = list(itertools.product(*[range(k) for k in reversed(sizes)]))
    cells = [tuple(reversed(c)) for c in cells]
    index = {c: k for k, c in enumerate(cells)}
    local = [c for c in cells if sum(c) % 2 == 0 or c[0] in (0, sizes[0] - 1) and sum(c[1:]) == 0]
    remote = [c for c in cells if c not in local]
    nm = {c: "p" + "_".join(map(str, c)) for c in cells}
    src = HEAD % ", ".join(PMLS)
    params = []
    for c in local:
        p = nm[c]
        params += ["%s: Patch%dD" % (p, dim), "a%s: ParticlesBase" % p, "b%s: ParticlesBase" % p]
    src += "def main(self: MovingWindow, sim, s0, s1, dens, vol, i, j, k, nx, ny, nz, dx, dy, dz, g, L, %s):\n" % ", ".join(params)
    sz = ", ".join("n" + a for a in axes) + ", " + ", ".join("d" + a for a in axes)
    for c in local:
        p = nm[c]
        src += "".join("    %s.ipatch_%s = %d\n" % (p, a, x) for a, x in zip(axes, c))
        src += "    %s.index = %d\n    %s.rank = 0\n    %s.particles = [a%s, b%s]\n" % (p, index[c], p, p, p, p)
        src += "".join("    %s%s.attrs = ['x', 'y', 'z', 'w', 'ux', '_id']\n" % (q, p) for q in "ab")
        src += "    %s.fields = Fields%dD(%s, %s, n_guard=g)\n" % (p, dim, sz, ", ".join("%s.%s0" % (p, a) for a in axes))
        lay = []
        for q, a in enumerate(axes):
            if c[q] == 0 and bcs[q][0] == "pml":
                lay.append("PML%smin(%s.fields, 6)" % (a.upper(), p))
            if c[q] == sizes[q] - 1 and bcs[q][1] == "pml":
                lay.append("PML%smax(%s.fields, 6)" % (a.upper(), p))
        if not first:
            lay = [x for x in lay if not x.startswith("PMLX")]
        src += "    %s.pml_boundary = [%s]\n" % (p, ", ".join(lay))
        # everything holds 7 before the call
        src += "".join("    %s.fields.%s[:] = 7.0\n" % (p, f) for f in FATTRS)
        for k, x in enumerate(lay):
            a = x[3].lower()
            src += "".join("    %s.pml_boundary[%d].psi_%s%s_%s[:] = 7.0\n" % (p, k, eb, b, a) for eb in "eb" for b in axes3 if b != a)
    src += "    sim.patches = Patches(%d)\n" % dim
    for c in local:
        src += "    sim.patches.append(%s)\n" % nm[c]
    src += "    sim.patches.species = [s0, s1]\n    sim.species = [s0, s1]\n    s0.density = dens\n    s1.density = None\n    sim.dimension = %d\n" % dim
    for a, k in zip(axes, sizes):
        src += "    sim.npatch_%s = %d\n" % (a, k)
    src += "    sim.Lx = L\n    sim.boundary_conditions = %r\n" % {a + s: bcs[k][j] for k, a in enumerate(axes) for j, s in enumerate(("min", "max"))}
    src += "    sim.pusher = []\n    sim.sorter = []\n    sim.radiation = []\n    sim.pairproduction = []\n    sim.collision = None\n"
    src += "    self.num_shifts = %d\n    self.start_time = 0.0\n    sim.time = 2.0\n    sim.nx_per_patch = 4\n    sim.dx = 0.25\n    self.total_shift = 0\n    self.patch_this_shift = 0\n    self.velocity = %s\n    sim.dt = 1.0\n" % (0 if first else 3, "1.5" if sign > 0 else "-1.5")
    src += "    self.inject_particles = %s\n    self.stop_inject_time = %s\n" % (inject != "off", {"yes": "None", "later": "3.0", "off": "None", "stopped": "2.0"}[inject])
    src += "    self(sim)\n"
    ix = "[i, j]" if dim == 2 else "[i, j, k]"
    bnd = boundaries(w, dim)
    out, spec = [], []

    def want(expr, *key):
        out.append(expr)
        spec.append(key)
    pattrs = ["x", "y", "w"] + (["z"] if dim == 3 else [])
    for c in local:
        p = nm[c]
        for f in FATTRS:
            want("%s.fields.%s%s" % (p, f, ix), c, "field", f)
        want("%s.pml_boundary" % p, c, "layers")
        for q, a in enumerate(axes):
            for s, edge in (("min", 0), ("max", sizes[q] - 1)):
                if a != "x" and c[q] == edge and bcs[q][0 if s == "min" else 1] == "pml":
                    k = sum(1 for y in range(q) for e, ed in ((0, 0), (1, sizes[y] - 1)) if axes[y] != "x" and c[y] == ed and bcs[y][e] == "pml")
                    k += 1 if s == "max" and c[q] == 0 and bcs[q][0] == "pml" else 0
                    o = [b for b in "xyz" if b != a]
                    for f in ["psi_%s%s_%s" % (eb, b, a) for eb in "eb" for b in o]:
                        want("%s.pml_boundary[%d].%s%s" % (p, k, f, ix), c, "psi", f)
        want("a%s.is_dead[i]" % p, c, "dead", "s0")
        want("b%s.is_dead[i]" % p, c, "dead", "s1")
        for f in pattrs:
            want("a%s.%s" % (p, f), c, "attr", f)
        for a in axes:
            want("%s.%saxis" % (p, a), c, "axis", a)
        want("%s.neighbor_index" % p, c, "ntab")
        for kind in ("neighbor_index", "neighbor_rank", "neighbor_ipatch"):
            for b in sorted(bnd):
                want("%s.%s[%d]" % (p, kind, b), c, kind, b)
    src += "    return [%s]\n" % ", ".join(out)
    # the other process has shifted its patches too
    def moved(c):
        return ((c[0] - sign) % sizes[0],) + c[1:]
    other = Tup([Tup([P(x) for x in moved(c)] + [P(index[c]), P(1)]) for c in remote], "list")
    it.intrin[".allgather"] = lambda it_, av, kv, st, n: Tup([av[-1], other], "list")
    fills, counts = [], []

    def fill(it_, av, kv, st, n):
        fills.append((list(av), dict(kv), st.pc, n.loc))
        return NONE

    def count(it_, av, kv, st, n):
        a = atom("counted", len(counts))
        counts.append((list(av), dict(kv), P(a)))
        return P(a)
    it.intrin["fill_particles_%dd" % dim] = fill
    it.intrin["get_num_macro_particles_%dd" % dim] = count
    gen = []

    def genlist(it_, av, kv, st, n):
        gen.append((repr(av[0]), st.pc))
        return NONE
    it.intrin["MaxwellSolver.generate_field_lists"] = it.intrin[".generate_field_lists"] = genlist
    for nm_ in ("info", "debug", "warning"):
        it.intrin[".%s" % nm_] = lambda it_, av, kv, st, n: NONE
    dims = {"n" + a: slack("n" + a) + 20 for a in "xyz"}
    dims["g"] = slack("g") + 1
    eff, ret, st = it.run_func(w.driver(src), args=dict(dims, sim=sim))
    loc = window_loc(w)
    obs = []
    tag = "%dd" % dim
    ctx = "grid %s, sides %s, window moves %s, injection %s: patch %%s: " % (sizes, "/".join("".join(b[0] for b in x) for x in bcs), "right" if sign > 0 else "left", inject)
    if not isinstance(ret, Tup) or len(ret.items) != len(spec):
        raise Broken("moving window step has no single outcome: %s" % repr(ret)[:200])
    newc = [c for c in local if c[0] == (0 if sign > 0 else sizes[0] - 1)]
    byc = {moved(c): c for c in cells}
    attrs = {}
    axesv = {}
    fills_ok = inject in ("yes", "later")
    for key, v in zip(spec, ret.items):
        c, kind = key[0], key[1]
        new = c in newc
        ms = ctx % (c,)
        z = isinstance(v, Poly) and v.is_zero()
        if kind == "field":
            if new:
                obs.append(("zero", "%s field %s" % (tag, key[2]), z, ms + "%s of the entering patch holds %s" % (key[2], v), loc))
            else:
                ok = isinstance(v, Poly) and v.const() == 7
                obs.append(("kept", "%s fields" % tag, ok, ms + "%s of a patch inside the window changes from 7 to %s" % (key[2], v), loc))
        elif kind == "psi":
            if new:
                obs.append(("zero", "%s psi" % tag, z, ms + "%s of the entering patch holds %s" % (key[2], v), loc))
            else:
                ok = isinstance(v, Poly) and v.const() == 7
                obs.append(("kept", "%s psi" % tag, ok, ms + "%s of a patch inside the window changes from 7 to %s" % (key[2], v), loc))
        elif kind == "layers":
            nms = [x.as_atom().args[0] if isinstance(x, Poly) and x.as_atom() is not None else "?" for x in v.items] if isinstance(v, Tup) else None
            wantl = ["PML%s%s" % (a.upper(), s) for q, a in enumerate(axes) if a != "x" for s, e, b in (("min", 0, 0), ("max", sizes[q] - 1, 1)) if c[q] == e and bcs[q][b] == "pml"]
            obs.append(("window", "%s layers" % tag, nms == wantl, ms + "layers left are %s, expected %s" % (nms, wantl), loc))
        elif kind == "dead":
            if new:
                ok = v is TRUE or isinstance(v, Poly) and v.const() == 1
                if key[2] == "s0" and fills_ok:
                    continue        # storage is replaced, judged by the fill rule
                obs.append(("dropped", "%s %s" % (tag, key[2]), ok, ms + "particles that left with the dropped column stay alive (%s)" % (v,), loc))
            else:
                ok = repr(v).startswith(("a" if key[2] == "s0" else "b") + nm[c] + ".is_dead[i]") and "'" not in repr(v)
                obs.append(("kept", "%s %s" % (tag, key[2]), ok, ms + "particles inside the window are touched (%s)" % (v,), loc))
        elif kind == "attr":
            attrs[c, key[2]] = v
            if not new:
                obs.append(("kept", "%s %s" % (tag, key[2]), repr(v) == "a%s.%s" % (nm[c], key[2]), ms + "array %s of a patch inside the window is replaced (%s)" % (key[2], v), loc))
        elif kind == "axis":
            axesv[c, key[2]] = v
        elif kind in ("neighbor_index", "neighbor_rank", "neighbor_ipatch"):
            bn, d = bnd[key[2]]
            m = moved(c)
            t = []
            for q in range(dim):
                x = m[q] + d[q]
                if x < 0:
                    x = sizes[q] - 1 if bcs[q][0] == "periodic" else None
                elif x >= sizes[q]:
                    x = 0 if bcs[q][1] == "periodic" else None
                t.append(x)
            nb = None if None in t else byc[tuple(t)]
            if nb is None:
                wv = -1
            elif kind == "neighbor_index":
                wv = index[nb]
            elif kind == "neighbor_rank":
                wv = 1 if nb in remote else -1
            else:
                wv = local.index(nb) if nb in local else -1
            ok = isinstance(v, Poly) and v.const() == wv
            obs.append(("neighbours", "%s %s" % (tag, kind), ok, ms + "%s[%s] is %s after the shift, expected %s" % (kind, bn, v, wv), loc))
    # injection: one fill of the species with a profile, on the entering patches, into their current arrays
    live = [f for f in fills if f[2] is not FALSE]
    if not fills_ok:
        obs.append(("inject", "%s none" % tag, not live, ctx % "-" + "particles are injected although injection is off", loc))
    else:
        ok = len(live) == 1 and live[0][2] is TRUE
        obs.append(("inject", "%s once" % tag, ok, ctx % "-" + "%d fills for one species with a density profile" % len(live), loc))
        fn = w.mod("core.patch.cpu").funcs.get("fill_particles_%dd" % dim)
        if ok and fn is not None:
            names = [p[0] for p in fn.params]
            b = dict(zip(names, live[0][0]))
            b.update(live[0][1])

            def ident(v, wantv, what):
                ok = isinstance(v, Tup) and [repr(x) for x in v.items] == [repr(x) for x in wantv]
                obs.append(("inject", "%s %s" % (tag, what), ok, ctx % "-" + "%s handed to the fill are %s, the entering patches hold %s" % (what, v, wantv), live[0][3]))
            tups = {k: v for k, v in b.items() if isinstance(v, Tup)}
            for a in axes:
                ax = [v for k, v in b.items() if k.startswith(a) and "axis" in k]
                ident(ax[0] if ax else None, [axesv[c, a] for c in newc], a + " axes")
            for f in pattrs:
                ar = [v for k, v in b.items() if k.split("_")[0] == f and "axis" not in k and isinstance(v, Tup)]
                ident(ar[0] if ar else None, [attrs[c, f] for c in newc], f + " arrays")
    if first:
        obs.append(("window", "%s solver lists" % tag, any(g[1] is TRUE and "maxwell" in g[0] for g in gen), ctx % "-" + "the field solver keeps its old list of layers", loc))
    return obs, it.analysed


def jobs_scene(thorough):
    per, opn = ("periodic", "periodic"), ("pml", "pml")
    out = []
    for sign in (1, -1):
        for k, inject in enumerate(("yes", "off", "later", "stopped")):
            out.append(("scene_job", 2, (3, 2), (opn, (per, opn)[k % 2]), sign, inject, k % 2 == 0))
        out.append(("scene_job", 2, (2, 3), (opn, opn), sign, "yes", True))
        out.append(("scene_job", 2, (1, 2), (opn, opn), sign, "yes", False))
        out.append(("scene_job", 3, (3, 1, 2), (opn, per, opn), sign, "yes", True))
        out.append(("scene_job", 3, (2, 2, 2), (opn, opn, opn), sign, "off", False))
        if thorough:
            for b in itertools.product((per, opn), repeat=2):
                for inject in ("yes", "off", "later", "stopped"):
                    for first in (True, False):
                        out.append(("scene_job", 2, (4, 2), (opn, b[0]), sign, inject, first))
                        out.append(("scene_job", 3, (2, 2, 2), (opn,) + b, sign, inject, first))
    return out


def p24(c):
    c.rule("when", "the window moves one patch column exactly when the accumulated distance reaches the length of a patch, in the direction of motion, and never before its start time")
    c.rule("carry", "the distance beyond whole columns is carried over")
    c.rule("column", "the column behind the window becomes the column in front of it: position, axes and their field copies move by the box length; all other patches only change their column number")
    c.rule("neighbours", "neighbour, rank and local tables match the new arrangement")
    c.rule("dropped", "particles of the dropped column do not survive")
    c.rule("kept", "particles of the other patches are untouched")
    c.rule("zero", "fields and layer memories of the entering patches are cleared")
    c.rule("inject", "the species with a profile are filled once, into the current arrays of the entering patches, at their new position, and only while injection is on")
    c.units |= {"src/lambdapic/callback/utils.py", "src/lambdapic/core/patch/patch.py"}
    thorough = c.tier == "thorough"
    jobs = [("when_job", case, f, b) for case in WHEN for f in (False, True) for b in (False, True)]
    jobs += [("shift_job", d, cls, s) for d in (2, 3) for cls in CLASSES for s in (1, -1)]
    jobs += jobs_scene(thorough)
    run_jobs(c, jobs, mod=globals(), skip={"window"})
    c.floor("when", 10)
    c.floor("column", 40)
    c.floor("neighbours", 6)
    c.floor("dropped", 4)
    c.floor("zero", 20)
    c.floor("inject", 10)


def p36_jobs(thorough):
    return [j for j in jobs_scene(False) if j[6]]
