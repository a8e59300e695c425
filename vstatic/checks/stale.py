"""P11 no kernel is handed particle storage that was replaced.

A driver builds every module on two patches and three species, lets the storage of some particles be replaced
(each way the package does it), runs the refresh the package relies on, and then calls every kernel entry.
Compiled functions are opaque; at each call their arguments are inspected: entry k of every list must be made
of the arrays patch k holds at that moment.
"""
from ..world import *
from ..interp import *
from .. import alg
from .topology import run_jobs, fresh
from . import stepper

ARR = ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "_id",
       "tau", "chi", "delta", "sx", "sy", "sz"]
EXTRA = ["is_dead", "event"]

HEAD = '''
from .simulation.simulation import Simulation, Simulation3D
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.particles import QEDParticles, SpinQEDParticles
from .core.species import Electron, Positron, Photon
from .core.pusher.pusher import BorisPusher, PhotonPusher, BorisTBMTPusher
from .core.sort.particle_sort import ParticleSort2D, ParticleSort3D
from .core.qed.radiation import NonlinearComptonLCFA
from .core.qed.pair_production import NonlinearPairProductionLCFA
from .core.collision.collision import Collision
from .core.interpolation.field_interpolation import FieldInterpolation2D, FieldInterpolation3D
from .core.current.deposition import CurrentDeposition2D, CurrentDeposition3D
from .core.maxwell.solver import MaxwellSolver2D, MaxwellSolver3D
from .core.mpi.mpi_manager import MPIManager2D, MPIManager3D
from .callback.utils import LoadParticles, MovingWindow
'''


class Watch:
    """ownership of arrays and the state of every kernel argument"""

    def __init__(self, it, npatch, nspec):
        self.it = it
        self.owner = {}        # particle object atom -> (patch, species)
        self.fields = {}       # field object atom -> patch
        self.pobj = {}
        self.fresh = {}        # renewed symbol -> (object atom, generation)
        self.gen = 0
        self.res = {}
        self.obs = []
        self.on = True
        self.sim = None
        self.kernels = {}
        self.made = {}         # array allocated in a method of a sorter -> function
        self.sorted = {}       # array handed to a sort kernel -> (patch, species)

    def renew(self, st, base, name):
        self.gen += 1
        s = atom("sym", "new%d" % self.gen)
        self.fresh[s] = base
        m = st.mem.get(base)
        m = m.copy() if m is not None else MemObj()
        m.vals[name] = P(atom("attr", s, name))
        st.mem[base] = m

    def arrays(self, v, seen=None, depth=0):
        """(object atom, attribute, array atom) of every particle array a value is made of"""
        out = set()
        if depth > 12:
            return out
        for a in atoms_deep(v):
            if a.kind == "attr" and a.args[1] in ARR + EXTRA:
                b = a.args[0]
                if b in self.owner:
                    out.add((b, a.args[1], a))
                elif b in self.fresh:
                    out.add((self.fresh[b], a.args[1], a))
            if a in self.res and a not in (seen or ()):
                out |= self.arrays(self.res[a], (seen or frozenset()) | {a}, depth + 1)
        return out

    def current(self, st, base, name):
        m = st.mem.get(base)
        if m is not None and name in m.vals:
            v = m.vals[name]
            return v.as_atom() if isinstance(v, Poly) else v
        return atom("attr", base, name)

    def order(self):
        return self.patch_order

    def patches_now(self, st):
        """patch objects in the order of the container"""
        v = self.it.getattr(self.container, "patches", st)
        return [x.as_atom() for x in v.items] if isinstance(v, Tup) else None

    def check(self, name, av, kv, st, loc):
        if not self.on or st.pc is FALSE:
            return
        order = self.patches_now(st)
        if order is None:
            return             # a module-level value, computed in a state of its own
        n = len(order)
        pos = {p: k for k, p in enumerate(order)}
        spec = {self.owner[b][1] for v in list(av) + [x for _, x in kv] if isinstance(v, Tup) for b, nm, a in self.arrays(v)}
        sorting = self.in_sorter() and len(spec) == 1
        for i, v in enumerate(list(av) + [x for _, x in kv]):
            if not isinstance(v, Tup):
                continue
            L = len(v.items)
            for k, x in enumerate(v.items):
                who = set()
                m = x.base if isinstance(x, Ptr) else x.as_atom() if isinstance(x, Poly) else x
                if m in self.made:
                    if sorting:
                        self.sorted[m] = (order[k * n // L], min(spec))
                    elif spec:
                        o = self.sorted.get(m)
                        self.obs.append((name, "bounds", o is not None and o[1] in spec and pos.get(o[0]) == k * n // L,
                                         "entry %d of argument %d is an index array the sorter of species %s no longer fills for that patch" % (k, i, sorted(spec)), loc))
                for b, nm, a in self.arrays(x):
                    p, s = self.owner[b]
                    ok = a is self.current(st, b, nm)
                    self.ob(name, i, nm, ok, "entry %d of argument %d is %s, storage of patch %d was replaced by %s" % (k, i, a, pos.get(p, -1), self.current(st, b, nm)), loc)
                    who.add(p)
                for a in atoms_deep(x):
                    if a in self.owner:
                        who.add(self.owner[a][0])
                    elif a in self.pobj:
                        who.add(a)
                for p in who:
                    ok = L % n == 0 and pos.get(p) == k * n // L
                    self.ob(name, i, "order", ok, "entry %d of %d in argument %d belongs to patch %s, the process holds %d patches" % (k, L, i, pos.get(p, "that left"), n), loc)

    def in_sorter(self):
        return any("/core/sort/" in str(f.file) for f in self.it.fstack)

    def ob(self, name, i, what, ok, msg, loc):
        self.kernels.setdefault(name, 0)
        self.kernels[name] += 1
        self.obs.append((name, what, ok, msg, loc))


def install(w, it, npatch, nspec):
    """hooks: resize replaces storage, compiled functions are inspected instead of entered"""
    W = Watch(it, npatch, nspec)
    it.maxdepth = 40
    it.inline_pred = lambda fn: not any("njit" in str(d) or "jit" == str(d) for d in fn.decorators) and not (fn.lang == "c")

    def resize(it_, av, kv, st, n):
        a = av[0].as_atom() if isinstance(av[0], Poly) else None
        if a is None or a.kind != "attr":
            return None
        base = a.args[0]
        base = W.fresh.get(base, base)
        if base in W.owner:
            W.renew(st, base, a.args[1])
        return NONE
    it.intrin[".resize"] = resize
    # the number of living particles of a species that is pruned: fewer than it has slots
    it.intrin[".sum"] = lambda it_, av, kv, st, n: P(2) if "prune" in it_.stack[-1] else None
    alloc = it.new_alloc

    def new_alloc(*a, **k):
        r = alloc(*a, **k)
        if W.in_sorter():
            W.made[r.as_atom() if isinstance(r, Poly) else r] = True
        return r
    it.new_alloc = new_alloc
    orig = it.opaque_call

    def opaque(name, av, kv, st, n, recv=None, **k):
        loc = getattr(n, "loc", None)
        W.check(str(name).split(".")[-1], av, kv, st, loc)
        r = orig(name, av, kv, st, n, recv=recv, **k)
        a = r.as_atom() if isinstance(r, Poly) else None
        if a is not None:
            W.res[a] = Tup(list(av) + [x for _, x in kv])
        return r
    it.opaque_call = opaque
    for nm in ("info", "debug", "warning", "astype"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE
    return W


def build(dim, npatch):
    """driver text: patches, species and all modules"""
    D = "%dD" % dim
    ps = ["p%d" % k for k in range(npatch)]
    params = ["sim", "s0: Electron", "s1: Photon", "s2: Positron", "gen"] + ["%s: Patch%s" % (p, D) for p in ps]
    params += ["a%d%d: %s" % (k, s, "SpinQEDParticles") for k in range(npatch) for s in range(3)]
    src = HEAD + "def main(%s, DRIVER):\n" % ", ".join(params)
    for k, p in enumerate(ps):
        src += "    %s.particles = [%s]\n" % (p, ", ".join("a%d%d" % (k, s) for s in range(3)))
        for s in range(3):
            src += "    a%d%d.attrs = %r\n    a%d%d.extended = False\n    a%d%d.npart = 5\n" % (k, s, ARR, k, s, k, s)
        src += "    %s.pml_boundary = []\n    %s.index = %d\n" % (p, p, k)
    src += "    ps = Patches(%d)\n" % dim
    src += "".join("    ps.append(p%d)\n" % k for k in range(2))
    src += "    for k, s in enumerate([s0, s1, s2]):\n        s.ispec = k\n    s0.photon = s1\n    s1.electron = s0\n    s1.positron = s2\n"
    src += "    ps.species = [s0, s1, s2]\n    sim.species = ps.species\n    sim.patches = ps\n    sim.dimension = %d\n" % dim
    src += "    sim.maxwell = MaxwellSolver%s(ps)\n    sim.interpolator = FieldInterpolation%s(ps)\n    sim.current_depositor = CurrentDeposition%s(ps)\n" % (D, D, D)
    src += "    sim.pusher = [BorisPusher(ps, 0), PhotonPusher(ps, 1), BorisTBMTPusher(ps, 2)]\n"
    src += "    sim.sorter = [ParticleSort%s(ps, s, nx_buckets=4, ny_buckets=4%s) for s in ps.species]\n" % (D, ", nz_buckets=4" if dim == 3 else "")
    src += "    sim.radiation = [NonlinearComptonLCFA(ps, 0), None, None]\n"
    src += "    sim.pairproduction = [None, NonlinearPairProductionLCFA(ps, 1), None]\n"
    src += "    sim.collision = Collision([[s0, s0, s2]], ps, sim.sorter, gen)\n"
    src += "    sim.collision.generate_particle_lists()\n    sim.collision.generate_field_lists()\n    START()\n"
    return src


KERNELS = '''
    for k in range(3):
        sim.interpolator(k)
        sim.pusher[k](dt)
        sim.pusher[k].push_position(dt)
        sim.current_depositor(k, dt)
    sim.pusher[0](dt, unified=True)
    sim.current_depositor.reset()
    for m in [sim.radiation[0], sim.pairproduction[1]]:
        m.update_chi()
        m.event(dt)
        m.reaction()
    NOGROW()
    for m in [sim.radiation[0], sim.pairproduction[1]]:
        m._update_particle_lists()
        m.create_particles()
    for k in range(3):
        sim.sorter[k]()
    sim.collision.calculate_debye_length()
    sim.collision(dt)
    return 0
'''


def renewal(k, s):
    """all storage of species s on patch k replaced, as extend and initialize do"""
    return "    a%d%d.extend(3)\n" % (k, s)


R0 = "    %(m)s._update_particle_lists()\n    %(m)s.create_particles()\n    %(m)s.reaction()\n"
EVENTS = {
    "extend": lambda k, s: "    a%d%d.extend(3)\n    sim.update_lists()\n" % (k, s),
    "prune": lambda k, s: "    a%d%d.prune()\n    sim.update_lists()\n" % (k, s),
    "photon": lambda k, s: "    sim.radiation[0]._update_particle_lists()\n    sim.radiation[0].create_particles()\n    sim.radiation[0].reaction()\n    sim.update_lists()\n",
    "pair": lambda k, s: "    sim.pairproduction[1]._update_particle_lists()\n    sim.pairproduction[1].create_particles()\n    sim.pairproduction[1].reaction()\n    sim.update_lists()\n",
    "photon then pair": lambda k, s: "".join("    %s._update_particle_lists()\n    %s.create_particles()\n    %s.reaction()\n" % (m, m, m) for m in ("sim.radiation[0]", "sim.pairproduction[1]")) + "    sim.update_lists()\n",
    "pair then photon": lambda k, s: "".join("    %s._update_particle_lists()\n    %s.create_particles()\n    %s.reaction()\n" % (m, m, m) for m in ("sim.pairproduction[1]", "sim.radiation[0]")) + "    sim.update_lists()\n",
    "photon without pair": lambda k, s: R0 % {"m": "sim.radiation[0]"} + "    NOGROW()\n" + R0 % {"m": "sim.pairproduction[1]"} + "    sim.update_lists()\n",
    "pair without photon": lambda k, s: R0 % {"m": "sim.pairproduction[1]"} + "    NOGROW()\n" + R0 % {"m": "sim.radiation[0]"} + "    sim.update_lists()\n",
    "photon on the last patch": lambda k, s: "    GROWLAST()\n" + R0 % {"m": "sim.radiation[0]"} + "    NOGROW()\n" + R0 % {"m": "sim.pairproduction[1]"} + "    sim.update_lists()\n",
    "migration while disabled": lambda k, s: "    ps.pop(0)\n    ps.append(p2)\n" + "".join("    sim.%s.disable()\n" % m for m in ("radiation[0]", "pairproduction[1]")) + "    sim.update_patches()\n" + "".join("    sim.%s.enable()\n" % m for m in ("radiation[0]", "pairproduction[1]")),
    "exchange": lambda k, s: "    ps.sync_particles()\n    sim.update_lists()\n",
    "mpi exchange": lambda k, s: "    h = sim.mpi.sync_particles_start(%d)\n    sim.mpi.sync_particles_wait(h)\n    sim.update_lists()\n" % s,
    "migration": lambda k, s: "    ps.pop(0)\n    ps.append(p2)\n    sim.update_patches()\n",
    "migration of all": lambda k, s: "    ps.pop(1)\n    ps.pop(0)\n    ps.append(p2)\n    ps.append(p0)\n    ps.append(p3)\n    sim.update_patches()\n",
    "migration to fewer": lambda k, s: "    ps.pop(0)\n    sim.update_patches()\n",
}


def event_job(dim, ev, k, s):
    w = world()
    it = fresh(w)
    W = install(w, it, 2, 3)
    npatch = 4
    cname = "Simulation" + ("3D" if dim == 3 else "")
    sim = atom("newobj", cname, 0)
    it.types[sim] = w.cls("simulation.simulation", cname)
    src = build(dim, npatch)
    src = src.replace(", DRIVER)", ", dt)")
    if ev == "mpi exchange":
        src += "    sim.mpi = mpi\n    mpi.patches = ps\n    mpi.size = 2\n"
        src = src.replace(", dt):", ", dt, mpi: MPIManager%dD):" % dim)
    src += EVENTS[ev](k, s) + "    DONE()\n" + KERNELS
    fn = w.driver(src)
    state = {"phase": "build", "grow": True}

    def start(it_, av, kv, st, n):
        state["phase"] = "event"
        return NONE

    def done(it_, av, kv, st, n):
        state["phase"] = "after"
        return NONE

    def nogrow(it_, av, kv, st, n):
        state["grow"] = False
        return NONE
    def last(it_, av, kv, st, n):
        state["grow"] = "last"
        return NONE
    it.intrin["GROWLAST"] = last
    it.intrin["START"], it.intrin["DONE"], it.intrin["NOGROW"] = start, done, nogrow

    def sizes(it_, av, kv, st, n):
        W.check("get_particle_extension_size_patches", av, kv, st, n.loc)
        g = state["grow"]
        k = len(W.patches_now(st) or (0, 0))
        return Tup([P(2) if g and (g != "last" or i == k - 1) else P(0) for i in range(k)], "list")
    it.intrin["get_particle_extension_size_patches"] = sizes

    def npart(count):
        def h(it_, av, kv, st, n):
            W.check("get_npart_to_extend", av, kv, st, n.loc)
            x = Tup([P(2)] * len(W.patches_now(st)), "list")
            return Tup([x, P(atom("sym", "incoming")), P(atom("sym", "outgoing"))] + ([x] if count == 4 else []))
        return h
    c = 3 if ev == "mpi exchange" else 4
    it.intrin["get_npart_to_extend_%dd" % dim] = npart(c)
    me = {}
    for q in range(npatch):
        p = atom("sym", "p%d" % q)
        W.pobj[p] = q
        for t in range(3):
            W.owner[atom("sym", "a%d%d" % (q, t))] = (p, t)
    cont = {}

    def catch(it_, av, kv, st, n):
        W.container = av[0]
        return None
    it.intrin["Patches.append"] = catch
    W.container = None
    real_check = W.check
    W.check = lambda *a: real_check(*a) if state["phase"] != "build" else None
    eff, ret, st = it.run_func(fn, args={"sim": P(sim), "gen": P(atom("sym", "gen"))})
    obs = []
    for name, what, ok, msg, loc in W.obs:
        key = "%dd %s" % (dim, name)
        obs.append((what if what in ("order", "bounds") else "stale", key + ("" if what in ("order", "bounds") else " " + what), ok, "after %s (patch %d, species %d): %s" % (ev, k, s, msg), loc))
    obs.append(("reach", "%dd %s" % (dim, ev), len(W.kernels) >= 10, "only the kernels %s were reached" % sorted(W.kernels), ("src/lambdapic/simulation/simulation.py", 0)))
    return obs, it.analysed


# ------------------------------------------------------------------ the step
RENEWS = {"sync_particles_start", "sync_particles_wait", "sync_particles", "local particles", "create_particles"}
USES = {"sort", "debye", "collide", "pos", "interp", "update_chi", "event", "mom", "unified", "deposit", "create_particles", "reaction"}


def step_job(cfg):
    """a step never uses a module's lists between a replacement of storage and the refresh"""

    def mark(ev):
        def h(it, av, kv, st, n):
            it.emit(CallE(ev, [], (), st.pc, n.loc, (), None))
            return NONE
        return h

    def cls(e):
        if e.kind == "call" and e.name in ("@lists", "@patches"):
            return (e.name, None)
        if e.kind == "call" and e.recv is not None and e.name == "_update_particle_lists" and stepper.recv_name(e.recv)[0] in ("r0", "r1", "pp2"):
            return ("@own", int(stepper.recv_name(e.recv)[0][-1]))
        return stepper.classify(e)
    hooks = {"Simulation.update_lists": mark("@lists"), "Simulation.update_patches": mark("@patches")}
    ev, fns, units = stepper.trace(cfg, hooks, cls)
    w = world()
    for m in ("update_lists", "update_patches"):
        if w.method(w.cls("simulation.simulation", "Simulation"), m) is None:
            raise Broken("Simulation.%s is gone" % m)
    stale = {}          # module -> what replaced its storage
    moved = None
    ALL = ["step", 0, 1, 2]
    obs = []
    for kind, data, loc, cond, _ in ev:
        if cond is not None and (kind in USES or kind in RENEWS or kind[0] == "@"):
            obs.append(("step", "%s unconditional" % kind, kind not in ("@lists", "@patches", "@own"), "the refresh only happens if %s" % cond[:200], loc))
        if kind == "@patches":
            moved = None
            stale = {}
        elif kind == "@lists":
            stale = {}
        elif kind == "@own":
            stale.pop(data, None)
        if kind in USES or kind in ("E", "B"):
            who = data[0] if kind in ("create_particles", "reaction", "update_chi", "event") else "step"
            w = stale.get(who)
            if kind not in ("E", "B"):
                obs.append(("step", "%s after refresh" % kind, w is None, "%s runs on lists that were not refreshed since %s" % (kind, w), loc))
            obs.append(("step", "%s after migration" % kind, moved is None, "%s runs on the lists of patches that may have left (load balancing at %s)" % (kind, moved), loc))
        if kind in RENEWS:
            for m in ALL:
                if kind == "create_particles" and m == data[0]:
                    continue            # refreshes its own lists (rule stale)
                stale.setdefault(m, "%s at %s:%s" % ((kind,) + tuple(loc[:2] if loc else ("?", 0))))
        if kind == "balance":
            moved = "%s:%s" % tuple(loc[:2]) if loc else "?"
    return obs, set(fns)


def p11(c):
    c.rule("step", "within a step no module uses its lists between a replacement of particle storage (or a migration of patches) and the refresh")
    c.rule("stale", "entry k of every list handed to compiled code holds the array that patch k holds at that moment")
    c.rule("order", "lists handed to compiled code have one group of entries per local patch, in the order of the patches")
    c.rule("bounds", "index arrays of a sorter used elsewhere (collisions) are those the sorter of that species fills now, patch by patch")
    c.rule("reach", "the kernels of all modules are reached")
    jobs = []
    for dim in (2, 3):
        for s in range(3):
            for k in (0, 1):
                jobs.append(("event_job", dim, "extend", k, s))
        jobs.append(("event_job", dim, "prune", 1, 0))
        for e in EVENTS:
            if e in ("extend", "prune"):
                continue
            jobs.append(("event_job", dim, e, 0, 0))
            if e.startswith("migration") or e in ("exchange", "mpi exchange"):
                jobs.append(("event_job", dim, e, 1, 2))
    jobs += [("step_job", cfg) for cfg in stepper.configs([]) + [stepper.Cfg("two radiating species", first="r0")]]
    run_jobs(c, jobs, mod=globals())
    c.floor("stale", 150)
    c.floor("step", 15)
