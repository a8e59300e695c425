"""The time step: order of the physics stages (P09) and the callback stages and triggers (P29).

Simulation.run is reduced to the sequence of calls it makes on its modules (functions of the simulation package are
followed, modules stay opaque), for every combination of module kinds.  Two consecutive steps are laid out; a typestate
automaton over the sequence must accept both and be in the same state after each, so that it accepts every number of
steps."""
from ..world import *
from ..report import pmap

SRC = """
from lambdapic.simulation.simulation import Simulation, Simulation3D
from lambdapic.core.pusher.pusher import BorisPusher, PhotonPusher
from lambdapic.core.qed.radiation import NonlinearComptonLCFA
from lambdapic.core.qed.pair_production import NonlinearPairProductionLCFA
def main(sim: Simulation{d}, s0, s1, s2, s3, p0: BorisPusher, p1: BorisPusher, p2: PhotonPusher, p3: BorisPusher, r0, r1, pp2, so0, so1, so2, so3, coll, it0: int):
    sim.initialized = True
    sim.species = [s0, s1, s2, s3]
    sim.patches.species = [s0, s1, s2, s3]
    sim.pusher = [p0, p1, p2, p3]
    sim.sorter = [so0, so1, so2, so3]
    sim.radiation = [{first}, r1, None, None]
    sim.pairproduction = [None, None, pp2, None]
    sim.collision = {coll}
    sim._current_sync_handle = None
    sim.current_synced = {synced}
    sim.itime = it0
    sim.mpi.rank = {rank}
    sim.mpi.size = {size}
    sim.run(nsteps=2)
"""

E3, B3 = {"ex", "ey", "ez"}, {"bx", "by", "bz"}
WATCH = {"maxwell", "mpi", "patches", "current_depositor", "interpolator", "load_balancer", "collision"}
PUSHER_STAGES = {"_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2"}


class Cfg:
    def __init__(self, name, d="", first="None", coll=True, size=2, rank=0, rebalance=False, cbstage=None, syncing=None, synced=True, restart=False):
        self.name, self.d, self.coll, self.size, self.rank, self.rebalance = name, d, coll, size, rank, rebalance
        self.cbstage, self.syncing, self.synced, self.first = cbstage, syncing, synced, first
        self.objs = {"s%d" % i for i in range(4)} | {"p%d" % i for i in range(4)} | {"so%d" % i for i in range(4)} | {"r1", "pp2", "coll"}


def configs(stages):
    out = []
    for d in ("", "3D"):
        out += [Cfg("single%s" % d, d, size=1, coll=False), Cfg("mpi%s" % d, d), Cfg("mpi,balance%s" % d, d, rebalance=True, rank=1),
                Cfg("single,collisions%s" % d, d, size=1)]
    for s in stages:
        out.append(Cfg("callback %s" % s, cbstage=s))
        out.append(Cfg("callback %s syncs currents" % s, cbstage=s, syncing=s, synced=False))
        out.append(Cfg("callback %s syncs currents, single" % s, cbstage=s, syncing=s, size=1, synced=False))
    return out


def recv_name(r):
    """last attribute name of the receiver and the receiver atom"""
    a = r.as_atom() if isinstance(r, Poly) else r
    while isinstance(a, Ptr):
        a = a.base
    if not isinstance(a, Atom):
        return None, None
    if a.kind == "sym":
        return str(a.args[0]), a
    if a.kind == "attr":
        return str(a.args[1]), a
    return None, a


def unmark(a):
    return a


def trace(cfg, hooks=(), classify=None):
    """[(event, data, loc, func)] of two steps"""
    w = World()
    it = w.interp()
    it.unroll_sym = True
    it.isobj = isobj
    it.noinline = {"_add_default_species_if_empty", "initialize"}
    it.inline_pred = lambda fn: "/simulation/" in str(fn.file) or getattr(fn.module, "synthetic", False)
    simcls = w.cls("simulation.simulation", "Simulation")
    stages = stage_list(w)
    src = SRC.format(d=cfg.d, first=cfg.first, coll="coll" if cfg.coll else "None", size=cfg.size, rank=cfg.rank, synced=cfg.synced)
    fn = w.driver(src)
    cbcls = w.cls("simulation.simulation", "SimulationCallbacks")
    cba = atom("newobj", "SimulationCallbacks", 1)
    w.method(cbcls, "run")
    sync = w.method(simcls, "sync_currents")

    def mkcb(it, av, kv, st, n):
        it.types[cba] = cbcls
        m = MemObj()
        m.vals["stage_callbacks"] = DictV({s: Tup([P(sym("somecb"))] if s == cfg.cbstage else [], "list") for s in stages})
        m.vals["stages"] = Tup(list(stages), "list")
        m.vals["simulation"] = P(av[1]) if len(av) > 1 else P(dict(kv).get("simulation"))
        st.mem[cba] = m
        return P(cba)

    def runcb(it, av, kv, st, n):
        stage = av[1] if len(av) > 1 else dict(kv).get("stage")
        it.emit(CallE("@stage", [stage], (), st.pc, n.loc, (), None))
        if cfg.syncing == stage:
            m = st.mem.get(cba)
            it.call_func(FuncV(sync, None, P(m.vals["simulation"])), [P(m.vals["simulation"])], [], st, n)
        return NONE
    it.intrin["SimulationCallbacks"] = mkcb
    it.intrin["SimulationCallbacks.run"] = runcb
    it.intrin["SimulationCallbacks.has_triggered_callbacks"] = lambda it, av, *k: P(1 if av[1] == cfg.cbstage else 0)
    it.intrin[".is_enabled"] = lambda it, av, *k: P(0 if recv_name(av[0])[0] == "s3" else 1)

    def start(it, av, kv, st, n):
        # single rank: nothing to wait for
        if recv_name(av[0])[0] != "mpi":
            return None
        a = atom("call", "sync_currents_start", next(it.seq))
        res = NONE if cfg.size == 1 else P(a)
        it.emit(CallE("sync_currents_start", av[1:], kv, st.pc, n.loc, (), res, recv=av[0]))
        return res
    it.intrin[".sync_currents_start"] = it.intrin["MPIManager.sync_currents_start"] = start

    def reb(it, av, kv, st, n):
        it.emit(CallE("should_rebalance", av[1:], kv, st.pc, n.loc, (), None, recv=av[0]))
        return P(1 if cfg.rebalance else 0)
    it.intrin[".should_rebalance"] = it.intrin["LoadBalancer.should_rebalance"] = reb
    it.intrin["stop_callback"] = lambda it, av, *k: P(0)
    # the ranks agree (P21): what one of them asks, all of them ask
    it.intrin[".allgather"] = lambda it, av, kv, st, n: Tup(av[1:2], "list")
    for r in (".allreduce", ".bcast"):
        it.intrin[r] = lambda it, av, *k: av[1] if len(av) > 1 else None
    for h, f in dict(hooks).items():
        it.intrin[h] = f
    eff, ret, st = it.run_func(fn, defaults=True)
    facts = {}
    ev = []
    flatten(eff, facts, ev, (), classify or globals()["classify"])
    return ev, sorted(it.analysed), sorted(w.linker.used)


def isobj(x):
    a = x
    if a.kind == "sym":
        return str(a.args[0]) != "it0"
    if a.kind == "attr":
        return str(a.args[1]) in WATCH
    if a.kind == "call":
        return str(a.args[0]) == "sync_currents_start"
    return False


def flatten(effs, facts, out, loops, classify):
    for e in effs:
        pc = e.pc
        for a, v in facts.items():
            pc = cofactor(pc, a, v is TRUE)
        if pc is FALSE:
            continue
        if e.kind == "loop":
            if any(x.kind == "call" and classify(x) is not None for x, l, p in flat([e])):
                out.append(("loop", pc, e.loc, e.stack, None))
            continue
        if e.kind in ("return", "raise"):
            continue
        c = classify(e)
        if c is None:
            continue
        out.append((c[0], c[1], e.loc, None if pc is TRUE else show_b(pc), None))


def stage_list(w):
    v = w.cls("simulation.simulation", "Simulation").attrs.get("STAGES")
    if v is None or not all(x.op == "str" for x in v.a[0]):
        raise Broken("Simulation.STAGES is not a list of names")
    return [x.a[0] for x in v.a[0]]


def names(v):
    return {x for x in v.items} if isinstance(v, Tup) else None


def classify(e):
    """(event, data) of a call or store the automaton looks at, else None"""
    if e.kind == "store":
        if e.base.kind == "sym" and e.base.args[0] == "sim" and isinstance(e.key, str) and e.key in ("time", "itime", "ispec"):
            return ("set " + e.key, e.val)
        return None
    if e.kind != "call":
        return None
    kw = dict(e.kw)
    if e.name == "@stage":
        return ("stage", e.args[0])
    rn, a = recv_name(e.recv) if e.recv is not None else (None, None)
    m = e.name
    if rn is None:
        return None
    if rn == "sim" and m in WATCH:
        rn, m = ("coll" if m == "collision" else m), "__call__"

    def arg(i, *nm):
        if i < len(e.args):
            return e.args[i]
        for k in nm:
            if k in kw:
                return kw[k]
        return None
    call = m in ("?", "__call__")
    if rn == "maxwell" and m in ("update_efield", "update_bfield"):
        return (m[7].upper(), arg(0, "dt"))
    if rn == "mpi":
        if m in ("sync_guard_fields_start", "sync_guard_fields"):
            return (m, (names(arg(0, "attrs")), e.res))
        if m in ("sync_guard_fields_wait", "sync_currents_wait", "sync_particles_wait"):
            return (m, arg(0, "handle"))
        if m in ("sync_currents_start", "sync_currents"):
            return (m, e.res)
        if m in ("sync_particles_start", "sync_particles"):
            return (m, (arg(0, "ispec"), e.res))
    if rn == "patches":
        if m == "sync_guard_fields":
            return ("local guard", names(arg(0, "attrs")))
        if m in ("sync_currents", "sync_particles"):
            return ("local " + m[5:], None)
    if rn == "current_depositor":
        if m == "reset":
            return ("reset", None)
        if call:
            return ("deposit", (arg(0, "ispec"), arg(1, "dt")))
    if rn == "interpolator" and call:
        return ("interp", arg(0, "ispec"))
    if rn == "load_balancer" and call:
        return ("balance", None)
    if rn == "coll":
        if m == "calculate_debye_length":
            return ("debye", None)
        if call:
            return ("collide", arg(0, "dt"))
    if len(rn) == 2 and rn[0] == "p" and rn[1].isdigit():
        if m == "push_position":
            return ("pos", (int(rn[1]), arg(0, "dt")))
        if call:
            u = arg(1, "unified")
            return ("unified" if u is not None and truth(u) is TRUE else "mom", (int(rn[1]), arg(0, "dt")))
    if len(rn) == 3 and rn[:2] == "so" and call:
        return ("sort", int(rn[2]))
    if rn in ("r0", "r1", "pp2") and m in ("update_chi", "event", "create_particles", "reaction"):
        return (m, (int(rn[-1]), arg(0, "dt")))
    if rn in ("mpi", "patches", "maxwell", "current_depositor", "interpolator") and not m.startswith("generate_") and not m.startswith("update_"):
        return ("unknown", "%s.%s" % (rn, m))
    return None


class Automaton:
    """typestate of one simulation; obligations are (rule, construct, ok, message, loc)"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.dt = P(atom("attr", atom("sym", "sim"), "dt"))
        self.fresh = {("E", "l"): True, ("E", "m"): True, ("B", "l"): True, ("B", "m"): True}
        self.flight = {}
        self.jflight = None
        self.jl = self.jm = False
        self.unknown = []
        self.out = []
        self.ispec = None
        self.final = False
        self.inited = False
        self.nstep = 0
        self.instep = False
        self.begin()

    def begin(self):
        self.e = self.b = 0
        self.sp = [dict(pos=0, interp=False, chi=False, event=False, mom=False, dep=False, made=False, react=False, uni=False) for _ in range(4)]
        self.reset = self.worked = False
        self.sorted = set()
        self.debye = False
        self.ncoll = 0
        self.px = {}
        self.pxdone = False
        self.clock = []
        self.stages = []

    def ob(self, rule, key, ok, msg, loc):
        self.out.append((rule, key, bool(ok), "%s (configuration %s, step %d)" % (msg, self.cfg.name, self.nstep), loc))

    def guards(self, f, who, loc):
        for k, nm in (("l", "same-rank"), ("m", "cross-rank")):
            self.ob("guards", "%s guards before %s, %s" % (f, who, nm), self.fresh[(f, k)] and (k == "l" or f not in [x for x, _ in self.flight.values()]),
                    "%s reads %s guard cells that were not exchanged (%s) since the field changed" % (who, f, nm), loc)

    def run(self, ev):
        for kind, data, loc, cond, _ in ev:
            if cond is not None:
                self.ob("order", "%s unconditional" % kind, False, "%s only happens if %s" % (kind, cond[:300]), loc)
            if kind == "set itime" and "_drv" in str(loc[0]):
                continue
            h = getattr(self, "on_" + kind.replace(" ", "_"), None)
            if h is None:
                self.unknown.append(kind)
                continue
            h(data, loc)
        self.ob("order", "final stage", True, "", None)
        return self.out

    # ------------------------------------------------------------------ fields
    def half(self, who, dt, loc):
        self.ob("half", "%s half step" % who, dt is not None and equal(P(dt) * 2, self.dt), "%s update advances by %s, not by half a step" % (who, dt), loc)

    def on_E(self, dt, loc):
        self.half("E", dt, loc)
        if self.e == 0:
            self.ob("order", "first E half update", self.b == 0, "the first electric half update must come first", loc)
        else:
            self.ob("order", "second E half update", self.e == 1 and self.b == 2, "E update at half steps E=%d B=%d" % (self.e, self.b), loc)
        self.guards("B", "E update %d" % (self.e + 1), loc)
        self.ob("currents", "currents reduced before E update %d" % (self.e + 1), not self.jl and not self.jm and self.jflight is None,
                "E update %d uses currents that are not reduced (%s)" % (self.e + 1, "same-rank" if self.jl else "cross-rank exchange not completed"), loc)
        self.e += 1
        self.fresh[("E", "l")] = self.fresh[("E", "m")] = False
        self.touch("E", loc)

    def on_B(self, dt, loc):
        self.half("B", dt, loc)
        if self.b == 0:
            self.ob("order", "first B half update", self.e == 1, "the first magnetic half update must follow the first electric one", loc)
        else:
            self.ob("order", "second B half update", self.b == 1 and self.e == 1 and self.pxdone, "B update at half steps E=%d B=%d, particles exchanged %s" % (self.e, self.b, self.pxdone), loc)
        self.guards("E", "B update %d" % (self.b + 1), loc)
        self.b += 1
        self.fresh[("B", "l")] = self.fresh[("B", "m")] = False
        self.touch("B", loc)

    def touch(self, f, loc):
        self.ob("guards", "%s not changed while its exchange is in flight" % f, all(x != f for x, _ in self.flight.values()), "%s changes while its guard exchange is in flight" % f, loc)

    def which(self, nm, loc, who):
        fs = [f for f, s in (("E", E3), ("B", B3)) if nm is not None and s <= nm]
        part = [f for f, s in (("E", E3), ("B", B3)) if nm is not None and s & nm and not s <= nm]
        self.ob("guards", "%s covers whole vectors" % who, nm is not None and not part, "%s exchanges only %s" % (who, sorted(nm) if nm else nm), loc)
        return fs

    def on_sync_guard_fields_start(self, d, loc):
        for f in self.which(d[0], loc, "cross-rank guard exchange"):
            self.flight[(d[1], f)] = (f, loc)

    def on_sync_guard_fields_wait(self, h, loc):
        h = h.as_atom() if isinstance(h, Poly) else h
        ks = [k for k in self.flight if k[0] is h or k[0] == h]
        self.ob("guards", "wait matches start", bool(ks), "the wait does not complete the exchange that was started", loc)
        for k in ks:
            f, _ = self.flight.pop(k)
            self.fresh[(f, "m")] = True

    def on_sync_guard_fields(self, d, loc):
        for f in self.which(d[0], loc, "cross-rank guard exchange"):
            self.fresh[(f, "m")] = True

    def on_local_guard(self, nm, loc):
        for f in self.which(nm, loc, "same-rank guard exchange"):
            self.fresh[(f, "l")] = True

    # --------------------------------------------------------------- particles
    def s(self, i):
        return self.sp[i] if i is not None and 0 <= i < 4 else None

    def spec(self, i, what, loc):
        if isinstance(i, Poly):
            i = int(i.const()) if i.const() is not None else None
        ok = i in (0, 1, 2)
        self.ob("species", "%s of enabled species only" % what, ok, "%s for %s" % (what, "the disabled species" if i == 3 else "no definite species"), loc)
        return self.sp[i] if ok else None, i

    def work(self, loc, what):
        self.worked = True
        self.sorted = set()
        self.ob("order", "%s between the half field updates" % what, self.e == 1 and self.b == 1 and not self.px, "%s at field half steps E=%d B=%d" % (what, self.e, self.b), loc)

    def on_sort(self, i, loc):
        self.spec(i, "sort", loc)
        self.sorted.add(i)

    def on_debye(self, _, loc):
        self.debye = True

    def on_collide(self, dt, loc):
        self.ob("order", "collision", self.debye and self.sorted >= {0, 1, 2} and self.ncoll == 0 and not self.px and not self.worked and dt is not None and equal(P(dt), self.dt),
                "collisions need freshly sorted particles of every enabled species and the Debye length, once per step over dt (sorted %s, Debye %s)" % (sorted(self.sorted), self.debye), loc)
        self.ncoll += 1

    def on_pos(self, d, loc):
        self.work(loc, "position push")
        s, i = self.spec(d[0], "position push", loc)
        if s is None:
            return
        self.ob("half", "position half push", d[1] is not None and equal(P(d[1]) * 2, self.dt), "position push over %s" % (d[1],), loc)
        self.ob("species", "position push order", not s["uni"] and not s["dep"] and (s["pos"] == 0 and not s["mom"] or s["pos"] == 1 and s["mom"]),
                "position push %d of species %d before its momentum push or after its deposition" % (s["pos"] + 1, i), loc)
        s["pos"] += 1

    def on_interp(self, i, loc):
        self.work(loc, "field gather")
        s, i = self.spec(i, "field gather", loc)
        if s is None:
            return
        self.guards("E", "field gather", loc)
        self.guards("B", "field gather", loc)
        self.ob("species", "field gather order", s["pos"] == 1 and not s["mom"] and not s["uni"], "fields gathered at position half step %d of species %d" % (s["pos"], i), loc)
        s["interp"] = True

    def on_update_chi(self, d, loc):
        s, i = self.spec(d[0], "quantum parameter", loc)
        self.ob("species", "quantum parameter order", s["interp"] and not s["mom"], "the quantum parameter needs fields gathered this step, before the momentum push", loc)
        s["chi"] = True

    def on_event(self, d, loc):
        s, i = self.spec(d[0], "event", loc)
        self.ob("species", "event order", s["chi"] and not s["event"] and not s["mom"] and d[1] is not None and equal(P(d[1]), self.dt), "quantum event drawn with stale chi, twice, late, or over %s" % (d[1],), loc)
        s["event"] = True

    def on_mom(self, d, loc):
        self.work(loc, "momentum push")
        s, i = self.spec(d[0], "momentum push", loc)
        if s is None:
            return
        self.ob("species", "momentum push order", s["interp"] and s["pos"] == 1 and not s["mom"] and not s["uni"] and d[1] is not None and equal(P(d[1]), self.dt),
                "momentum push of species %d: position half steps %d, fields gathered %s, over %s" % (i, s["pos"], s["interp"], d[1]), loc)
        s["mom"] = True

    def on_unified(self, d, loc):
        self.work(loc, "fused push")
        s, i = self.spec(d[0], "fused push", loc)
        if s is None:
            return
        self.guards("E", "fused push", loc)
        self.guards("B", "fused push", loc)
        self.ob("species", "fused push", i == 0 and s["pos"] == 0 and not s["uni"] and d[1] is not None and equal(P(d[1]), self.dt),
                "fused push of species %d (only a charged species without quantum module may use it), over %s" % (i, d[1]), loc)
        self.ob("stages", "fused push gives way to callbacks between the stages", self.cfg.cbstage not in PUSHER_STAGES, "the fused push runs although callbacks are registered for %s" % self.cfg.cbstage, loc)
        s.update(pos=2, interp=True, mom=True, uni=True)
        self.dep(s, i, loc)

    def dep(self, s, i, loc):
        self.ob("currents", "reset before deposition", self.reset, "species %d deposits into currents that were not reset this step" % i, loc)
        self.ob("currents", "no deposition while currents are in flight", self.jflight is None, "species %d deposits while the current exchange is in flight" % i, loc)
        self.jl = self.jm = True
        s["dep"] = True

    def on_reset(self, _, loc):
        self.ob("currents", "one reset per step before all depositions", not self.reset and not any(s["dep"] for s in self.sp) and self.jflight is None and self.e == 1,
                "currents reset twice, after a deposition, before they were used or while in flight", loc)
        self.reset = True
        self.jl = self.jm = False

    def on_deposit(self, d, loc):
        self.work(loc, "deposition")
        s, i = self.spec(d[0], "deposition", loc)
        if s is None:
            return
        self.ob("species", "deposition order", s["pos"] == 2 and not s["dep"] and d[1] is not None and equal(P(d[1]), self.dt), "deposition of species %d: position half steps %d, deposited %s, over %s" % (i, s["pos"], s["dep"], d[1]), loc)
        self.dep(s, i, loc)

    def on_local_currents(self, _, loc):
        self.ob("currents", "same-rank reduction not during the exchange", self.jflight is None, "guard currents change while the exchange is in flight", loc)
        self.jl = False

    def on_sync_currents_start(self, h, loc):
        self.ob("currents", "one current exchange at a time", self.jflight is None, "a current exchange is started while another is in flight", loc)
        self.ob("currents", "exchange only when needed", self.jm or not self.reset or not any(s["dep"] for s in self.sp), "currents are exchanged a second time without a deposition in between", loc)
        self.jm = False
        self.jflight = None if h is NONE else h.as_atom()

    def on_sync_currents_wait(self, h, loc):
        h = h.as_atom() if isinstance(h, Poly) else h
        self.ob("currents", "wait matches start", self.jflight is not None and h is self.jflight, "the wait does not complete the current exchange that was started", loc)
        self.jflight = None

    def on_sync_currents(self, h, loc):
        self.on_sync_currents_start(NONE, loc)

    def moved(self):
        return all(s["pos"] == 2 and s["dep"] and s["mom"] for s in self.sp[:3])

    def on_create_particles(self, d, loc):
        s, i = self.spec(d[0], "creation", loc)
        self.ob("order", "creation", self.moved() and s["event"] and not s["made"] and not s["react"] and not self.px, "particles created before every species is pushed, without an event draw, twice or after the recoil", loc)
        s["made"] = True

    def on_reaction(self, d, loc):
        s, i = self.spec(d[0], "recoil", loc)
        self.ob("order", "recoil", s["made"] and not s["react"], "recoil before creation or twice", loc)
        s["react"] = True

    def on_sync_particles_start(self, d, loc):
        i = int(d[0].const()) if isinstance(d[0], Poly) and d[0].const() is not None else None
        self.ob("exchange", "one exchange per species", i is not None and i not in self.px and not self.pxdone, "particle exchange of species %s started twice or late" % i, loc)
        self.ob("order", "exchange after push and creation", self.moved() and all(s["made"] and s["react"] for s in self.sp[1:3]), "particles exchanged before every species is pushed and created", loc)
        self.px[i] = d[1]

    def on_sync_particles_wait(self, h, loc):
        ks = [k for k, v in self.px.items() if v is not None and (v is h or isinstance(h, Poly) and h.as_atom() is v or h == v)]
        self.ob("exchange", "wait matches start", len(ks) == 1, "the wait does not complete a particle exchange in flight", loc)
        for k in ks:
            self.px[k] = None

    def on_sync_particles(self, d, loc):
        i = int(d[0].const()) if isinstance(d[0], Poly) and d[0].const() is not None else None
        self.on_sync_particles_start(d, loc)
        self.px[i] = None

    def on_local_particles(self, _, loc):
        self.ob("exchange", "same-rank exchange after every cross-rank exchange", set(self.px) == {0, 1, 2, 3} and all(v is None for v in self.px.values()) and not self.pxdone,
                "the same-rank exchange discards particles that have left; all species must have completed their cross-rank exchange", loc)
        self.pxdone = True

    def on_balance(self, _, loc):
        self.ob("order", "balancing", self.pxdone and self.jflight is None and not self.jl and not self.jm and not self.flight, "patches migrate before particles are exchanged and currents reduced", loc)

    # ------------------------------------------------------------------ clock
    def on_set_ispec(self, v, loc):
        self.ispec = int(v.const()) if isinstance(v, Poly) and v.const() is not None else None

    def on_set_time(self, v, loc):
        self.clockset("time", v, self.dt, loc)

    def on_set_itime(self, v, loc):
        self.clockset("itime", v, P(1), loc)

    def now(self, v):
        # between steps the time is the step number times dt
        t = atom("attr", atom("sym", "sim"), "time")
        return subst(v, lambda a: P(sym("it0", isint=True)) * self.dt if a is t else None)

    def clockset(self, nm, v, inc, loc):
        start = P(atom("attr", atom("sym", "sim"), "time")) if nm == "time" else P(sym("it0", isint=True))
        self.ob("clock", nm, nm not in self.clock and self.e == 2 and self.b == 2 and isinstance(v, Poly) and equal(self.now(v), self.now(start + inc * (self.nstep + 1))),
                "%s must advance by one step once, at the end of the step; it becomes %s" % (nm, v), loc)
        self.clock.append(nm)
        if len(set(self.clock)) == 2:
            self.endstep(loc)

    def endstep(self, loc):
        self.ob("order", "complete field step", self.e == 2 and self.b == 2, "fields advanced by %d/2 and %d/2 steps" % (self.e, self.b), loc)
        for f in "EB":
            self.guards(f, "the next step", loc)
        self.ob("species", "every enabled species advanced", self.moved(), "a species was not pushed and deposited", loc)
        self.ob("species", "every quantum event realised", all(s["event"] and s["made"] and s["react"] for s in self.sp[1:3]), "events drawn without creating particles", loc)
        self.ob("currents", "currents complete at the end of the step", not self.jl and not self.jm and self.jflight is None, "currents not reduced at the end of the step", loc)
        self.ob("exchange", "particles exchanged", self.pxdone, "particles not exchanged", loc)
        self.ob("order", "nothing left in flight", not self.flight and self.jflight is None, "an exchange is still in flight at the end of the step", loc)
        self.ob("order", "collisions", self.ncoll == (1 if self.cfg.coll else 0), "collisions ran %d times" % self.ncoll, loc)
        self.stage_count(loc)
        self.nstep += 1
        self.begin()

    # ------------------------------------------------------------------ stages
    def on_stage(self, st, loc):
        if st == "init":
            self.ob("stages", "init", not self.inited and self.nstep == 0 and self.e == 0, "init stage does not run once before the first step", loc)
            self.inited = True
            return
        if st == "final":
            self.ob("stages", "final", not self.final and self.nstep == 2 and self.e == 0, "final stage does not run once after the last step", loc)
            self.final = True
            return
        i = self.ispec
        s = self.sp[i] if i is not None and 0 <= i < 3 else None
        fresh = all(self.fresh.values()) and not self.flight
        fld = (self.e, self.b)
        started = any(x["pos"] for x in self.sp)
        want = {
            "start": lambda: fld == (0, 0) and fresh,
            "maxwell_1": lambda: fld == (1, 1) and fresh and not started,
            "_push_position_1": lambda: s and s["pos"] == 1 and not s["interp"],
            "_interpolator": lambda: s and s["pos"] == 1 and s["interp"] and not s["event"] and not s["mom"],
            "_qed": lambda: s and s["interp"] and not s["mom"] and (i == 0 or s["event"]),
            "_push_momentum": lambda: s and s["mom"] and s["pos"] == 1,
            "_push_position_2": lambda: s and s["pos"] == 2 and not s["dep"],
            "current_deposition": lambda: s and s["dep"] and not any(x["made"] for x in self.sp) and not self.px,
            "qed_create_particles": lambda: fld == (1, 1) and self.pxdone and all(x["react"] for x in self.sp[1:3]) and not self.jl and not self.jm and self.jflight is None,
            "_laser": lambda: fld == (1, 2),
            "maxwell_2": lambda: fld == (2, 2) and fresh,
            "end": lambda: fld == (2, 2) and fresh,
        }.get(st)
        if want is None:
            self.unknown.append("stage %s" % st)
            return
        self.ob("stages", "stage %s" % st, bool(want()), "callbacks of stage %s run at the wrong point (fields at half steps %s, species %s: %s)" % (st, fld, i, s), loc)
        if st == "_laser":
            self.fresh[("B", "l")] = self.fresh[("B", "m")] = False
            self.touch("B", loc)
        self.stages.append((st, i if st in PUSHER_STAGES or st == "current_deposition" else None))

    def stage_count(self, loc):
        ks = [(self.cfg.cbstage, i) for i in ((0, 1, 2) if self.cfg.cbstage in PUSHER_STAGES or self.cfg.cbstage == "current_deposition" else (None,))] if self.cfg.cbstage and self.cfg.cbstage not in ("init", "final") else []
        for k in ks:
            self.ob("stages", "stage %s once per step" % k[0], self.stages.count(k) == 1, "callbacks of stage %s ran %d times in a step%s" % (k[0], self.stages.count(k), "" if k[1] is None else " for species %d" % k[1]), loc)
        for k in set(self.stages) - set(ks):
            self.ob("stages", "stage %s once per step" % k[0], self.stages.count(k) <= 1, "callbacks of stage %s ran %d times in a step%s" % (k[0], self.stages.count(k), "" if k[1] is None else " for species %d" % k[1]), loc)


def job(cfg):
    ev, fns, units = trace(cfg)
    a = Automaton(cfg)
    a.run(ev)
    if a.nstep != 2:
        a.ob("clock", "steps", False, "%d of 2 steps completed" % a.nstep, None)
    return a.out, fns, units, a.unknown, len(ev)


RULES = {
    "half": "each half field update and position push advances by half a step",
    "order": "first half fields, sort, collide, push, reduce, create, exchange, balance, second half fields in mirrored order",
    "guards": "no field is read beyond a patch before its guards were exchanged on the same rank and across ranks since its last change",
    "species": "per enabled species: half position, gather, events, momentum, half position, deposit, each once",
    "currents": "reset once before the first deposition; reduced (same-rank and across ranks, completed) after the last one and before any use",
    "exchange": "every species is exchanged across ranks, completed, then on the rank, once per step",
    "clock": "time and step number advance once, at the end of the step",
    "stages": "callbacks of a stage run once per step (and species) at the documented point; stages inside the push force separate stages",
}


def collect(c, rules):
    w = World()
    st = stage_list(w)
    cfgs = configs(st)
    for r in rules:
        c.rule(r, RULES[r])
    c.units.add("src/lambdapic/simulation/simulation.py")
    seen = {}
    for cfg, (ok, res) in zip(cfgs, pmap(job, cfgs)):
        if not ok:
            c.break_("configuration %s: %s" % (cfg.name, res))
            continue
        out, fns, units, unknown, nev = res
        c.functions.update(fns)
        if unknown and any(not o[2] for o in out if o[0] in rules):
            c.break_("configuration %s: calls the analysis does not know: %s" % (cfg.name, ", ".join(sorted(set(map(str, unknown)))[:6])))
            continue
        for rule, key, good, msg, loc in out:
            if rule in rules:
                k = (rule, "%s [%s]" % (key, cfg.name))
                if k not in seen or seen[k][0] and not good:
                    seen[k] = (good, msg, loc)
    bad = {}
    for (rule, key), (good, msg, loc) in seen.items():
        c.ob(rule, key, good, msg, loc)
    c.assume("the modules' own methods (field update, exchange, push, deposition) are decided by their own properties; here they are opaque")
    c.assume("callbacks may at most complete the current reduction (Simulation.sync_currents); their other effects are the user's")


def p09(c):
    collect(c, ["half", "order", "guards", "species", "currents", "exchange", "clock"])
    c.floor("guards", 200)
    c.floor("currents", 100)


# ------------------------------------------------------------------ P29: triggers and registration

TRIG = """
from lambdapic.callback.callback import _interval_triggered
def main(sim, interval):
    return _interval_triggered(sim, interval)
"""
WRAP = """
from lambdapic.callback.callback import callback
def main(sim, func, interval):
    w = callback(stage="start", interval=interval)(func)
    return w(sim)
"""
CALLB = """
from lambdapic.callback.callback import Callback
def main(sim, me: Callback):
    return Callback.__call__(me, sim)
"""
REG = """
from lambdapic.simulation.simulation import Simulation, SimulationCallbacks
def main(sim: Simulation, a, b, c, d, e, f):
    a.stage = "start"
    b.stage = "end"
    c.stage = "start"
    d.stage = None
    f.stage = "start"
    s = SimulationCallbacks([a, b, c, d, e, f], sim)
    s.run("{stage}")
"""


def kind_is(it, kind):
    """isinstance/callable of the symbol `interval` for one kind of interval"""
    def isinst(it_, av, kv, st, n):
        if not (isinstance(av[0], Poly) and av[0] == sym("interval")):
            return None
        ts = av[1].items if isinstance(av[1], Tup) else [av[1]]
        nm = [str(getattr(t, "name", t)).split(".")[-1].lower() for t in ts]
        return P(1 if kind in nm or (kind in ("int", "float") and ("real" in nm or "number" in nm)) or kind == "int" and "integral" in nm else 0)
    it.intrin["isinstance"] = isinst
    it.intrin["callable"] = lambda it_, av, *k: P(1 if kind == "callable" else 0) if isinstance(av[0], Poly) and av[0] == sym("interval") else None


def p29(c):
    collect(c, ["stages"])
    w = World()
    # (a) the trigger decision
    c.rule("trigger", "step interval: itime % n == 0; time interval: time % T < dt; predicate: its own answer")
    f = w.func("callback.callback", "_interval_triggered")
    simt, dt, iv, itime = (P(atom("attr", atom("sym", "sim"), "time")), P(atom("attr", atom("sym", "sim"), "dt")), sym("interval"), P(atom("attr", atom("sym", "sim"), "itime")))
    REF = {"int": "def main(sim, interval):\n    return sim.itime % interval == 0\n",
           "float": "def main(sim, interval):\n    return (sim.time % interval) < sim.dt\n",
           "callable": "def main(sim, interval):\n    return bool(interval(sim))\n"}
    for kind in ("int", "float", "callable"):
        out = []
        for src in (TRIG, REF[kind]):
            it = w.interp()
            it.isobj = lambda a: a.kind == "attr" or a.kind == "sym"
            kind_is(it, kind)
            it.intrin["getattr"] = lambda it_, av, kv, st, n: it_.getattr(av[0], av[1], st) if isinstance(av[1], str) else None
            it.intrin["interval"] = lambda it_, av, *k: P(atom("fn", "predicate", *[P(x) for x in av]))
            eff, ret, st = it.run_func(w.driver(src), defaults=True)
            out.append(it.truth(ret) if ret is not None else None)
            w.note(c, it)
        got, ref = out
        bad = got is None or not b_equiv(got, ref)
        c.ob("trigger", "%s interval" % kind, not bad, "for a %s interval the trigger is %s" % (kind, show_b(got) if got is not None else None), (f.file, f.line))
    # (b) callbacks run once when and only when triggered
    c.rule("call", "a callback's body runs exactly once if its trigger fires and not at all otherwise, on rank 0 and on the others")
    for nm, src, body in (("callback decorator", WRAP, "func"), ("Callback.__call__", CALLB, "_call")):
        it = w.interp()
        it.isobj = lambda a: a.kind == "attr" and a.args[1] != "rank" or a.kind == "sym"
        calls = []
        trig = var_b(atom("fnb", "triggered"))
        pcs = []

        def trigh(it_, av, kv, st, n, calls=calls):
            calls.append(list(av))
            return P(atom("boolv", trig)) if False else trig
        it.intrin["_interval_triggered"] = trigh
        it.intrin["_validate_interval"] = lambda it_, *k: NONE

        def bodyh(it_, av, kv, st, n, pcs=pcs):
            pcs.append((st.pc, list(av), n.loc if n else None))
            return P(atom("bodyres"))
        it.intrin[body] = it.intrin["." + body] = it.intrin["Callback." + body] = bodyh
        eff, ret, st = it.run_func(w.driver(src), defaults=True)
        w.note(c, it)
        for e, loops, pc in flat(eff):
            if e.kind == "call" and (e.name == body or e.name == "?" and e.recv is not None and recv_name(e.recv)[0] == body):
                pcs.append((pc, list(e.args), e.loc))
        allpc = FALSE
        disj = True
        for pc, av, loc in pcs:
            if (allpc & pc) is not FALSE:
                disj = False
            allpc = allpc | pc
        c.ob("call", nm + " runs when triggered", bool(pcs) and allpc is trig, "the body runs if %s; it must run exactly when the trigger fires" % show_b(allpc), pcs[0][2] if pcs else None)
        c.ob("call", nm + " runs once", disj, "the body can run twice for one trigger", pcs[0][2] if pcs else None)
        c.ob("call", nm + " receives the simulation", all(any(isinstance(x, Poly) and x == sym("sim") for x in av) for _, av, _ in pcs), "the body is not given the simulation", None)
        c.ob("call", nm + " asks its own trigger", len(calls) >= 1 and all(any(isinstance(x, Poly) and x == sym("sim") for x in av) and any(isinstance(x, Poly) and (x == iv or x == P(atom("attr", atom("sym", "me"), "interval"))) for x in av) for av in calls),
             "the trigger is not evaluated for this simulation and interval", None)
    # (c) registration
    c.rule("registration", "every registered callback is run exactly once for its stage, in registration order, and never for another stage")
    cls = w.cls("simulation.simulation", "SimulationCallbacks")
    want = {"start": "acf", "end": "bde", "maxwell_1": ""}
    for stage, seq in want.items():
        it = w.interp()
        it.isobj = lambda a: a.kind in ("sym", "attr")
        it.inline_pred = lambda fn: "/simulation/" in str(fn.file) or getattr(fn.module, "synthetic", False)
        order = []

        def has(it_, av, kv, st, n):
            r = recv_name(av[0])[0]
            return P(0 if r == "e" and av[1] == "stage" else 1)

        given = []

        def wrap(it_, av, kv, st, n):
            given.append(dict(kv).get("stage", av[0] if av else None))
            return ExtV("wrapplain")

        def wrapplain(it_, av, kv, st, n):
            a = atom("sym", "w" + str(av[0]))
            m = MemObj()
            m.vals["stage"] = given[-1]
            st.mem[a] = m
            return P(a)
        it.intrin["wrapplain"] = wrapplain
        it.intrin["hasattr"] = has
        it.intrin["getattr"] = lambda it_, av, kv, st, n: (av[2] if len(av) > 2 and recv_name(av[0])[0] == "e" and av[1] == "stage" else it_.getattr(av[0], av[1], st)) if isinstance(av[1], str) else None
        it.intrin["callback"] = wrap
        eff, ret, st = it.run_func(w.driver(REG.format(stage=stage)), defaults=True)
        w.note(c, it)
        seen = []
        cond = []
        for e, loops, pc in flat(eff):
            if e.kind == "call" and e.name in ("?", "__call__"):
                nm = recv_name(e.recv)[0]
                nm = "e" if nm == "we" else nm
                seen.append(nm or "?")
                if pc is not TRUE or loops:
                    cond.append((nm, show_b(pc)))
                if not any(isinstance(x, Poly) and x == sym("sim") for x in e.args):
                    cond.append((nm, "without the simulation"))
        c.ob("registration", "stage %s" % stage, "".join(seen) == seq and not cond, "callbacks registered as start,end,start,default,plain,start run for stage %s in the order %s (expected %s) %s" % (stage, "".join(seen), seq, cond[:2]),
             (cls.module.path if hasattr(cls.module, "path") else "simulation.py", 0))
    # (d) callback classes
    c.rule("class", "every callback class keeps the interval it is given, names a stage that exists and leaves triggering to its base class")
    stages = stage_list(w)
    base = w.cls("callback.callback", "Callback")
    n = 0
    for mn, m in sorted(w.pkg.mods.items()):
        if not mn.startswith("lambdapic.callback."):
            continue
        for k in m.classes.values():
            mro = w.pkg.mro(k)
            if base not in mro or k is base:
                continue
            n += 1
            c.ob("class", "%s triggering" % k.name, w.pkg.method(k, "__call__") is w.pkg.method(base, "__call__"), "%s replaces the triggering of its base class" % k.name, (m.path, k.node.lineno) if hasattr(m, "path") else None)
            init = w.pkg.method(k, "__init__")
            if init is None or not any(p[0] == "interval" for p in init.params):
                continue
            it = w.interp()
            it.maxdepth = 4
            it.inline_pred = lambda fn, init=init: fn is init or fn.cls is not None and "/callback/" in str(fn.file)
            it.isobj = lambda a: a == atom("sym", "interval")
            me = w.self_of(it, k)
            ivs, sts = None, None
            try:
                eff, ret, st = it.run_func(init, self_val=me)
            except Exception as ex:
                c.break_("%s.__init__: %s" % (k.name, ex))
                continue
            mo = st.mem.get(me.as_atom()) if st is not None else None
            ivs = mo.vals.get("interval") if mo else None
            sts = mo.vals.get("stage") if mo else None
            w.note(c, it)
            c.ob("class", "%s interval" % k.name, isinstance(ivs, Poly) and ivs == sym("interval"), "%s keeps the interval %s instead of the one it was given" % (k.name, ivs), (init.file, init.line))
            c.ob("class", "%s stage" % k.name, not isinstance(sts, str) or sts in stages, "%s names the unknown stage %s" % (k.name, sts), (init.file, init.line))
    c.floor("class", 12)
    c.floor("stages", 200)
