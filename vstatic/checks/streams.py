"""P33 random streams.

Every generator is a symbol that records where it comes from (the seed, the operating system, or the n-th child of
another). The set-up, the distribution over ranks and patches, and every consumer are followed with these symbols; a
second pass lists every other source of randomness in the package."""
import ast
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs, fresh
from .collide import prep as cprep
from . import config

HEAD = '''
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.species import Species, Electron
from .core.particles import ParticlesBase
from .core.collision.collision import Collision
from .core.mpi.mpi_manager import MPIManager
from .simulation.simulation import Simulation, Simulation3D
from .callback.utils import MovingWindow, SetTemperature
'''


def org(v):
    """provenance of a generator value"""
    a = v.as_atom() if isinstance(v, Poly) else None
    return a if a is not None and a.kind == "rng" else None


class Gens:
    def __init__(self, it):
        self.it = it
        self.kids = {}
        self.n = 0
        self.bad = None
        for nm in ("default_rng", "np.random.default_rng", ".default_rng", "numpy.random.default_rng"):
            it.intrin[nm] = self.new
        for nm in ("SeedSequence", ".SeedSequence", "np.random.SeedSequence"):
            it.intrin[nm] = lambda it_, av, kv, st, n: self.new(it_, av, kv, st, n, "seq")
        it.intrin[".spawn"] = self.spawn

    def new(self, it, av, kv, st, n, kind="gen"):
        kw = dict(kv)
        av = [x for x in av if not (isinstance(x, Poly) and x.as_atom() is not None and "random" in str(x) and x.as_atom().kind != "rng" and "seed" not in str(x))]
        x = av[0] if av else kw.get("seed", kw.get("entropy", NONE))
        if x is NONE:
            self.n += 1
            return P(atom("rng", "entropy", self.n))
        if org(x) is not None:
            return x
        return P(atom("rng", "seed", str(x)))

    def spawn(self, it, av, kv, st, n):
        g = org(av[0])
        k = (av[1] if len(av) > 1 else dict(kv).get("n_children"))
        k = k.const() if isinstance(k, Poly) else None
        if k is None:
            raise Broken("generators are spawned in an undecided number")
        if g is None:
            raise Broken("spawn of something that is not a known generator: %s" % str(av[0])[:80])
        i = self.kids.get(g, 0)
        self.kids[g] = i + int(k)
        return Tup([P(atom("rng", "child", g, i + j)) for j in range(int(k))], "list")


def root(a):
    while a.args[0] == "child":
        a = a.args[1]
    return a


def quiet(it):
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE


def ranks_job(seed, size, cls):
    """the stream of every rank after the set-up"""
    w = world()
    it = fresh(w)
    it.small = True
    it.exact = {atom("sym", "s%d" % r) for r in range(size)}
    G = Gens(it)
    quiet(it)
    box = {}

    def scatter(it_, av, kv, st, n):
        x = dict(kv).get("sendobj", av[1] if len(av) > 1 else None)
        r = int(str(av[0])[1:])
        if isinstance(x, Tup):
            box["list"] = x.items
        if "list" not in box:
            raise Broken("the streams are scattered before the root made them")
        if r >= len(box["list"]):
            box["short"] = "%d streams are scattered over %d ranks" % (len(box["list"]), size)
            return NONE
        return box["list"][r]

    def bcast(it_, av, kv, st, n):
        x = dict(kv).get("obj", av[1] if len(av) > 1 else None)
        if str(av[0]) == "c0":
            box["b"] = x
        return box["b"]
    it.intrin[".scatter"] = scatter
    it.intrin[".bcast"] = bcast
    src = HEAD + "def main(%s):\n" % ", ".join("s%d: %s, m%d: MPIManager, c%d" % (r, cls, r, r) for r in range(size))
    for r in range(size):
        src += "    m%d.rank = %d\n    m%d.size = %d\n    m%d.comm = c%d\n    s%d.mpi = m%d\n    s%d.random_seed = %s\n    s%d.rand_gen = None\n    s%d._init_random_generator()\n" % (r, r, r, size, r, r, r, r, r, seed, r, r)
    src += "    return [%s]\n" % ", ".join("s%d.rand_gen" % r for r in range(size))
    eff, ret, st = it.run_func(w.driver(src))
    m = box.get("short")
    gs = [org(v) for v in ret.items]
    if any(g is None for g in gs) and not m:
        m = "a rank has no generator after the set-up (%s)" % [str(v)[:50] for v in ret.items]
    if not m and len(set(gs)) < len(gs):
        m = "two ranks draw from the same stream"
    for r, g in enumerate(gs):
        if g is None or m:
            continue
        if seed == "None":
            if root(g).args[0] != "entropy":
                m = "without a seed the stream of rank %d comes from %s" % (r, root(g))
        elif root(g).args[0] != "seed":
            m = "with the seed %s the stream of rank %d does not come from it" % (seed, r)
        elif seed not in str(root(g).args[1]):
            m = "the stream of rank %d comes from %s instead of the seed" % (r, root(g).args[1])
    return [("ranks", "%s, seed %s" % (cls, "none" if seed == "None" else "given"), m is None, "%d ranks, seed %s: %s" % (size, seed, m or ""), ("src/lambdapic/simulation/simulation.py", 0))], it.analysed


def seed_job(dim, seed):
    """the seed given to the constructor is the one the set-up reads"""
    pc, ret, fns, loc = config.accept(dim, (True, False), seed)
    if ret is None:
        raise Broken("the constructor cannot be followed")
    v = ret.items[-1]
    got = "None" if v is NONE else str(v)
    return [("seed", "%dd" % dim, got == seed, "the seed %s becomes %s in the simulation" % (seed, got), loc)], fns


def patches_of(G, gens, parent, n, what):
    gs = [org(g) for g in gens]
    if len(gs) < n:
        return "%s gets %d streams for %d patches" % (what, len(gs), n)
    if any(g is None for g in gs):
        return "a stream of %s is not a generator" % what
    if len(set(gs)) < len(gs):
        return "two patches share a stream in %s" % what
    for g in gs:
        p = g
        while p.args[0] == "child" and p != parent:
            p = p.args[1]
        if p != parent:
            return "a stream of %s is not derived from that of the rank" % what
        if g == parent:
            return "%s draws from the rank's stream itself" % what
    return None


def use_job(dim, what, np_):
    w = world()
    it = cprep(w, dim)
    it.exact = {atom("sym", "sim"), atom("sym", "s0")}
    G = Gens(it)
    quiet(it)
    SIM = "Simulation" if dim == 2 else "Simulation3D"
    parent = atom("rng", "child", atom("rng", "seed", "seed"), 1)
    it.intrin["RG"] = lambda it_, av, kv, st, n: P(parent)
    got = []
    for nm in ("Species.compile_jit", ".compile_jit", "Patches.update_lists", "Simulation.update_lists", ".update_lists"):
        it.intrin[nm] = lambda it_, av, kv, st, n: NONE
    it.intrin["fill_particles_%dd" % dim] = lambda it_, av, kv, st, n: (got.append((dict(kv).get("rand_gens", av[-1] if len(av) > 7 else None))), NONE)[1]
    it.intrin["get_num_macro_particles_%dd" % dim] = lambda it_, av, kv, st, n: smallnp.new(it_, st, [P(2)] * np_)
    src = HEAD + "def main(sim: %s, s0: Electron, s1: Electron, win: MovingWindow, col: Collision, tem: SetTemperature):\n    sim.rand_gen = RG()\n    ps = Patches(%d)\n" % (SIM, dim)
    ax = "xyz"[:dim]
    for k in range(np_):
        src += "    p%d = Patch%dD(0, %d, %s, %s, %s, %s)\n    ps.append(p%d)\n" % (k, dim, k, ", ".join([str(k)] + ["0"] * (dim - 1)), ", ".join([str(4 * k)] + ["0"] * (dim - 1)), ", ".join(["4"] * dim), ", ".join(["1"] * dim), k)
        src += "    for i in range(2):\n        q = ParticlesBase(%d, 0)\n        q.initialize(2)\n        p%d.add_particles(q)\n" % (k, k)
    for s in (0, 1):
        src += "    s%d.density = SYM('dens')\n    s%d.density_jit = SYM('dens')\n    s%d.ppc_jit = SYM('ppc')\n    s%d.density_min = 0\n    s%d._ispec = %d\n    s%d.q = SYM('q')\n    s%d.m = SYM('m')\n" % ((s,) * 5 + (s,) + (s,) * 2)
    src += "    ps.species = [s0, s1]\n    sim.species = [s0, s1]\n    sim.patches = ps\n    sim.dimension = %d\n    sim.time = 1\n" % dim
    it.intrin["SYM"] = lambda it_, av, kv, st, n: sym(av[0])
    msgs = []
    nrun = 2 if np_ > 1 else 1
    if what == "fill":
        src += "    ps.fill_particles(sim.rand_gen)\n"
        loc = ("src/lambdapic/core/patch/patch.py", 0)
    elif what == "window":
        src += "    win.inject_particles = True\n    win.stop_inject_time = None\n    win._fill_particles(sim, [%s])\n    win._fill_particles(sim, [%s])\n" % ((", ".join("p%d" % k for k in range(np_)),) * 2)
        loc = ("src/lambdapic/callback/utils.py", 0)
    elif what == "collisions":
        it.intrin["OUT"] = lambda it_, av, kv, st, n: (got.append(av[0]), NONE)[1]
        it.intrin["_check_shared_bucket_ordering"] = it.intrin["._check_shared_bucket_ordering"] = it.intrin["Collision._check_shared_bucket_ordering"] = lambda it_, av, kv, st, n: NONE
        it.intrin["Collision.generate_particle_lists"] = lambda it_, av, kv, st, n: NONE
        src += "    sim._collision_groups = [[s0, s1]]\n    sim.collision = None\n    sim.sorter = []\n    sim._init_collision()\n    OUT(sim.collision.gen_list)\n    sim.collision.generate_field_lists()\n    OUT(sim.collision.gen_list)\n"
        loc = ("src/lambdapic/core/collision/collision.py", 0)
    else:
        def sample(it_, av, kv, st, n):
            kw = dict(kv)
            vs = [v for v in list(av) + list(kw.values()) if org(v) is not None]
            got.append(vs[-1] if vs else NONE)
            nn = kw.get("size", [v for v in av if isinstance(v, Poly) and v.const() is not None][0] if any(isinstance(v, Poly) and v.const() is not None for v in av) else P(2))
            xs = lambda c: smallnp.new(it_, st, [sym("%s%d_%d" % (c, len(got), i)) for i in range(int(nn.const()))])
            return Tup([xs("a"), xs("b"), xs("c")])
        for nm in ("sample_maxwell_juttner", ".sample_maxwell_juttner", "SetTemperature.sample_maxwell_juttner"):
            it.intrin[nm] = sample
        src += "    tem.species = s0\n    tem.temperature = [1, 2, 3]\n    tem.add = False\n    tem._call(sim)\n    tem._call(sim)\n"
        loc = ("src/lambdapic/callback/utils.py", 0)
    src += "    return 0\n"
    eff, ret, st = it.run_func(w.driver(src))
    key = "%dd %s" % (dim, what)
    if not got:
        raise Broken("no generator reaches %s" % what)
    m = None
    if what == "temperature":
        gs = [org(g) if g is not NONE else None for g in got]
        if len(gs) != 2 * np_:
            raise Broken("the temperature is sampled %d times for %d patches" % (len(gs), np_))
        for g in gs:
            if g is None:
                m = m or "the temperature is sampled from a stream that is not the rank's"
            elif patches_of(G, [P(g)], parent, 1, what) and g != parent:
                m = m or patches_of(G, [P(g)], parent, 1, what)
    else:
        for g in got:
            xs = g.items if isinstance(g, Tup) else None
            if xs is None:
                raise Broken("the generators of %s are not followed: %s" % (what, str(g)[:80]))
            m = m or patches_of(G, xs, parent, np_, what)
        if what in ("window", "collisions") and not m:
            sets = [frozenset(org(x) for x in g.items) for g in got]
            if what == "window" and len(set.union(*[set(x) for x in sets])) < sum(map(len, sets)):
                m = "the moving window fills new patches from the streams of an earlier fill"
    return [("patches", key, m is None, "%d patches: %s" % (np_, m or ""), loc)], it.analysed


GLOBALS = {"rand", "randn", "randint", "random", "random_sample", "uniform", "normal", "seed", "shuffle", "permutation", "choice", "poisson", "exponential", "standard_normal", "RandomState", "get_state", "set_state", "bytes", "ranf", "sample"}
MAKERS = {"default_rng", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "Generator"}
CLOCK = {"time", "perf_counter", "monotonic", "getpid", "urandom", "id", "hash", "time_ns", "now", "uuid4", "token_bytes", "gethostname"}


def source_job(rel):
    """every source of random numbers of one file"""
    w = world()
    path = os.path.join(w.root, rel) if not os.path.isabs(rel) else rel
    tree = ast.parse(open(path).read())
    alias = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                alias[a.asname or a.name] = n.module + "." + a.name
    found = {}
    ok = []

    def full(f):
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if isinstance(f, ast.Name) and f.id in alias:
            return alias[f.id] + "".join("." + p for p in reversed(parts))
        return None
    for fn in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Module))]:
        name = getattr(fn, "name", "module")
        own = []
        stack = list(ast.iter_child_nodes(fn))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            own.append(n)
            stack += list(ast.iter_child_nodes(n))
        for n in own:
            if not isinstance(n, ast.Call):
                continue
            x = full(n.func)
            last = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if x and (x.startswith("numpy.random.") and x.rsplit(".", 1)[1] in GLOBALS or x.startswith("random.") or x == "secrets.token_bytes"):
                found.setdefault(name, []).append(("%s draws from the process-wide stream (%s)" % (name, x), n.lineno))
            elif last == "rvs" and not any(k.arg == "random_state" and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in n.keywords):
                found.setdefault(name, []).append(("%s draws from scipy's process-wide stream" % name, n.lineno))
            elif last in MAKERS and (x is None or x.startswith("numpy.random")):
                bits = [getattr(m.func, "attr", getattr(m.func, "id", "")) for a in list(n.args) + [k.value for k in n.keywords] for m in ast.walk(a) if isinstance(m, ast.Call)]
                if any(b in CLOCK for b in bits):
                    found.setdefault(name, []).append(("%s makes a stream from the clock or the process" % name, n.lineno))
                else:
                    ok.append(name)
    obs = [("source", os.path.basename(rel) + " " + k, False, v[0][0], (rel, v[0][1])) for k, v in found.items()]
    obs.append(("source", os.path.basename(rel), True, "", (rel, 0)))
    return obs, {rel}


def p33(c):
    c.rule("ranks", "given a seed every rank has a stream of its own that comes from that seed; without one, streams of its own from the operating system")
    c.rule("seed", "the seed given to the constructor, zero included, is the one the set-up reads")
    c.rule("patches", "particles are placed, temperatures set and collisions paired with streams that come from that of the rank; no two patches share one")
    c.rule("source", "no function outside the set-up draws from a process-wide stream or makes one from the clock (radiation and pair production excepted)")
    thorough = c.tier == "thorough"
    w = world()
    jobs = []
    for cls in ("Simulation", "Simulation3D"):
        for seed in ("None", "0", "7"):
            for size in (1, 2, 4) if thorough else (1, 3):
                jobs.append(("ranks_job", seed, size, cls))
    for d in (2, 3):
        for seed in ("None", "0", "7"):
            jobs.append(("seed_job", d, seed))
        for what in ("fill", "window", "collisions", "temperature"):
            for n in (1, 2, 5) if thorough else (1, 3):
                jobs.append(("use_job", d, what, n))
    base = os.path.join(w.root, "src", "lambdapic") if hasattr(w, "root") else None
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), w.root)
            if f.endswith(".py") and "/qed" not in d and "/cli" not in d:
                jobs.append(("source_job", p))
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/simulation/simulation.py", "src/lambdapic/core/collision/collision.py", "src/lambdapic/callback/utils.py", "src/lambdapic/core/patch/patch.py"}
    c.floor("ranks", 4)
    c.floor("seed", 2)
    c.floor("patches", 8)
    c.floor("source", 30)
