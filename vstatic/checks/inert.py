"""P18 dead slots are inert: one view over every consumer of particle slots.

Compiled kernels: the condition under which a slot is processed implies that it is alive, and no other slot is read.
Emission, pairs, events, collisions, exchange and saved particles: small arrays with every combination of dead flags."""
from . import kernels, qed, collide, topology
from .qed import *
from ..interp import Tup


def emit(dim, pats):
    obs, an = qed.emission_job(dim, pats)
    return dead_only(obs), an


def pair(dim, pats):
    obs, an = qed.pair_job(dim, pats)
    return dead_only(obs), an


def dead_only(obs):
    return [o for o in obs if o[0] == "dead"]


def event(kind, sg):
    obs, an = qed.event_job(kind, sg)
    return dead_only(obs), an


def partners(kind, sizes):
    obs, an = collide.pairing_job(kind, sizes)
    return [("dead", "collision partners " + o[1][:-6], o[2], o[3], o[4]) for o in obs if o[0] == "pairing" and o[1].endswith(" pairs")], an


def screening(dead):
    obs, an = collide.cell_job(dead)
    return [("dead", o[1], o[2], o[3], o[4]) for o in obs], an


def sent(shape, periodic):
    from . import exchange
    obs, an = exchange.local_job(shape, periodic, "mixed")
    return [("dead", "exchange of particles", o[2], o[3], o[4]) for o in obs if o[1].endswith(" dead")], an


def saved_job(dim, rank, pats, others):
    """what SaveParticlesToHDF5 writes for patches with the given dead flags; others: live counts of the ranks before"""
    w = world()
    it = setup(w, dim)
    loc = ("src/lambdapic/callback/hdf5.py", 0)
    own = [sum(1 - d for d in p) for p in pats]

    def gathered(it_, av, kv, st, n):
        return Tup([Tup([P(x) for x in o]) for o in others[:rank]] + [av[-1]] + [Tup([P(x) for x in o]) for o in others[rank:]])
    it.intrin[".allgather"] = gathered
    it.intrin[".Get_rank"] = it.intrin[".Get_size"] = lambda *a: P(rank)
    it.intrin[".Get_size"] = lambda *a: P(len(others) + 1)
    it.intrin["sum"] = lambda it_, av, kv, st, n: total(it_, st, av)
    attrs = ["w", "xyz"[dim - 1], "uy"]
    np_ = len(pats)
    names = ["cb: SaveParticlesToHDF5", "s0: Electron"] + ["p%d: Patch%dD" % (k, dim) for k in range(np_)] + ["e%d: QEDParticles" % k for k in range(np_)] + ["sim"]
    src = HEAD + "from .callback.hdf5 import SaveParticlesToHDF5\ndef main(%s):\n" % ", ".join(names)
    for k, p in enumerate(pats):
        src += slots("e%d" % k, len(p), p) + "    p%d.particles = [e%d]\n" % (k, k)
    src += "    s0.ispec = 0\n    cb.species = s0\n    cb.attrs = %r\n    sim.patches = [%s]\n    cb._call(sim)\n    return 0\n" % (attrs, ", ".join("p%d" % k for k in range(np_)))
    eff, ret, st = it.run_func(w.driver(src))
    if ret is None:
        raise Broken("saving particles cannot be followed")
    files = {}
    seen = False
    m = None
    size = {}
    for e, loops_, pc_ in flat(eff):
        fn_ = getattr(e, "name", None)
        if fn_ and str(fn_).endswith("create_dataset") and getattr(e, "args", None):
            seen = True
        if e.kind != "store":
            continue
        b = e.base
        if "h5py.File" not in str(b):
            continue
        seen = True
        hit = [a for a in attrs + ["id"] if str(b).endswith("[%s]" % a)]
        if not hit:
            continue
        k = e.key[0] if isinstance(e.key, tuple) else e.key
        lo, hi = slice_of(k)
        xs = smallnp.items(it, st, e.val)
        if xs is None or lo is None or hi is None:
            raise Broken("what is saved is not followed: %s" % str(e)[:160])
        if hi - lo != len(xs):
            m = m or "%d values stored into [%d:%d] of %s" % (len(xs), lo, hi, hit[0])
        for i, x in enumerate(xs):
            files.setdefault(hit[0], {}).setdefault(lo + i, []).append(x)
    if not seen:
        raise Broken("no file is written by SaveParticlesToHDF5")
    first = sum(sum(o) for o in others[:rank])
    case = "%dd rank %d of live counts %s, patches with dead flags %s: " % (dim, rank, list(others), list(pats))
    live = [(k, i) for k, p in enumerate(pats) for i, d in enumerate(p) if not d]
    order = None
    for a in attrs + ["id"]:
        got = files.get(a, {})
        src_a = "_id" if a == "id" else a
        if not live and not got:
            continue
        if sorted(got) != list(range(first, first + len(live))):
            m = m or "%s entries %s are written for %d living particles starting at %d" % (a, sorted(got), len(live), first)
            continue
        mine = []
        for i in sorted(got):
            v = got[i][-1]
            w_ = [q for q in live if base_sym(v) == "e%d_%s_%d" % (q[0], src_a, q[1])]
            mine.append(w_[0] if w_ else None)
        if None in mine or len(set(mine)) != len(mine):
            m = m or "%s holds %s" % (a, [str(got[i][-1])[:40] for i in sorted(got)])
        elif order is None:
            order = mine
        elif mine != order:
            m = m or "%s is written in another order than the other attributes" % a
    return [("saved", "%dd saved particles" % dim, m is None, case + (m or ""), loc)], it.analysed


def total(it, st, av):
    xs = smallnp.items(it, st, av[0]) if not isinstance(av[0], Tup) else list(av[0].items)
    if xs is None:
        raise Broken("the total of %s is not decided" % (av[0],))
    t = av[1] if len(av) > 1 else ZERO
    for x in xs:
        t = t + (P(int(x is TRUE)) if x is TRUE or x is FALSE else x)
    return t


def base_sym(v):
    """name of the one symbol in v (views of the identifier bits keep it)"""
    if isinstance(v, Poly):
        s = {str(x.args[0]) for x in v.atoms() if x.kind == "sym"}
        return s.pop() if len(s) == 1 else None
    return str(v)


def slice_of(k):
    try:
        return (0 if k.a is NONE else int(k.a.const())), int(k.b.const())
    except (AttributeError, TypeError):
        return None, None


def p18(c):
    c.rule("saved", "saved particle files hold every living particle once, in the same place of every data set, behind those of the ranks before, and no dead slot")
    kernels.run_jobs(c, kernels.every(c.tier, "boris", "pushpos", "photon") + kernels.some(3 if c.tier == "quick" else 12, "interp", "deposit", "fused"), ["dead", "write", "slot"])
    cap = 40 if c.tier == "quick" else 10000
    em = qed.emission_cases("quick")
    pr = qed.pair_cases("quick")
    jobs = [("emit", d, p) for d in (2, 3) for p in em[::max(1, len(em) // cap)]]
    jobs += [("pair", d, p) for d in (2, 3) for p in pr[::max(1, len(pr) // cap)]]
    jobs += [("event", k, s) for k in ("photon", "pair") for s in (False, True)]
    jobs += [("partners", "intra", (n,)) for n in (2, 3)] + [("partners", "inter", s) for s in ((2, 2), (1, 3), (3, 1))]
    jobs += [("screening", d) for d in itertools.product((0, 1), repeat=3)]
    pats = list(itertools.product((0, 1), repeat=3))
    for d in (2, 3):
        for i, p in enumerate(pats):
            for q in pats if c.tier == "thorough" else (pats[(i + 3) % 8], pats[(5 * i + 1) % 8]):
                jobs.append(("saved_job", d, i % 3, (p, q[:2]), ((2, 1), (0, 3))))
    jobs += [("sent", s, p) for s, p in (((3, 3), (1, 1)), ((2, 2), (1, 0)), ((2, 2, 2), (1, 1, 0)), ((3, 1, 1), (1, 1, 1)))]
    topology.run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/qed/cpu.py", "src/lambdapic/core/collision/utils.py", "src/lambdapic/callback/hdf5.py"}
    c.floor("dead", 40)
    c.floor("saved", 2)
