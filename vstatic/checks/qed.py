"""P25 photon emission, P26 pair creation, P27 quantum events.

The modules are built over two patches whose particle arrays have a few slots; dead flags and event flags take every
combination, all other slot contents are symbols. The final contents of every slot are compared, as formulas, with the
specification: the dead slots that became alive hold exactly the products of the events, nothing else changed."""
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs, fresh
import itertools
import math

BASE = ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "_id"]
QED = ["tau", "chi", "delta"]

HEAD = '''
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.particles import QEDParticles
from .core.species import Electron, Positron, Photon
from .core.qed.radiation import NonlinearComptonLCFA
from .core.qed.pair_production import NonlinearPairProductionLCFA
'''


def S(name):
    return P(sym(name))


def setup(w, dim):
    it = fresh(w)
    it.small = True
    it.maxdepth = 60
    it.intrin["SYM"] = lambda it_, av, kv, st, n: S(av[0])
    it.intrin["ARR"] = lambda it_, av, kv, st, n: smallnp.new(it_, st, av)
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE

    def extend(it_, av, kv, st, n):
        """grown arrays: old slots kept, n new dead slots without contents"""
        base = it_.base_of(av[0])[0]
        k = av[1].const() if isinstance(av[1], Poly) else None
        if k is None:
            raise Broken("the number of slots to add is not decided: %s" % (av[1],))
        k = int(k)
        m = st.mem.get(base).copy()
        if k > 0:
            for nm, v in list(m.vals.items()):
                xs = smallnp.items(it_, st, v)
                if nm in BASE + QED:
                    m.vals[nm] = smallnp.new(it_, st, xs + [S("%s_%s_%d" % (base, nm, len(xs) + i)) for i in range(k)])
                elif nm in ("is_dead", "event"):
                    m.vals[nm] = smallnp.new(it_, st, xs + [TRUE if nm == "is_dead" else FALSE] * k)
            m.vals["npart"] = m.vals["npart"] + k
            m.vals["extended"] = TRUE
            st.mem[base] = m
        return NONE
    it.intrin["ParticlesBase.extend"] = it.intrin["QEDParticles.extend"] = extend
    return it


def slots(o, n, dead, event=None):
    src = ""
    for a in BASE + QED:
        src += "    %s.%s = ARR(%s)\n" % (o, a, ", ".join('SYM("%s_%s_%d")' % (o, a, i) for i in range(n)))
    src += "    %s.is_dead = ARR(%s)\n" % (o, ", ".join(str(bool(d)) for d in dead))
    src += "    %s.event = ARR(%s)\n" % (o, ", ".join(str(bool(e)) for e in (event or [0] * n)))
    src += "    %s.npart = %d\n    %s.extended = False\n" % (o, n, o)
    return src


def read(it, st, o):
    m = st.mem[atom("sym", o)]
    out = {}
    for a in BASE + QED + ["is_dead", "event"]:
        v = smallnp.items(it, st, m.vals[a])
        if v is None:
            raise Broken("%s of %s is not an array of slots any more: %s" % (a, o, str(m.vals[a])[:100]))
        out[a] = v
    return out


def old(o, a, i):
    return S("%s_%s_%d" % (o, a, i))


def flag(v):
    if v is TRUE or v is FALSE:
        return v is TRUE
    c = v.const() if isinstance(v, Poly) else None
    return None if c is None else bool(c)


def same(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b or equal(a, b)
    return a == b


def products(fin, o, n0, dead0, want, dim, what, mass):
    """want: list of dicts attr->formula; the slots of o that came alive hold exactly them"""
    N = len(fin["is_dead"])
    msgs = []
    new = []
    for i in range(N):
        d = flag(fin["is_dead"][i])
        if d is None:
            return "flag of slot %d of %s is undecided" % (i, what)
        was = bool(dead0[i]) if i < n0 else True
        if not was:
            if d:
                return "a living %s in slot %d is removed" % (what, i)
            for a in BASE + QED:
                if not same(fin[a][i], old(o, a, i)):
                    return "%s of the living %s in slot %d is overwritten" % (a, what, i)
        elif d is False:
            new.append(i)
    if len(new) != len(want):
        return "%d %s created for %d events" % (len(new), what, len(want))
    left = list(want)
    ax = "xyz"[:dim]
    for i in new:
        hit = None
        for wv in left:
            if all(same(fin[a][i], wv[a]) for a in ax):
                hit = wv
                break
        if hit is None:
            return "position of the created %s is (%s), not that of a source particle with an event" % (what, ", ".join(str(fin[a][i])[:60] for a in ax))
        left.remove(hit)
        for a in ("ux", "uy", "uz", "w"):
            if not same(fin[a][i], hit[a]):
                return "%s of the created %s is %s, expected %s" % (a, what, str(fin[a][i])[:120], hit[a])
        u2 = hit["ux"] ** 2 + hit["uy"] ** 2 + hit["uz"] ** 2
        g = alg.inv(alg.sqrt(u2 + (1 if mass else 0)))
        if not same(fin["inv_gamma"][i], g):
            return "inv_gamma of the created %s is %s, expected %s" % (what, str(fin["inv_gamma"][i])[:120], g)
    return None


def untouched(fin, o, n, attrs, what):
    for a in attrs:
        for i in range(n):
            if not same(fin[a][i], old(o, a, i)):
                return "%s of %s %d changes to %s" % (a, what, i, str(fin[a][i])[:100])
    return None


def inert(steps, o, dead, what, prods):
    """slots of o dead from the start: unchanged and still dead in every step, and no source of the products
    (product object, its slots, its dead flags, axes); product slots that stay dead are unchanged"""
    for f in steps:
        for i, d in enumerate(dead):
            if d:
                for a in BASE + QED:
                    if not same(f[a][i], old(o, a, i)):
                        return "%s of the dead %s slot %d is written" % (a, what, i)
                if flag(f["is_dead"][i]) is not True:
                    return "the dead %s slot %d comes alive" % (what, i)
    for po, f, pd, ax in prods:
        for j in range(len(f["is_dead"])):
            was = bool(pd[j]) if j < len(pd) else True
            if not was:
                continue
            if flag(f["is_dead"][j]) is not True:
                for i, d in enumerate(dead):
                    if d and any(same(f[a][j], old(o, a, i)) for a in ax):
                        return "the dead %s slot %d creates a particle" % (what, i)
            elif j < len(pd):
                for a in BASE + QED:
                    if not same(f[a][j], old(po, a, j)):
                        return "%s of product slot %d, which stays dead, is written" % (a, j)
    return None


def emission_job(dim, pats):
    w = world()
    it = setup(w, dim)
    D = "%dD" % dim
    np_ = len(pats)
    ax = "xyz"[:dim]
    names = ["s0: Electron", "s1: Photon"] + ["p%d: Patch%s" % (k, D) for k in range(np_)] + ["%s%d: QEDParticles" % (o, k) for k in range(np_) for o in ("e", "h")]
    src = HEAD + "def main(%s):\n" % ", ".join(names)
    for k, (ed, ev, hd) in enumerate(pats):
        src += slots("e%d" % k, len(ed), ed, ev) + slots("h%d" % k, len(hd), hd)
        src += "    p%d.particles = [e%d, h%d]\n    p%d.pml_boundary = []\n    p%d.index = %d\n" % (k, k, k, k, k, k)
    src += "    ps = Patches(%d)\n" % dim + "".join("    ps.append(p%d)\n" % k for k in range(np_))
    src += "    s0.ispec = 0\n    s1.ispec = 1\n    s0.photon = s1\n    ps.species = [s0, s1]\n    r = NonlinearComptonLCFA(ps, 0)\n    r.create_particles()\n    MID()\n    r.reaction()\n    return 0\n"
    mid = {}

    def snap(it_, av, kv, st, n):
        for k in range(np_):
            for o in ("e%d" % k, "h%d" % k):
                mid[o] = read(it_, st, o)
        return NONE
    it.intrin["MID"] = snap
    fn = w.driver(src)
    eff, ret, st = it.run_func(fn)
    if ret is None or st is None or not mid:
        raise Broken("emission cannot be followed")
    obs = []
    loc = ("src/lambdapic/core/qed/cpu.py", 0)
    for k, (ed, ev, hd) in enumerate(pats):
        e, h = "e%d" % k, "h%d" % k
        n = len(ed)
        act = [i for i in range(n) if not ed[i] and ev[i]]
        want = []
        for i in act:
            d = old(e, "delta", i)
            wv = {a: old(e, a, i) for a in ax + "w"}
            wv.update({a: d * old(e, a, i) for a in ("ux", "uy", "uz")})
            want.append(wv)
        case = "patch %d, emitters dead %s, events %s, photon slots dead %s: " % (k, ed, ev, hd)
        m = products(mid[h], h, len(hd), hd, want, dim, "photons", 0)
        obs.append(("create", "%dd photons" % dim, m is None, case + (m or ""), loc))
        m = untouched(mid[e], e, n, BASE + QED, "emitter")
        obs.append(("create", "%dd emitters during creation" % dim, m is None, case + (m or ""), loc))
        fe, fh = read(it, st, e), read(it, st, h)
        m = None
        for a in fh:
            for i in range(len(fh[a])):
                if not same(fh[a][i], mid[h][a][i]):
                    m = "%s of photon slot %d changes in the reaction" % (a, i)
        obs.append(("recoil", "%dd photons during recoil" % dim, m is None, case + (m or ""), loc))
        m = untouched(fe, e, n, [a for a in BASE + QED if a not in ("ux", "uy", "uz", "inv_gamma")], "emitter")
        for i in range(n):
            if m:
                break
            if [flag(fe["is_dead"][j]) for j in range(n)] != [bool(x) for x in ed]:
                m = "the living flags of emitters change"
            u = {a: old(e, a, i) for a in ("ux", "uy", "uz")}
            g = old(e, "inv_gamma", i)
            if i in act:
                u = {a: (1 - old(e, "delta", i)) * v for a, v in u.items()}
                g = alg.inv(alg.sqrt(1 + u["ux"] ** 2 + u["uy"] ** 2 + u["uz"] ** 2))
            for a in u:
                if not same(fe[a][i], u[a]):
                    m = "%s of emitter %d becomes %s, expected %s" % (a, i, str(fe[a][i])[:120], u[a])
            if not m and not same(fe["inv_gamma"][i], g):
                m = "inv_gamma of emitter %d becomes %s, expected %s" % (i, str(fe["inv_gamma"][i])[:120], g)
        obs.append(("recoil", "%dd emitters" % dim, m is None, case + (m or ""), loc))
        m = inert((mid[e], fe), e, ed, "emitter", [(h, mid[h], hd, ax), (h, fh, hd, ax)])
        obs.append(("dead", "%dd emission" % dim, m is None, case + (m or ""), loc))
    return obs, it.analysed


def pair_job(dim, pats):
    w = world()
    it = setup(w, dim)
    D = "%dD" % dim
    np_ = len(pats)
    ax = "xyz"[:dim]
    names = ["s0: Photon", "s1: Electron", "s2: Positron"] + ["p%d: Patch%s" % (k, D) for k in range(np_)] + ["%s%d: QEDParticles" % (o, k) for k in range(np_) for o in ("h", "e", "q")]
    src = HEAD + "def main(%s):\n" % ", ".join(names)
    for k, (hd, ev, ed, qd) in enumerate(pats):
        src += slots("h%d" % k, len(hd), hd, ev) + slots("e%d" % k, len(ed), ed) + slots("q%d" % k, len(qd), qd)
        src += "    p%d.particles = [h%d, e%d, q%d]\n    p%d.pml_boundary = []\n    p%d.index = %d\n" % (k, k, k, k, k, k, k)
    src += "    ps = Patches(%d)\n" % dim + "".join("    ps.append(p%d)\n" % k for k in range(np_))
    src += "    s0.ispec = 0\n    s1.ispec = 1\n    s2.ispec = 2\n    s0.electron = s1\n    s0.positron = s2\n    ps.species = [s0, s1, s2]\n"
    src += "    r = NonlinearPairProductionLCFA(ps, 0)\n    r.create_particles()\n    MID()\n    r.reaction()\n    return 0\n"
    mid = {}

    def snap(it_, av, kv, st, n):
        for k in range(np_):
            for o in "heq":
                mid[o + str(k)] = read(it_, st, o + str(k))
        return NONE
    it.intrin["MID"] = snap
    fn = w.driver(src)
    eff, ret, st = it.run_func(fn)
    if ret is None or st is None or not mid:
        raise Broken("pair creation cannot be followed")
    obs = []
    loc = ("src/lambdapic/core/qed/cpu.py", 0)
    for k, (hd, ev, ed, qd) in enumerate(pats):
        h, e, q = "h%d" % k, "e%d" % k, "q%d" % k
        n = len(hd)
        act = [i for i in range(n) if not hd[i] and ev[i]]
        wants = {"e": [], "q": []}
        for i in act:
            d = old(h, "delta", i)
            for o, f in (("e", d), ("q", 1 - d)):
                wv = {a: old(h, a, i) for a in ax + "w"}
                wv.update({a: f * old(h, a, i) for a in ("ux", "uy", "uz")})
                wants[o].append(wv)
        case = "patch %d, photons dead %s, events %s, electron slots dead %s, positron slots dead %s: " % (k, hd, ev, ed, qd)
        for o, nm, dd in (("e", "electrons", ed), ("q", "positrons", qd)):
            m = products(mid[o + str(k)], o + str(k), len(dd), dd, wants[o], dim, nm, 1)
            obs.append(("create", "%dd %s" % (dim, nm), m is None, case + (m or ""), loc))
        m = untouched(mid[h], h, n, BASE + QED, "photon")
        obs.append(("create", "%dd photons during creation" % dim, m is None, case + (m or ""), loc))
        fh = read(it, st, h)
        m = None
        for o in (e, q):
            f = read(it, st, o)
            for a in f:
                if any(not same(x, y) for x, y in zip(f[a], mid[o][a])):
                    m = "%s of %s changes when photons are removed" % (a, o)
        got = [flag(x) for x in fh["is_dead"]]
        if not m and got != [bool(hd[i]) or i in act for i in range(n)]:
            m = "photons dead afterwards: %s" % got
        m = m or untouched(fh, h, n, BASE + QED, "photon")
        obs.append(("remove", "%dd photons" % dim, m is None, case + (m or ""), loc))
        m = inert((mid[h], fh), h, hd, "photon", [(e, mid[e], ed, ax), (q, mid[q], qd, ax)])
        obs.append(("dead", "%dd pair creation" % dim, m is None, case + (m or ""), loc))
    return obs, it.analysed


def emission_cases(tier):
    em = [(d, e) for d in itertools.product((0, 1), repeat=3) for e in itertools.product((0, 1), repeat=3)]
    hs = [h for r in (1, 2) for h in itertools.product((0, 1), repeat=r)]
    if tier == "thorough":
        hs += list(itertools.product((0, 1), repeat=3))
    out = [(d, e, h) for d, e in em for h in hs]
    return [tuple(out[i::(len(out) + 1) // 2][:2]) for i in range((len(out) + 1) // 2)]


def pair_cases(tier):
    ph = [(d, e) for d in itertools.product((0, 1), repeat=3) for e in itertools.product((0, 1), repeat=3)]
    hs = [h for r in (1, 2) for h in itertools.product((0, 1), repeat=r)]
    out = []
    for j, (d, e) in enumerate(ph):
        for i, a in enumerate(hs):
            for b in hs if tier == "thorough" else (hs[(i + j) % len(hs)], hs[(i * 2 + j + 3) % len(hs)]):
                out.append((d, e, a, b))
    return [tuple(out[i::(len(out) + 1) // 2][:2]) for i in range((len(out) + 1) // 2)]


def p25(c):
    c.rule("create", "the photon slots that come alive hold exactly one photon per live emitter with an event: its position, weight, delta times its momentum, refreshed inverse Lorentz factor; living photons and emitters are unchanged")
    c.rule("recoil", "afterwards exactly those emitters keep (1-delta) of their momentum with refreshed inverse Lorentz factor; everything else is unchanged")
    c.rule("range", "no element outside an array is touched")
    jobs = [("emission_job", d, p) for d in (2, 3) for p in emission_cases(c.tier)]
    run_jobs(c, jobs, mod=globals(), skip=("dead",))
    c.units |= {"src/lambdapic/core/qed/cpu.py", "src/lambdapic/core/qed/inline.py", "src/lambdapic/core/qed/radiation.py"}
    c.floor("create", 4)
    c.floor("recoil", 4)


def p26(c):
    c.rule("create", "the electron and positron slots that come alive hold exactly one pair per live photon with an event: its position, weight, delta and 1-delta of its momentum, refreshed inverse Lorentz factors; living particles and the photon are unchanged until it is removed")
    c.rule("remove", "exactly the photons with an event are dead afterwards; nothing else changes")
    c.rule("range", "no element outside an array is touched")
    jobs = [("pair_job", d, p) for d in (2, 3) for p in pair_cases(c.tier)]
    run_jobs(c, jobs, mod=globals(), skip=("dead",))
    c.units |= {"src/lambdapic/core/qed/cpu.py", "src/lambdapic/core/qed/inline.py", "src/lambdapic/core/qed/pair_production.py"}
    c.floor("create", 6)
    c.floor("remove", 2)


# ------------------------------------------------------------------ P27 events
LUT = ("optical_depth_tables", "optical_depth_tables_sigmoid")
LO, HI, NCHI, ND = -1, 2, 4, 5
FNS = {"integ_photon_prob_rate_from_table": ("rate", "photon"), "photon_delta_from_chi_delta_table": ("delta", "photon"),
       "integ_pair_prob_rate_from_table": ("rate", "pair"), "pair_delta_from_chi_delta_table": ("delta", "pair")}
NPZ = {"photon_prob_rate_total": ("rate", "photon"), "pair_prob_rate_total": ("rate", "pair"),
       "integral_photon_prob_along_delta": ("delta", "photon"), "integral_pair_prob_along_delta": ("delta", "pair")}


def with_tables(it, exact=True, entries=None, rows=None):
    """numpy.load gives tables over a small axis; entries/rows: contents (None: symbols)"""
    used = set()
    d = alg.Fraction(HI - LO, NCHI - 1)
    if not exact:
        d = d * (1 - alg.Fraction(1, 2 ** 53))
    items = {"chi_N": P(NCHI), "log_chi_range": Tup([P(LO), P(HI)]), "log_chi_delta": P(d), "delta_N": P(ND),
             "log_delta_range": Tup([P(-3), P(0)]), "log_delta_delta": P(alg.Fraction(3, ND - 1)),
             "delta_range": Tup([P(alg.Fraction(1, 11)), P(alg.Fraction(10, 11))]), "A": alg_log(10)}
    for nm, (what, kind) in NPZ.items():
        t = atom("sym", "npz:" + nm)
        if what == "rate":
            it.tables[t] = ((NCHI,), entries or (lambda i, nm=nm: S("%s[%d]" % (nm, i))))
        else:
            it.tables[t] = ((NCHI, ND), rows or (lambda i, j, nm=nm: S("%s[%d,%d]" % (nm, i, j))))
        items[nm] = P(t)
    it.intrin["numpy.load"] = lambda it_, av, kv, st, n: DictV(dict(items))
    it.intrin["os.path.exists"] = lambda it_, av, kv, st, n: TRUE
    return used


def alg_log(x):
    return P(atom("fn", "log", (P(x),)))


def event_job(kind, sigmoid):
    w = world()
    it = setup(w, 2)
    with_tables(it)
    obs = []
    it.intrin["os.environ.get"] = lambda it_, av, kv, st, n: "1" if sigmoid else NONE
    calls = []

    def opaque(nm):
        what, kd = FNS[nm]

        def h(it_, av, kv, st, n):
            tab = av[1].as_atom() if isinstance(av[1], Poly) else None
            calls.append((nm, what, kd, str(tab)))
            return P(atom("fn", what, (av[0],), isint=False))
        return h
    for nm in FNS:
        it.intrin[nm] = opaque(nm)
    nr = [0]

    def rand(it_, av, kv, st, n):
        nr[0] += 1
        return S("R%d" % nr[0])

    it.intrin["rand"] = it.intrin[".rand"] = it.intrin["numpy.random.random"] = rand
    it.intrin["exponential"] = lambda it_, av, kv, st, n: -alg_log_of(1 - rand(it_, av, kv, st, n))
    dead = [0, 1, 0]
    n = len(dead)
    flags = [0, 1, 1]
    if kind == "photon":
        src = HEAD + "def main(s0: Electron, s1: Photon, p0: Patch2D, e0: QEDParticles, h0: QEDParticles):\n"
        src += slots("e0", n, dead, flags) + slots("h0", 1, [1])
        src += "    p0.particles = [e0, h0]\n    s0.ispec = 0\n    s1.ispec = 1\n    s0.photon = s1\n    sp = [s0, s1]\n"
        cls = "NonlinearComptonLCFA"
    else:
        src = HEAD + "def main(s0: Photon, s1: Electron, s2: Positron, p0: Patch2D, e0: QEDParticles, h0: QEDParticles, h1: QEDParticles):\n"
        src += slots("e0", n, dead, flags) + slots("h0", 1, [1]) + slots("h1", 1, [1])
        src += "    p0.particles = [e0, h0, h1]\n    s0.ispec = 0\n    s1.ispec = 1\n    s2.ispec = 2\n    s0.electron = s1\n    s0.positron = s2\n    sp = [s0, s1, s2]\n"
        cls = "NonlinearPairProductionLCFA"
    src += "    p0.index = 0\n    p0.pml_boundary = []\n    ps = Patches(2)\n    ps.append(p0)\n    ps.species = sp\n"
    src += "    r = %s(ps, 0)\n    r.event(SYM('dt'))\n    MID()\n    r.update_chi()\n    return 0\n" % cls
    mid = {}
    it.intrin["MID"] = lambda it_, av, kv, st, nn: (mid.update(read(it_, st, "e0")), NONE)[1]
    eff, ret, st = it.run_func(w.driver(src))
    if ret is None or not mid:
        raise Broken("events cannot be followed")
    loc = ("src/lambdapic/core/qed/optical_depth.py", 0)
    tag = kind + (" sigmoid" if sigmoid else "")
    bad = sorted({c_[0] + " with " + c_[3] for c_ in calls if c_[2] != kind or NPZ.get(c_[3].replace("npz:", "")) != c_[1:3]})
    obs.append(("event", "%s tables" % tag, not bad, "%s event: lookup %s" % (kind, "; ".join(bad)), loc))
    if not {c_[1] for c_ in calls} >= {"rate", "delta"}:
        raise Broken("no table lookup is reached from %s.event" % cls)
    fin = read(it, st, "e0")
    chimin = 10.0 ** LO
    m = None
    dead_event = []
    for i in range(n):
        if m:
            break
        for chi in (0.0, chimin / 2, chimin * 1.001, 1.0, 1e3):
            for tau in (0.0, float("nan"), 1e-9, 0.4, 30.0):
                for rr in (0.2, 0.97):
                    rv = {k: rr + 0.001 * k if k % 2 else 0.5 - 0.003 * k for k in range(1, nr[0] + 1)}
                    rate = 2.0 + chi
                    g, dt = 0.25, 0.5

                    def leaf(a):
                        if a.kind == "sym":
                            s = str(a.args[0])
                            if s == "dt":
                                return dt
                            if s[0] == "R" and s[1:].isdigit():
                                return rv[int(s[1:])]
                            for nm, v in (("chi", chi), ("tau", tau), ("inv_gamma", g), ("delta", 0.77)):
                                if s == "e0_%s_%d" % (nm, i):
                                    return v
                        if a.kind == "fn" and str(a.args[0]) in ("rate", "delta"):
                            v = alg.evaluate(a.args[1][0], leaf)
                            return 2.0 + v if a.args[0] == "rate" else 0.001 + 0.0001 * v
                        return None
                    got = {}
                    for nm in ("tau", "delta", "event"):
                        v = mid[nm][i]
                        got[nm] = alg.evaluate(v, leaf)
                    t0s = [tau]
                    fresh_ = [-math.log(1 - x) for x in rv.values()]
                    if tau == 0 or math.isnan(tau):
                        t0s = fresh_
                    here = "%s slot %d, chi %s (threshold %s), tau %s, rate %s, dt %s, inverse gamma %s" % ("dead" if dead[i] else "living", i, chi, chimin, tau, rate, dt, g)
                    if dead[i] or chi < chimin:
                        if bool(got["event"]):
                            m = here + ": an event is raised"
                        elif not near(got["tau"], tau):
                            m = here + ": the optical depth changes to %s" % got["tau"]
                        if m and dead[i]:
                            dead_event.append(m)
                        continue
                    ok = False
                    for t0 in t0s:
                        left = t0 - rate * dt * g
                        ev = left < 0
                        if bool(got["event"]) != ev:
                            continue
                        if not ev and near(got["tau"], left):
                            ok = True
                        if ev and any(near(got["tau"], x) for x in fresh_ if x != t0) and near(got["delta"], 0.001 + 0.0001 * chi):
                            ok = True
                    if not ok and not m:
                        m = here + ": event %s, tau %s, delta %s; rate times elapsed proper time is %s" % (bool(got["event"]), got["tau"], got["delta"], rate * dt * g)
    obs.append(("event", "%s event" % tag, m is None, m or "", loc))
    for nm in BASE + ["chi"]:
        if any(not same(mid[nm][i], old("e0", nm, i)) for i in range(n)):
            obs.append(("event", "%s %s" % (tag, nm), False, "%s changes while events are drawn" % nm, loc))
    if [flag(x) for x in mid["is_dead"]] != [bool(x) for x in dead]:
        obs.append(("event", "%s flags" % tag, False, "living flags change while events are drawn", loc))
    m = None
    for i in range(n):
        if dead[i]:
            for f, when in ((mid, "events are drawn"), (fin, "the quantum parameter is updated")):
                for a in BASE + (QED if f is mid else [x for x in QED if x != "chi"]):
                    v = f[a][i]
                    if f is mid and a in ("tau", "delta"):
                        continue        # decided by evaluation above
                    if not same(v, mid[a][i] if f is fin else old("e0", a, i)):
                        m = m or "%s of the dead slot %d changes while %s" % (a, i, when)
            if not same(fin["is_dead"][i], TRUE) and flag(fin["is_dead"][i]) is not True:
                m = m or "the dead slot %d comes alive" % i
    if dead_event:
        m = m or dead_event[0]
    obs.append(("dead", "%s event" % tag, m is None, m or "", loc))
    # chi
    m = None
    e_, me, hb, cc = 1.6, 0.9, 1.05, 299792458.0
    m0 = 0 if kind == "pair" else 1
    pts = [((3.0, -2.0, 1.5), (1e8, 2e8, -3e8), (0.4, -0.9, 0.7)), ((0.0, 5.0, 0.0), (0.0, 0.0, 0.0), (2.0, 0.0, -1.0)),
           ((-7.0, 0.5, 2.0), (-4e8, 1e7, 0.0), (0.0, 0.0, 1.3)), ((1e-3, 2e-3, 1e-3), (5e8, 5e8, 5e8), (-1.0, 2.0, 0.0)),
           ((100.0, 0.0, 0.0), (0.0, 3e8, 0.0), (0.0, 0.0, 1.0))]
    for i in range(n):
        v = fin["chi"][i]
        if dead[i]:
            continue
        for (u, E, B_) in pts:
            g = math.sqrt(m0 + sum(x * x for x in u))
            vals = dict(zip(("ux", "uy", "uz", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "inv_gamma"), u + E + B_ + (1 / g,)))
            k = e_ * hb / (me ** 2 * cc ** 3)
            cr = (u[1] * B_[2] - u[2] * B_[1], u[2] * B_[0] - u[0] * B_[2], u[0] * B_[1] - u[1] * B_[0])
            f2 = sum((g * a + b * cc) ** 2 for a, b in zip(E, cr)) - sum(a * b for a, b in zip(u, E)) ** 2
            want = k * math.sqrt(max(f2, 0))
            got = point(v, i, vals, e_, me, hb)
            if not near(got, want, 1e-6, k * math.sqrt(sum((g * a) ** 2 for a in E) + 1e-9) * 1e-6):
                m = m or "chi of a living particle with u=%s, E=%s, B=%s is %s, expected %s" % (u, E, B_, got, want)
        # the square of the field may come out slightly negative
        vals = dict(ux=1.0 + 1e-12, uy=0.0, uz=0.0, ex_part=1e9, ey_part=0.0, ez_part=0.0, bx_part=0.0, by_part=0.0, bz_part=0.0, inv_gamma=1.0 if m0 == 0 else 1.0)
        got = point(v, i, vals, e_, me, hb)
        obs.append(("domain", "%s chi" % tag, got == 0, "chi of a living particle is %s where rounding makes its square negative (momentum parallel to the field): a value that is not below the threshold and has no place in the tables" % got, loc))
    obs.append(("event", "%s chi" % tag, m is None, m or "", loc))
    return obs, it.analysed


def point(v, i, vals, e_, me, hb):
    def leaf(a):
        s = str(a)
        if s.startswith("e0_") and s.endswith("_%d" % i):
            return vals.get(s[3:].rsplit("_", 1)[0])
        if s == "const(e)":
            return e_
        if s == "const(m_e)":
            return me
        if s == "const(hbar)":
            return hb
        if s == "const(h)":
            return hb * 2 * math.pi
        if s == "const(pi)":
            return math.pi
        return None
    return alg.evaluate(v, leaf)


def alg_log_of(p):
    return P(atom("fn", "log", (p,)))


def near(a, b, rel=1e-9, ab=1e-30):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


ROWS = {
    "rising": [[1, 3, 4, 8, 9], [2, 4, 7, 9, 13], [3, 6, 8, 10, 20], [5, 6, 9, 20, 40]],
    "plateaus": [[2, 2, 5, 5, 5], [2, 2, 5, 5, 5], [0, 0, 3, 3, 7], [0, 0, 3, 3, 7]],
    "empty": [[0, 0, 0, 0, 0], [0, 0, 0, 0, 0], [0, 0, 0, 0, 1], [0, 0, 0, 0, 1]],
}
POINTS = (-1, -0.5, -0.25, 0, 0.3, 1, 1.5, 1.999, 2, 2.2, 5)
EDGE = 2 - alg.Fraction(1, 2 ** 52)     # below the end, but rounding puts it at the last entry


def logs(it):
    def h(it_, av, kv, st, n):
        c = av[0].const() if isinstance(av[0], Poly) else None
        if c is None:
            return P(atom("fn", "log10", (av[0],)))
        for L in POINTS + (-2, -7.5, EDGE):
            if chi_of(L) == c:
                return P(alg.Fraction(L))
        return P(alg.Fraction(math.log10(c)))
    it.intrin["log10"] = h


def chi_of(L):
    if L == EDGE:
        return 100 - alg.Fraction(1, 2 ** 40)
    return alg.Fraction(10) ** int(L) if L == int(L) else alg.Fraction(10.0 ** L)


def weights(L):
    """(row, weight of the next row) in the logarithm and in the value"""
    L = float(min(L, HI))
    i = min(int(math.floor(L - LO)), NCHI - 2)
    t = L - (LO + i)
    a, b = 10.0 ** (LO + i), 10.0 ** (LO + i + 1)
    return i, [t, (10.0 ** L - a) / (b - a)]


def rate_job(mod, fn, exact):
    w = world()
    obs = []
    an = set()
    loc = ("src/lambdapic/core/qed/%s.py" % mod, 0)
    pts = POINTS + (-2, -7.5) if exact else (EDGE, 2, -1, 0, 1, 1.999)
    for L in pts:
        it = setup(w, 2)
        it.intrin["CHI"] = lambda it_, av, kv, st, n: P(chi_of(L))
        it.intrin["TABLE"] = lambda it_, av, kv, st, n: P(tab)
        with_tables(it, exact)
        logs(it)
        tab = atom("sym", "npz:" + [k for k, v in NPZ.items() if v == FNS[fn]][0])
        eff, ret, st = it.run_func(w.driver("from .core.qed.%s import %s\ndef main():\n    return %s(CHI(), TABLE())\n" % (mod, fn, fn)))
        an |= it.analysed
        nm = str(tab)[4:]

        def val(k):
            def leaf(a):
                s = str(a)
                return (1.0 if s == "%s[%d]" % (nm, k) else 0.0) if s.startswith(nm) else None
            return float(alg.evaluate(ret, leaf))
        got = [val(k) for k in range(NCHI)]
        if L < LO:
            want = [[0.0] * NCHI]
        else:
            i, ts = weights(L)
            want = []
            for t in ts:
                v = [0.0] * NCHI
                v[i] += 1 - t
                v[i + 1] += t
                want.append(v)
        ok = any(all(abs(a - b) < 1e-7 for a, b in zip(got, v)) for v in want)
        obs.append(("lookup", "%s.%s rate" % (mod, fn), ok, "at log10(chi) = %s the rate is %s of the %d entries over [%s, %s], expected %s" % (L, [round(x, 4) for x in got], NCHI, LO, HI, [round(x, 4) for x in want[0]]), loc))
    return obs, an


def delta_axis(mod, j):
    if mod.endswith("sigmoid"):
        return 1 / (1 + math.exp(-math.log(10) * (-1 + 2.0 * j / (ND - 1))))
    return 10.0 ** (-3 + 3.0 * j / (ND - 1))


def delta_job(mod, fn, rows):
    w = world()
    obs = []
    an = set()
    loc = ("src/lambdapic/core/qed/%s.py" % mod, 0)
    R = ROWS[rows]
    tab = atom("sym", "npz:" + [k for k, v in NPZ.items() if v == FNS[fn]][0])
    for L in POINTS:
        i, ts = weights(L)
        rands = {alg.Fraction(0), alg.Fraction(1, 3), alg.Fraction(7, 8), 1 - alg.Fraction(1, 2 ** 53)}
        if L == int(L):
            row = R[i] if not ts[0] else R[i + 1]
            if row[-1] > row[0]:
                rands |= {alg.Fraction(y - row[0], row[-1] - row[0]) for y in row[:-1]}
        for rd in sorted(rands):
            it = setup(w, 2)
            it.intrin["CHI"] = lambda it_, av, kv, st, n: P(chi_of(L))
            it.intrin["TABLE"] = lambda it_, av, kv, st, n: P(tab)
            it.intrin["rand"] = it.intrin[".rand"] = it.intrin["numpy.random.random"] = lambda it_, av, kv, st, n: P(rd)
            with_tables(it, True, rows=lambda a, b: P(R[a][b]))
            logs(it)
            try:
                eff, ret, st = it.run_func(w.driver("from .core.qed.%s import %s\ndef main():\n    return %s(CHI(), TABLE())\n" % (mod, fn, fn)))
            except smallnp.OutOfRange as x:
                obs.append(("lookup", "%s.%s range" % (mod, fn), False, "at log10(chi) = %s, drawn %s: %s" % (L, float(rd), x), loc))
                continue
            except UnrollLimit as x:
                obs.append(("lookup", "%s.%s ends" % (mod, fn), False, "at log10(chi) = %s, drawn %s: the search does not end" % (L, float(rd)), loc))
                continue
            an |= it.analysed
            if it.divzeros:
                obs.append(("lookup", "%s.%s division" % (mod, fn), False, "at log10(chi) = %s, drawn %s: division by zero" % (L, float(rd)), it.divzeros[0] or loc))
            try:
                got = float(alg.evaluate(ret, lambda a: None))
            except (ZeroDivisionError, OverflowError) as x:
                got = float("nan")
            ok = False
            shown = []
            for t in ts:
                y = [R[i][j] * (1 - t) + R[i + 1][j] * t for j in range(ND)]
                r = float(rd) * (y[-1] - y[0]) + y[0]
                eps = 1e-9 * max(abs(y[-1]), 1e-9)
                for j in range(ND - 1):
                    a, b = delta_axis(mod, j), delta_axis(mod, j + 1)
                    if y[j] - eps <= r <= y[j + 1] + eps:
                        if y[j + 1] - y[j] > eps:
                            f = min(max((r - y[j]) / (y[j + 1] - y[j]), 0), 1)
                            c1, c2 = a + f * (b - a), math.exp(math.log(a) + f * (math.log(b) - math.log(a)))
                            shown.append(c1)
                            ok = ok or near(got, c1, 1e-6) or near(got, c2, 1e-6)
                        else:
                            shown.append(a)
                            ok = ok or a * (1 - 1e-6) <= got <= b * (1 + 1e-6)
            obs.append(("lookup", "%s.%s value" % (mod, fn), ok, "at log10(chi) = %s, drawn %s: delta is %s, where the cumulative rows %s and %s give %s" % (L, float(rd), got, R[i], R[i + 1], shown[:1]), loc))
    return obs, an


def axis_job(mod):
    """what table_gen stores is what it computed, over the axis it stores"""
    w = world()
    it = setup(w, 2)
    saved = {}
    loc = ("src/lambdapic/core/qed/%s.py" % mod, 0)

    def space(lg):
        def h(it_, av, kv, st, n):
            kv = dict(kv)
            a = list(av) + [kv.get("num")] if len(av) == 2 else list(av)
            if a[2] is None or set(kv) - {"num", "endpoint"}:
                raise Broken("an axis is made with %s" % (kv,))
            lo, hi, k = [x.const() for x in a[:3]]
            xs = [lo + (hi - lo) * alg.Fraction(j, int(k) - (kv.get("endpoint") is not FALSE)) for j in range(int(k))]
            return smallnp.new(it_, st, [P(atom("pow", P(10), P(x))) if lg else P(x) for x in xs])
        return h
    it.intrin["numpy.logspace"], it.intrin["numpy.linspace"] = space(True), space(False)
    def pmap(star):
        def h(it_, av, kv, st, n):
            xs = it_.const_items(av[2], st)
            if xs is None:
                raise Broken("the items of a pool map are not known: %s" % (av[2],))
            return Tup([it_.call_value(av[1], list(x.items) if star else [x], [], st, n) for x in xs], "list")
        return h
    it.intrin[".map"], it.intrin[".starmap"] = pmap(False), pmap(True)

    def quad(it_, av, kv, st, n):
        v = it_.call_value(av[0], [S("probe")], [], st, n)
        return Tup([P(atom("fn", "quad", (v, av[1], av[2]))), S("error")])
    it.intrin["quad"] = quad
    def save(it_, av, kv, st, n):
        for k, v in (kv.items() if hasattr(kv, "items") else kv):
            xs = it_.const_items(v, st)
            saved[k] = v if xs is None else [x if it_.const_items(x, st) is None else list(it_.const_items(x, st)) for x in xs]
        return NONE
    it.intrin["numpy.savez"] = it.intrin["numpy.savez_compressed"] = save
    it.intrin["airy"] = lambda it_, av, kv, st, n: Tup([P(atom("fn", "airy%d" % k, (av[0],))) for k in range(4)])
    sig = mod.endswith("sigmoid")
    eff, ret, st = it.run_func(w.driver("from .core.qed.%s import table_gen\ndef main():\n    table_gen('X', chi_N=%d, log_chi_min=%d, log_chi_max=%d, delta_N=3, %s)\n    return 0\n" % (mod, 3, -1, 1, "delta_min=0.1" if sig else "log_delta_min=-2")))
    miss = [k for k in ["chi_N", "log_chi_range", "log_chi_delta", "delta_N"] + list(NPZ) + (["delta_range", "A"] if sig else ["log_delta_range", "log_delta_delta"]) if k not in saved]
    if not saved:
        raise Broken("table_gen does not reach numpy.savez")
    obs = []
    if miss:
        obs.append(("axis", mod, False, "table_gen does not store %s" % ", ".join(miss), loc))
        return obs, it.analysed

    def quadv(a, env):
        hi = a.args[1][2]
        if isinstance(hi, Poly):
            lo, hi = num(a.args[1][1], env), num(hi, env)
            xs = [lo + (hi - lo) * (k + 0.5) / 6 for k in range(6)]
            return sum(num(a.args[1][0], dict(env, probe=x)) for x in xs) * (hi - lo) / 6
        z = num(a.args[1][1], env)
        return num(a.args[1][0], dict(env, probe=z)) * 0.7 / (1 + z)     # some functional of the integrand

    def num(v, env):
        def leaf(a):
            s = str(a)
            if a.kind == "sym" and s in env:
                return env[s]
            if a.kind == "fn" and a.args[0] == "quad":
                return quadv(a, env)
            if a.kind == "fn" and str(a.args[0]).startswith("airy"):
                return AIRY[int(a.args[0][4:])](num(a.args[1][0], env))
            if s.startswith("const("):
                return CONSTS.get(s[6:-1])
            return None
        return float(alg.evaluate(v, leaf))
    N = 3
    f = lambda v: float(num(v, {}))
    lo, hi = [f(x) for x in saved["log_chi_range"]]
    m = None
    if f(saved["chi_N"]) != N or not near(f(saved["log_chi_delta"]), (hi - lo) / (N - 1)) or (lo, hi) != (-1, 1):
        m = "the stored axis (%s points over [%s, %s], step %s) is not that of 3 points over [-1, 1]" % (saved["chi_N"], lo, hi, f(saved["log_chi_delta"]))
    if sig:
        ax = [1 / (1 + math.exp(-f(saved["A"]) * (-1 + 2.0 * j / (N - 1)))) for j in range(N)]
        if not near(f(saved["delta_range"][0]), 0.1) or not near(ax[0], 0.1) or f(saved["delta_N"]) != N:
            m = m or "the stored delta axis starts at %s, not at 0.1" % ax[0]
    else:
        d0, dd = f(saved["log_delta_range"][0]), f(saved["log_delta_delta"])
        ax = [10 ** (d0 + j * dd) for j in range(N)]
        if (d0, f(saved["log_delta_range"][1])) != (-2, 0) or not near(dd, 1) or f(saved["delta_N"]) != N:
            m = m or "the stored delta axis (%s points from 10^%s in steps of %s decades) is not that of 3 points from 10^-2 to 1" % (saved["delta_N"], d0, dd)
    obs.append(("axis", "%s constants" % mod, m is None, m or "", loc))
    al = CONSTS["e"] ** 2 / (2 * CONSTS["epsilon_0"] * CONSTS["h"] * 299792458.0)
    k0 = al * 0.9 * 299792458.0 ** 2 / 1.05

    def prob(kind, chi, d):
        if d == 1.0:
            return 0.0
        if kind == "photon":
            xg, x1 = d * chi, chi - d * chi
            z = (xg / (chi * x1)) ** (2 / 3)
            s, t = -1, xg * math.sqrt(z)
        else:
            x1, x2 = d * chi, chi - d * chi
            z = (chi / (x1 * x2)) ** (2 / 3)
            s, t = 1, -chi * math.sqrt(z)
        return s * k0 * (AIRY[0](z) * 0.7 / (1 + z) + (2 / z + t) * AIRY[1](z))

    def integ(kind, chi, a, b):
        return sum(prob(kind, chi, a + (b - a) * (k + 0.5) / 6) for k in range(6)) * (b - a) / 6
    for nm, (what, kind) in NPZ.items():
        m = None
        T = saved[nm]
        if not isinstance(T, list) or len(T) != N:
            obs.append(("axis", "%s %s" % (mod, nm), False, "%s is not stored for every chi of the axis" % nm, loc))
            continue
        for i in range(N):
            chi = 10.0 ** (lo + i * (hi - lo) / (N - 1))
            if what == "rate":
                got, want = [num(T[i], {})], [[integ(kind, chi, 0, 1)]]
            else:
                if not isinstance(T[i], list) or len(T[i]) != N:
                    m = m or "row %d of %s does not cover the delta axis" % (i, nm)
                    continue
                got = [num(x, {}) for x in T[i]]
                a = b = integ(kind, chi, 0, ax[0])
                r1, r2 = [a], [b]
                for j in range(1, N):
                    a = a + prob(kind, chi, ax[j]) * (ax[j] - ax[j - 1])
                    b = b + 0.5 * (prob(kind, chi, ax[j]) + prob(kind, chi, ax[j - 1])) * (ax[j] - ax[j - 1])
                    r1.append(a)
                    r2.append(b)
                want = [r1, r2]
            if not any(all(near(x, y, 1e-6) for x, y in zip(got, v)) for v in want):
                m = m or "entries of %s for chi = %s on the stored axis are %s, the %s rate over that axis gives %s" % (nm, chi, got, kind, want[0])
        obs.append(("axis", "%s %s" % (mod, nm), m is None, m or "", loc))
    return obs, it.analysed


CONSTS = {"alpha": 0.007, "m_e": 0.9, "c": 299792458.0, "hbar": 1.05, "h": 2 * math.pi * 1.05, "pi": math.pi, "e": 1.6, "epsilon_0": 8.8}
AIRY = [lambda z: 0.35 * math.exp(-z), lambda z: -0.25 * math.exp(-z) * (1 + z), lambda z: 0.6 + z, lambda z: 0.4 + z]


def p27(c):
    c.rule("event", "an event is raised exactly for a living particle above threshold whose optical depth is used up by rate(chi) times the elapsed proper time; the depth is redrawn after an event, kept otherwise; delta comes from the table of the same process; chi is the invariant field strength")
    c.rule("domain", "chi is a number for every momentum and field, also where rounding makes its square negative")
    c.rule("lookup", "for every chi below, at, inside, at the end of and beyond the table, and every drawn number: the entry is the tabulated one, interpolated in between, the last one beyond; the search ends")
    c.rule("range", "every table index lies inside the table")
    c.rule("axis", "the stored tables hold the rates of their process at the points of the axis stored with them")
    jobs = [("event_job", k, s) for k in ("photon", "pair") for s in (0, 1)]
    jobs += [("rate_job", m, f, e) for m in LUT for f in FNS if FNS[f][0] == "rate" for e in (True, False)]
    jobs += [("delta_job", m, f, r) for m in LUT for f in FNS if FNS[f][0] == "delta" for r in ROWS]
    jobs += [("axis_job", m) for m in LUT]
    run_jobs(c, jobs, mod=globals(), skip=("dead",))
    c.units |= {"src/lambdapic/core/qed/optical_depth.py", "src/lambdapic/core/qed/optical_depth_tables.py", "src/lambdapic/core/qed/optical_depth_tables_sigmoid.py", "src/lambdapic/core/qed/cpu.py", "src/lambdapic/core/qed/inline.py"}
    c.floor("event", 8)
    c.floor("lookup", 8)
    c.floor("axis", 10)
