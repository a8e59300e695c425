"""P32 particle identifiers.

Identifiers are evaluated for every single-bit value of rank, patch and local number (they are combined bit by bit),
over histories of initialisation, growth, pruning and loading, and for all patches of several ranks. Every function
that turns a dead slot alive for a new particle must give it a fresh identifier."""
import ast
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs, fresh
import itertools

HEAD = '''
import numpy as np
from .core.patch.patch import Patch2D, Patch3D, Patches
from .core.species import Species, Electron, Positron, Photon, Proton
from .core.particles import ParticlesBase, QEDParticles, SpinParticles, SpinQEDParticles
'''
CLS = ["ParticlesBase", "QEDParticles", "SpinParticles", "SpinQEDParticles"]
LOC = ("src/lambdapic/core/particles.py", 0)


def prep(w):
    it = fresh(w)
    it.small = True
    it.asserts = True
    it.maxdepth = 40
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE
    it.intrin[".view"] = lambda it_, av, kv, st, n: av[0]
    for nm in ("Species.compile_jit", ".compile_jit", "Patches.update_lists", ".update_lists"):
        it.intrin[nm] = lambda it_, av, kv, st, n: av[0] if len(av) < 2 else av[-2]
    it.intrin["SYM"] = lambda it_, av, kv, st, n: sym(av[0])
    return it


def ints(it, st, v, what):
    xs = smallnp.items(it, st, v)
    if xs is None:
        raise Broken("the identifiers of %s are not followed: %s" % (what, str(v)[:120]))
    out = []
    for x in xs:
        c = x.const() if isinstance(x, Poly) else None
        if c is None or c != int(c):
            raise Broken("an identifier of %s is undecided: %s" % (what, str(x)[:120]))
        out.append(int(c))
    return out


def one(rank, ip, start, count, cls="ParticlesBase"):
    w = world()
    it = prep(w)
    src = HEAD + "def main():\n    q = %s(%d, %d)\n    return q._generate_ids(%d, %d)\n" % (cls, ip, rank, start, count)
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange:
        ret = None
    if ret is None or st.pc is FALSE:
        return None, it.analysed
    return ints(it, st, ret, "rank %d patch %d" % (rank, ip)), it.analysed


def pack_job(part):
    obs, an = [], set()
    bits = lambda n: [0] + [1 << k for k in range(n)] + [(1 << n) - 1]
    seen = {}
    m = None
    n = 0
    if part == "bits":
        vals = [(r, 0, 0) for r in bits(14)] + [(0, p, 0) for p in bits(18)] + [(0, 0, l) for l in bits(32)] + [(5, 9, 3), ((1 << 14) - 1, (1 << 18) - 1, (1 << 32) - 1), (1, 1, 1), (2, 1, 0), (1, 2, 0), (8192, 131072, 1 << 31)]
        for r, p, l in sorted(set(vals)):
            x, a = one(r, p, l, 1)
            an |= a
            if x is None:
                m = m or "rank %d, patch %d, number %d is refused" % (r, p, l)
                continue
            if not 0 <= x[0] < 1 << 64:
                m = m or "rank %d, patch %d, number %d gives %d, which has no 64 bits" % (r, p, l, x[0])
            if x[0] in seen:
                m = m or "rank, patch and number %s and %s get the same identifier %d" % (seen[x[0]], (r, p, l), x[0])
            seen[x[0]] = (r, p, l)
        # combined bit by bit: the identifier of a combination is the union of its parts
        inv = {v: k for k, v in seen.items()}
        if not m:
            zero = inv[0, 0, 0]
            for (r, p, l), v in inv.items():
                u = zero
                for q, k, f in ((r, 14, lambda b: (b, 0, 0)), (p, 18, lambda b: (0, b, 0)), (l, 32, lambda b: (0, 0, b))):
                    for j in range(k):
                        if q >> j & 1:
                            u |= inv[f(1 << j)]
                if u != v:
                    m = m or "the identifier of %s is not the union of the bits of rank, patch and number" % ((r, p, l),)
            single = [v ^ zero for (r, p, l), v in inv.items() if bin(r).count("1") + bin(p).count("1") + bin(l).count("1") == 1]
            if sum(single) != (1 << 64) - 1:
                m = m or "the bits of rank, patch and number overlap"
        return [("packing", "bits", m is None, m or "", LOC)], an
    for r, p, l, c, good in ((1 << 14, 0, 0, 1, 0), (0, 1 << 18, 0, 1, 0), (0, 0, (1 << 32) - 1, 2, 0), (3, 4, (1 << 32) - 2, 2, 1), (0, 0, 1 << 32, 1, 0), (-1, 0, 0, 1, 0), (0, -1, 0, 1, 0)):
        try:
            x, a = one(r, p, l, c)
        except Broken:
            raise
        an |= a
        if (x is not None) != bool(good):
            m = m or "rank %d, patch %d, numbers %d to %d are %s" % (r, p, l, l + c - 1, "accepted" if x is not None else "refused")
    return [("packing", "capacity", m is None, m or "", LOC)], an


def history_job(cls, ops):
    """identifiers after a history of initialize/extend/prune"""
    w = world()
    it = prep(w)
    src = HEAD + "def main():\n    q = %s(3, 2)\n    out = []\n" % cls
    born = 0
    for k, (op, n) in enumerate(ops):
        if op == "prune":
            for i in n:
                src += "    q.is_dead[%d] = False\n" % i
            src += "    before = q._id.copy()\n    xs = q.x.copy()\n    dd = q.is_dead.copy()\n    q.prune(0)\n    out.append(['prune', before, dd, q._id.copy(), q.is_dead.copy()])\n"
        else:
            src += "    old = q._id.copy() if %d else np.zeros(0)\n    q.%s(%d)\n    out.append(['%s', old, q._id.copy()])\n" % (k, op, n, op)
    src += "    return out\n"
    what = "%s: %s" % (cls, ", ".join("%s %s" % o for o in ops))
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("history", cls, False, what + ": " + str(x), LOC)], it.analysed
    if ret is None:
        raise Broken("a history of particle arrays is not followed: %s" % what)
    m = None
    seen = {}
    alive = set()
    for k, (o, (op, n)) in enumerate(zip(ret.items, ops)):
        a = o.items
        if op == "prune":
            b, f = ints(it, st, a[1], what), ints(it, st, a[3], what)
            d = [str(int(bool(smallnp.decided(x)))) for x in smallnp.items(it, st, a[2])]
            e = [str(int(bool(smallnp.decided(x)))) for x in smallnp.items(it, st, a[4])]
            x, y = sorted(i for i, s in zip(b, d) if s == "0"), sorted(i for i, s in zip(f, e) if s == "0")
            if x != y:
                m = m or "pruning changes the identifiers of the living from %s to %s" % (x, y)
            continue
        old, new = ints(it, st, a[1], what), ints(it, st, a[2], what)
        if op == "extend":
            if new[:len(old)] != old:
                m = m or "growth changes the identifiers of the particles that were there"
            fresh_ = new[len(old):]
            if len(new) != len(old) + max(n, 0):
                m = m or "%d slots after growing %d by %d" % (len(new), len(old), n)
            for i in old:
                seen.setdefault(i, k)
        else:
            fresh_ = new
            if len(new) != n:
                m = m or "%d identifiers for %d particles" % (len(new), n)
        for i in fresh_:
            if i in seen:
                m = m or "step %d gives the identifier %d again" % (k + 1, i)
            seen[i] = k
    return [("history", cls, m is None, what + ": " + (m or ""), LOC)], it.analysed


def carried_job(cls):
    w = world()
    it = prep(w)
    src = HEAD + "def main():\n    q = %s(3, 2)\n    return q.attrs\n" % cls
    eff, ret, st = it.run_func(w.driver(src))
    names = [str(x) for x in ret.items]
    ok = names.count("_id") == 1
    return [("carried", cls, ok, "%s moves, sorts and prunes the attributes %s: %s" % (cls, ", ".join(names), "_id %d times" % names.count("_id")), LOC)], it.analysed


def domain_job(dim, split, spec):
    """all particles of one species over all patches of all ranks"""
    w = world()
    it = prep(w)
    sp, set_ = spec
    it.exact = {atom("sym", "s0")}
    nr = len(split)
    it.intrin["get_num_macro_particles_%dd" % dim] = lambda it_, av, kv, st, n: smallnp.new(it_, st, [P(k % 2 + 1) for k in range(cur[0])])
    src = HEAD + "def main(s0: %s, ph):\n    out = []\n" % sp
    for a, v in set_:
        src += "    s0.%s = %s\n" % (a, v)
    src += "    s0.density = SYM('d')\n    s0.density_jit = SYM('d')\n    s0.ppc_jit = SYM('p')\n    s0.ppc = SYM('p')\n    s0.density_min = 0\n    s0._ispec = 0\n    s0.name = 's'\n"
    cur = [0]

    def setn(it_, av, kv, st, n):
        cur[0] = int(av[0].const())
        return NONE
    it.intrin["SETN"] = setn
    i = 0
    for r, n in enumerate(split):
        src += "    ps = Patches(%d)\n    SETN(%d)\n" % (dim, n)
        for k in range(n):
            src += "    p = Patch%dD(%d, %d, %s, %s, %s, %s)\n    ps.append(p)\n" % (dim, r, i, ", ".join([str(i)] + ["0"] * (dim - 1)), ", ".join([str(4 * i)] + ["0"] * (dim - 1)), ", ".join(["4"] * dim), ", ".join(["1"] * dim))
            i += 1
        src += "    ps.add_species(s0)\n    for p in ps:\n        p.particles[0].extend(1)\n        out.append(p.particles[0]._id)\n"
    src += "    return out\n"
    eff, ret, st = it.run_func(w.driver(src))
    if ret is None:
        raise Broken("adding a species is not followed")
    m = None
    seen = {}
    for k, v in enumerate(ret.items):
        for x in ints(it, st, v, "patch %d" % k):
            if x in seen:
                m = m or "patches %d and %d give the identifier %d to two particles" % (seen[x], k, x)
            seen[x] = k
    key = "%dd %s %s" % (dim, sp, " ".join("%s=%s" % x for x in set_))
    return [("domain", key.strip(), m is None, "%s patches on the ranks: %s" % (list(split), m or ""), ("src/lambdapic/core/patch/patch.py", 0))], it.analysed


# ---------------------------------------------------------------- births
def born_job():
    """functions that turn dead slots alive, and whether new identifiers are given on the way"""
    w = world()
    root = os.path.join(w.root, "src", "lambdapic")
    funcs = {}
    alias = {}
    methods = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, w.root)
            tree = ast.parse(open(p).read())
            for n in tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    for c in ast.walk(n.value):
                        if isinstance(c, ast.Name) and isinstance(n.value, ast.Call):
                            alias.setdefault(n.targets[0].id, set()).add(c.id)
            for n in ast.walk(tree):
                if isinstance(n, ast.FunctionDef):
                    funcs.setdefault(n.name, []).append((rel, n))
                if isinstance(n, ast.ClassDef):
                    for g in n.body:
                        if isinstance(g, ast.FunctionDef):
                            methods.append((rel, n.name, g))

    def calls(fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm:
                    out.add(nm)
                    out |= alias.get(nm, set())
        return out

    def revives(fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(n.value, ast.Constant) and n.value.value in (False, 0) and "dead" in (t.value.id if isinstance(t.value, ast.Name) else t.value.attr if isinstance(t.value, ast.Attribute) else ""):
                        return n.lineno
        return None

    def ids(fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_generate_ids":
                return True
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ""
                    if nm in ("_id", "id") or nm.startswith(("_id_", "id_")):
                        return True
        return False

    def reach(fn):
        seen, todo, out = set(), [fn], []
        while todo:
            g = todo.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            out.append(g)
            for c in calls(g):
                for rel, h in funcs.get(c, []):
                    if "/qed/" in rel or "/pusher/" in rel or "/collision/" in rel:
                        todo.append(h)
        return out
    obs, an = [], set()
    for rel, cn, g in methods:
        if "/qed/" not in rel:
            continue
        r = reach(g)
        rv = [h for h in r if revives(h)]
        if not rv or g.name.startswith("__"):
            continue
        # the outermost method that creates: one called by no other method of its class
        if any(m[1] == cn and m[2] is not g and g.name in calls(m[2]) for m in methods):
            continue
        ok = any(ids(h) for h in r)
        an |= {rel}
        obs.append(("born", "%s.%s" % (cn, g.name), ok, "%s.%s brings dead slots back to life (%s) and leaves the identifier of the particle that was there" % (cn, g.name, ", ".join(sorted(h.name for h in rv))), (rel, g.lineno)))
    if not obs:
        raise Broken("no function creating particles was found")
    return obs, an


def p32(c):
    c.rule("packing", "rank, patch and local number occupy bits of their own in the identifier; numbers beyond its capacity are refused")
    c.rule("history", "initialisation and growth number every slot anew, keep those that are there, and never repeat; pruning keeps those of the living")
    c.rule("carried", "the identifier is one of the attributes that move with the particle")
    c.rule("domain", "no two particles of a species on any patch of any rank start with the same identifier")
    c.rule("born", "a particle created in a dead slot gets an identifier of its own")
    thorough = c.tier == "thorough"
    jobs = [("pack_job", "bits"), ("pack_job", "capacity"), ("born_job",)]
    hist = [(("initialize", 3), ("extend", 2), ("extend", 0), ("extend", 1)),
            (("initialize", 0), ("extend", 2), ("initialize", 3), ("extend", 1)),
            (("initialize", 2), ("extend", 3), ("prune", (3,)), ("extend", 2), ("initialize", 2)),
            (("initialize", 1), ("extend", 4), ("prune", (2, 4)), ("extend", 1), ("prune", ()), ("extend", 2))]
    for cl in CLS:
        jobs.append(("carried_job", cl))
        for h in hist:
            jobs.append(("history_job", cl, h))
    specs = [("Species", ()), ("Proton", ()), ("Electron", (("radiation", "None"), ("polarization", "None"))), ("Electron", (("radiation", "'photons'"), ("polarization", "None"))), ("Electron", (("radiation", "'photons'"), ("polarization", "[1, 0, 0]"))), ("Electron", (("radiation", "None"), ("polarization", "[1, 0, 0]"))), ("Photon", (("electron", "ph"),)), ("Photon", (("electron", "None"),))]
    for dim in (2, 3):
        for s in specs:
            for split in ((3,), (1, 2), (2, 0, 2)) if thorough else ((2, 0, 2),):
                jobs.append(("domain_job", dim, split, s))
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/particles.py", "src/lambdapic/core/patch/patch.py", "src/lambdapic/core/species.py"}
    c.floor("packing", 2)
    c.floor("history", 4)
    c.floor("carried", 4)
    c.floor("domain", 8)
    c.floor("born", 2)
