"""P08 parallel regions: no element is written by one iteration and touched by another that may run at the same time.

Three analyses.  `private`: dataflow over the C syntax tree, every variable written inside a parallel region is declared inside
it, private to the thread or a reduction.  `owned`: in the effect tree of the particle, field and JIT kernels (symbolic sizes)
all accesses of a parallel loop to an array it writes agree in one index that is a one-to-one function of the loop variable.
`conflict`: the exchange, sort, creation and collision kernels, whose accesses depend on the contents, are followed iteration
by iteration on enumerated layouts with symbolic contents, and every element touched is recorded with its iteration."""
from ..world import *
from ..interp import *
from ..ir import walk, N
from .. import alg, race, interp as interp_, smallnp
from ..particle import strip_np
from . import exchange, mpifields, sorting, qed, collide, kernels
from .topology import run_jobs, fresh
from .exchange import Layout, setup, S
import itertools, os

OMPLOOP = ("ParallelFor", "For", "ParallelForSimd", "DistributeParallelFor")


def rel(loc):
    return (str(loc[0]).split("/repo/")[-1].split("/src/")[-1], loc[1]) if loc else None


# ------------------------------------------------------------------ private variables (C)

def idents(text):
    return set(__import__("re").findall(r"[A-Za-z_]\w*", text))


def shared_writes(omp, statics, fields_of):
    """[(name, loc)] variables declared outside the region and written inside without being private"""
    directive, clauses, body = omp.a
    priv = set()
    for nm, x in clauses:
        if nm in ("private", "firstprivate", "lastprivate", "linear"):
            priv |= idents(x)
        elif nm in ("reduction", "copyprivate"):
            priv |= idents(x.split(":", 1)[-1])
    if directive in OMPLOOP:
        n = 1
        for nm, x in clauses:
            if nm == "collapse" and x.isdigit():
                n = int(x)
        b = body
        for _ in range(n):
            f = [s for s in b if s.op == "cfor"]
            while not f and len(b) == 1 and b[0].op == "block":
                b = b[0].a[0]
                f = [s for s in b if s.op == "cfor"]
            if not f:
                break
            for s in walk(list(f[0].a[0])):
                if s.op in ("assign",) and s.a[0].op == "name":
                    priv.add(s.a[0].a[0])
            b = f[0].a[3]
    out = []

    def target(t, inside, loc):
        while t.op in ("attr", "cast"):
            if t.op == "attr" and len(t.a) > 2 and t.a[2]:
                return
            t = t.a[0]
        base, arr = t, False
        while base.op in ("sub", "cast", "attr"):
            arr = arr or base.op == "sub"
            base = base.a[0]
        if base.op == "name":
            nm = base.a[0]
            if arr and nm not in fields_of["[]"]:
                return
            if nm not in inside and nm not in priv:
                out.append((nm, loc))

    def scan(x, inside, sync):
        if isinstance(x, (list, tuple)):
            inside = set(inside)
            for y in x:
                inside = scan(y, inside, sync) or inside
            return inside
        if not isinstance(x, N):
            return inside
        if x.op == "omp":
            d, cl, b = x.a
            if d in ("Critical", "Atomic", "Single", "Master", "Masked"):
                return inside
            ins = set(inside)
            if d in OMPLOOP or d == "Parallel":
                out.extend((nm, l) for nm, l in shared_writes(x, statics, fields_of) if nm not in inside)
                return inside
            scan(b, ins, sync)
            return inside
        if x.op == "decl":
            scan([v for v in x.a if isinstance(v, N)], inside, sync)
            if not (len(x.a) > 3 and x.a[3] is True):
                return inside | {x.a[0]}
            return inside
        if x.op == "cfor":
            ins = scan(x.a[0], inside, sync) if isinstance(x.a[0], (list, tuple)) else inside
            scan([x.a[1]], ins, sync)
            scan(x.a[3], ins, sync)
            scan([x.a[2]], ins, sync)
            return inside
        if x.op == "assign":
            target(x.a[0], inside, x.loc)
        elif x.op == "aug":
            target(x.a[1], inside, x.loc)
        elif x.op == "incdec":
            target(x.a[1], inside, x.loc)
        elif x.op == "set":
            for t in x.a[0]:
                target(t, inside, x.loc)
        elif x.op == "augset":
            target(x.a[1], inside, x.loc)
        elif x.op == "call":
            for i, y in enumerate(x.a[1]):
                while isinstance(y, N) and y.op == "cast":
                    y = [z for z in y.a if isinstance(z, N)][-1]
                if isinstance(y, N) and y.op == "addr" and y.a[0].op == "name" and y.a[0].a[0] in fields_of["*"] and stores_through(x.a[0], i, fields_of["funcs"]):
                    target(y.a[0], inside, x.loc)
        for y in x.a:
            if isinstance(y, (N, list, tuple)):
                if x.op == "block":
                    scan(y, inside, sync)
                elif isinstance(y, N):
                    scan(y, inside, sync)
                else:
                    scan(list(y), inside, sync)
        return inside
    scan(list(body), set(), False)
    return out


def arrays_of(fn, funcs):
    """names of local arrays of a function (an element of them is part of the variable) and of all its variables"""
    out = {"[]": set(), "*": {p[0] for p in fn.params}, "funcs": funcs}
    for n in walk(fn.body):
        if n.op == "decl":
            out["*"].add(n.a[0])
            if "[" in str(n.a[1]):
                out["[]"].add(n.a[0])
    return out


def stores_through(f, i, funcs, seen=()):
    """may the called function store through its i-th argument"""
    if f.op != "name" or f.a[0] not in funcs:
        return f.op != "name" or not f.a[0].startswith("Py")
    fn = funcs[f.a[0]]
    if f.a[0] in seen or i >= len(fn.params):
        return False
    nm, ty = fn.params[i][:2]
    if "const" in str(ty):
        return False
    al = {nm}
    for n in walk(fn.body):
        if n.op == "decl" and n.a[2] is not None and any(x.op == "name" and x.a[0] in al for x in walk(n.a[2])) and "*" in str(n.a[1]):
            al.add(n.a[0])
    for n in walk(fn.body):
        t = n.a[0] if n.op == "assign" else n.a[1] if n.op in ("aug", "incdec", "augset") else None
        for t in [t] if isinstance(t, N) else list(n.a[0]) if n.op == "set" else []:
            d = 0
            while isinstance(t, N) and t.op in ("sub", "attr", "cast", "deref"):
                d += t.op != "cast"
                t = t.a[0]
            if d and isinstance(t, N) and t.op == "name" and t.a[0] in al:
                return True
        if n.op == "call":
            for j, y in enumerate(n.a[1]):
                if any(x.op == "name" and x.a[0] in al for x in walk(y)) and y.op in ("name", "cast", "bin", "addr") and n.a[0].op == "name" and n.a[0].a[0] not in PUREC and stores_through(n.a[0], j, funcs, seen + (f.a[0],)):
                    return True
    return False


PUREC = {"sqrt", "floor", "fabs", "exp", "pow", "free"}


def called(x, funcs):
    return {n.a[0].a[0] for n in walk(x) if n.op == "call" and n.a[0].op == "name" and n.a[0].a[0] in funcs}


def static_writes(fn, unit):
    """[(name, loc)] variables with static storage a function writes"""
    st = {n.a[0] for n in walk(fn.body) if n.op == "decl" and len(n.a) > 3 and n.a[3] is True and not str(n.a[1]).startswith("const")}
    loc = {n.a[0] for n in walk(fn.body) if n.op == "decl"} - st | {p[0] for p in fn.params}
    gl = {k for k, g in unit.globals.items()} - loc
    out = []
    for n in walk(fn.body):
        t = n.a[0] if n.op == "assign" else n.a[1] if n.op in ("aug", "incdec", "augset") else None
        ts = [t] if isinstance(t, N) else list(n.a[0]) if n.op == "set" else []
        for t in ts:
            while isinstance(t, N) and t.op in ("sub", "attr", "cast", "deref"):
                t = t.a[0]
            if isinstance(t, N) and t.op == "name" and t.a[0] in st | gl:
                out.append((t.a[0], n.loc))
    return out


def private(c):
    w = world()
    regions = 0
    for root, ds, fs in sorted(os.walk(os.path.join(w.root, "src", "lambdapic"))):
        for f in sorted(fs):
            if not f.endswith(".c"):
                continue
            path = os.path.join(root, f)
            if "omp" not in open(path, errors="replace").read():
                continue
            dotted = os.path.relpath(path, os.path.join(w.root, "src"))[:-2].replace("/", ".")
            u = w.linker.unit(dotted)
            if u is None:
                from ..cfront import CUnit
                u = CUnit(path)
            c.units.add(os.path.relpath(path, w.root))
            for name, fn in u.funcs.items():
                if fn.file and os.path.realpath(fn.file) != os.path.realpath(path):
                    continue
                k = 0
                inner = set()
                for x in walk(fn.body):
                    if x.op != "omp" or id(x) in inner or x.a[0] not in OMPLOOP + ("Parallel",):
                        continue
                    for y in walk(list(x.a[2])):
                        inner.add(id(y))
                    bad = shared_writes(x, None, arrays_of(fn, u.funcs))
                    todo, seen = called(list(x.a[2]), u.funcs), set()
                    while todo:
                        g = todo.pop()
                        if g in seen:
                            continue
                        seen.add(g)
                        bad += static_writes(u.funcs[g], u)
                        todo |= called(u.funcs[g].body, u.funcs) - seen
                    k += 1
                    regions += 1
                    c.functions.add("%s:%s" % (os.path.relpath(path, w.root), name))
                    c.ob("private", "%s.%s %d" % (dotted.split(".", 1)[-1], name, k), not bad,
                         "variable %s is shared by the threads of the parallel region at line %s and written at line %s without being private or a reduction" % (bad[0][0], x.loc[1], bad[0][1][1] if bad[0][1] else "?") if bad else "",
                         bad[0][1] if bad else x.loc)
    return regions


# ------------------------------------------------------------------ owned arrays (effect trees)

def chain(base, key):
    """(signature, [index components]) of an array element"""
    sig, idx = [], []

    def go(b):
        b = strip_np(b)
        if not isinstance(b, Atom):
            sig.append(str(b))
            return
        if b.kind == "load" and len(b.args) >= 2 and isinstance(b.args[0], Atom):
            go(b.args[0])
            comp(b.args[1])
            return
        if b.kind == "attr" and isinstance(b.args[0], Atom):
            go(b.args[0])
            sig.append("." + str(b.args[1]))
            return
        if b.kind == "ptr":
            go(b.args[0])
            comp((b.args[1],))
            return
        sig.append(b)

    def comp(k):
        for x in k if isinstance(k, tuple) else (k,):
            sig.append("[]")
            idx.append(x)
    go(base)
    comp(key)
    return tuple(sig), idx


def accesses(L):
    """(mode, base, key, loc) in the body of a parallel loop"""
    for e, loops, pc in flat(L.body):
        vals = [pc]
        if e.kind == "store":
            yield "w", e.base, e.key, e.loc
            vals += [e.val, e.key]
        elif e.kind == "call":
            vals += list(e.args)
            if e.name in ("memset", "memcpy", "memmove") and e.args:
                a = e.args[0]
                b = a.as_atom() if isinstance(a, Poly) else getattr(a, "base", None)
                if b is not None:
                    yield "w", b, ("*",), e.loc
        for v in vals + [x for l in loops for x in (l.lo, l.hi)]:
            try:
                deep = atoms_deep(v)
            except Exception:
                continue
            for a in deep:
                if a.kind == "load" and isinstance(a.args[0], Atom):
                    yield "r", a.args[0], a.args[1], e.loc


def owned_loop(it, L):
    """None, or (message, location)"""
    v = L.var
    groups = {}
    for mode, b, k, loc in accesses(L):
        b0 = strip_np(b)
        root = b0
        while isinstance(root, Atom) and root.kind in ("attr", "load", "ptr", "row", "npdata", "dims") and root.args and isinstance(root.args[0], Atom):
            root = root.args[0]
        if isinstance(root, Atom):
            if root.kind in ("local", "cell"):
                if v in it.born.get(root, ()):
                    continue
            if root.kind == "alloc" and any(isinstance(x, Poly) and x.as_atom() is v for x in root.args[1:]):
                continue
        sig, idx = chain(b, k)
        # components of the key beyond the shorter form (row of an array) still compare position by position
        groups.setdefault(tuple(x for x in sig if x != "[]"), []).append((mode, idx, loc, b, k))
    for sig, acc in groups.items():
        ws = [a for a in acc if a[0] == "w"]
        if not ws:
            continue
        n = min(len(a[1]) for a in acc)
        ok = False
        for p in range(n):
            comps = [a[1][p] for a in acc]
            if own(it, v, comps):
                ok = True
                break
        if not ok:
            dep = [a for a in ws if not any(v in atoms_deep(x) for x in a[1] if not isinstance(x, str))]
            if dep:
                return "every iteration writes %s%s" % (str(dep[0][3])[:120], "" if dep[0][4] == ("*",) else str(dep[0][4])[:60]), dep[0][2]
            other = [a for a in acc if not any(same_comp(x, y) for x, y in zip(a[1], ws[0][1]))]
            o = other[0] if other else ws[0]
            return "element %s of %s is written by one iteration and %s by another (element %s)" % (str(ws[0][1])[:80], str(ws[0][3])[:80], "written" if o[0] == "w" else "read", str(o[1])[:80]), ws[0][2]
    return None


def same_comp(x, y):
    return x == y


def own(it, v, comps):
    """the index components are one and the same one-to-one function of the loop variable (or c*v + r with 0 <= r < c)"""
    first = comps[0]
    if not isinstance(first, Poly):
        return False
    def lin(x):
        """(coefficient, rest) with x = coefficient*v + rest, rest free of v; None otherwise"""
        if not isinstance(x, Poly):
            return None
        r0 = subst_v(x, v, ZERO)
        r1 = subst_v(x, v, ONE)
        r2 = subst_v(x, v, P(2))
        if r0 is None or not alg.is_zero(r2 - r1 - (r1 - r0)):
            return None
        c = r1 - r0
        if v in atoms_deep(r0) or v in atoms_deep(c) or not alg.is_zero(x - c * P(v) - r0):
            return None
        return c, r0
    ls = [lin(x) for x in comps]
    if any(l is None for l in ls):
        return False
    c0, r0 = ls[0]
    if alg.is_zero(c0):
        return False
    if any(not alg.is_zero(c - c0) for c, r in ls):
        return False
    if c0.const() is not None and all(alg.is_zero(r - r0) for c, r in ls) and not any(a.kind in ("lv", "phi") and a is not v and a in inner_vars(it) for a in atoms_deep(r0)):
        return True
    # c*v + r, 0 <= r < c
    for c, r in ls:
        s1 = alg.sign_affine(r, it.bounds, {}) if r.t else "0"
        d = c - r
        s2 = alg.sign_affine(d, it.bounds, {})
        if s1 not in ("+", "0", "0+", ">=0") or s2 != "+":
            return False
    return True


def inner_vars(it):
    return INNER[0]


INNER = [set()]


def subst_v(x, v, val):
    try:
        return it_subst(x, {v: val})
    except Exception:
        return None


def it_subst(x, mp):
    return alg.subst(x, lambda a: mp.get(a), {})


def par_loops(eff, inside=False):
    for e in eff:
        if e.kind == "loop":
            if e.parallel and not inside:
                yield e
            yield from par_loops(e.body, inside or bool(e.parallel))


def inner_of(L):
    return {l.var for l in kernels.all_loops(L.body)}


def judge_tree(it, eff, tag):
    obs = []
    n = {}
    for L in par_loops(eff):
        INNER[0] = inner_of(L)
        r = owned_loop(it, L)
        f = rel(L.loc)
        k = n[f] = n.get(f, 0) + 1
        nm = "%s %s" % (tag, os.path.basename(f[0]))
        obs.append(("owned", nm, r is None, r[0] if r else "", r[1] if r else L.loc))
    return obs


def kernel_job(dim, what):
    w = world()
    r = kernels.Run(w, dim, what, None)
    alg.FACTS = None
    obs = judge_tree(r.it, r.eff, "%dD %s" % (dim, what))
    if not obs:
        raise Broken("no parallel loop reached in %dD %s" % (dim, what))
    return obs, r.it.analysed


def prange_functions(w):
    out = []
    for name, m in sorted(w.pkg.mods.items()):
        for fn, f in sorted(m.funcs.items()):
            if any(n.op == "for" and any(x.op == "call" and (x.a[0].op == "name" and x.a[0].a[0] == "prange" or x.a[0].op == "attr" and x.a[0].a[1] == "prange") for x in walk(n.a[1])) for n in walk(f.body)):
                out.append((name, fn))
    return out


class Late(BaseException):
    pass


LIMIT = 10


def jit_job(name, fn):
    """a JIT kernel on symbolic arguments; its lists hold different arrays"""
    w = world()
    it = fresh(w)
    f = w.pkg.mods[name].funcs[fn]
    short = name.split(".", 1)[-1]
    import signal

    def late(*a):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        eff, ret, st = it.run_func(f, args=[P(atom("sym", p[0])) for p in f.params])
    except Late:
        # formulas of the body too large to be followed for symbolic contents: the recorded runs decide its accesses
        eff = None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if eff is None:
        return [("carried", "%s.%s" % (short, fn), not x, "%s is carried from one iteration of a parallel loop to the next" % (x and x[0][0]), x and x[0][1] or None) for x in [carried(f)]], it.analysed
    obs = [(r, "%s.%s" % (short, fn), ok, m, l) for r, k, ok, m, l in judge_tree(it, eff, "")]
    if not obs:
        raise Broken("no parallel loop found in %s.%s" % (short, fn))
    for nm, loc in carried(f):
        obs.append(("carried", "%s.%s" % (short, fn), False, "%s is carried from one iteration of a parallel loop to the next" % nm, loc))
    if not any(o[0] == "carried" for o in obs):
        obs.append(("carried", "%s.%s" % (short, fn), True, "", None))
    return obs, it.analysed


def carried(f):
    """variables of a prange loop read in an iteration before they are set in it, and set in it (not a reduction)"""
    out = []
    for n in walk(f.body):
        if n.op != "for" or not any(x.op == "call" and (x.a[0].op == "name" and x.a[0].a[0] == "prange" or x.a[0].op == "attr" and x.a[0].a[1] == "prange") for x in walk(n.a[1])):
            continue
        target, _, body, _ = n.a
        sets, augs = {}, {}
        for x in walk(list(body)):
            if x.op == "set":
                for t in x.a[0]:
                    for y in names_of(t):
                        sets.setdefault(y, x.loc)
            elif x.op == "augset" and x.a[1].op == "name":
                augs.setdefault(x.a[1].a[0], x.loc)
        exp = exposed(list(body), set(names_of(target)))
        for y, l in sets.items():
            if y in exp:
                out.append((y, l))
        for y, l in augs.items():
            if y in exp and y not in sets:
                # a reduction when the loop uses it in no other way
                uses = sum(1 for x in walk(list(body)) if x.op == "name" and x.a[0] == y)
                own_ = sum(1 for x in walk(list(body)) if x.op == "augset" and x.a[1].op == "name" and x.a[1].a[0] == y)
                if uses > own_:
                    out.append((y, l))
    return out


def names_of(t):
    if t.op == "name":
        return [t.a[0]]
    if t.op in ("tuple", "list"):
        return [y for x in t.a[0] for y in names_of(x)]
    return []


def exposed(stmts, defd):
    """names that may be read before they are set on some path through the statements"""
    exp = set()

    def reads(x, d):
        for n in walk(x):
            if n.op == "name" and n.a[0] not in d:
                exp.add(n.a[0])

    def go(ss, d):
        d = set(d)
        for s in ss:
            if s.op == "set":
                reads(s.a[1], d)
                for t in s.a[0]:
                    if t.op == "name":
                        d.add(t.a[0])
                    elif t.op in ("tuple", "list"):
                        d |= set(names_of(t))
                        for x in t.a[0]:
                            if x.op not in ("name",):
                                reads(x, d)
                    else:
                        reads(t, d)
            elif s.op == "augset":
                reads(s.a[2] if len(s.a) > 2 else (), d)
                reads(s.a[1], d)
                if s.a[1].op == "name":
                    d.add(s.a[1].a[0])
            elif s.op == "if":
                reads(s.a[0], d)
                a, b = go(s.a[1], d), go(s.a[2] or [], d)
                ea, eb = ends(s.a[1]), ends(s.a[2] or [])
                d = b if ea and not eb else a if eb and not ea else a & b
            elif s.op == "for":
                reads(s.a[1], d)
                go(s.a[2], d | set(names_of(s.a[0])))
            elif s.op == "while":
                reads(s.a[0], d)
                go(s.a[1], d)
            elif s.op == "block":
                d = go(s.a[0], d)
            else:
                reads(s, d)
        return d
    go(stmts, defd)
    return exp


def ends(ss):
    return bool(ss) and ss[-1].op in ("continue", "break", "return", "raise")


# ------------------------------------------------------------------ recorded conflicts

def local_fields_job(kind, shape, periodic, n, ng):
    w = world()
    L = Layout(w, shape, periodic, n)
    dim, np_ = len(shape), len(L.cells)
    N_, size = mpifields.extents(L.n, ng)
    it = setup(w)
    it.intrin["CELLS"] = lambda it_, av, kv, st, nd: smallnp.new(it_, st, [S("%s_%d" % (av[0], k)) for k in range(int(av[1].const()))])
    src = "from .core.patch.patch import Patches, Patch%dD\nfrom .core.fields import Fields%dD\n" % (dim, dim)
    src += "def main(ps: Patches, %s):\n" % ", ".join("p%d: Patch%dD, f%d: Fields%dD" % (i, dim, i, dim) for i in range(np_))
    src += "    ps.dimension = %d\n    ps.npatches = %d\n    ps.patches = [%s]\n" % (dim, np_, ", ".join("p%d" % i for i in range(np_)))
    for i in range(np_):
        nb = [-1] * len(L.bounds)
        for v, (bn, d) in L.bounds.items():
            if v < len(nb) and any(d):
                nb[v] = L.neighbor(i, d)
        src += "    p%d.fields = f%d\n    f%d.n_guard = %d\n    p%d.index = %d\n    p%d.pml_boundary = []\n" % (i, i, i, ng, i, i, i)
        for a in range(dim):
            for o in ("p%d" % i, "f%d" % i):
                src += "    %s.n%s = %d\n" % (o, "xyz"[a], n[a])
        src += "    p%d.neighbor_ipatch = ARR(%s)\n    p%d.neighbor_index = ARR(%s)\n    p%d.neighbor_rank = ARR(%s)\n" % (i, ", ".join(map(str, nb)), i, ", ".join(map(str, nb)), i, ", ".join("-1" for _ in nb))
        for c in ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"):
            src += "    f%d.%s = CELLS('f%d_%s', %d)\n" % (i, c, i, c, size)
    src += "    ps.sync_%s()\n    return 0\n" % ("currents" if kind == "currents" else "guard_fields")
    eff, ret, st = it.run_func(w.driver(src))
    return [], it.analysed


def record(modname, fn, *args):
    """follow a job of another check with every parallel access recorded"""
    import importlib
    rs = []

    def mk():
        r = race.Race()
        rs.append(r)
        return r
    interp_.RECORDER[0] = mk
    try:
        mod = importlib.import_module("vstatic.checks." + modname)
        g = getattr(mod, fn)
        try:
            obs, analysed = g(*args)
        except smallnp.OutOfRange:
            obs, analysed = [], set()
    finally:
        interp_.RECORDER[0] = None
    w = world()
    out, seen = [], set()
    for r in rs:
        r.barrier()
        bad = {}
        for loc, msg in r.report():
            bad.setdefault(loc, msg)
        for loc, (its, acc) in r.regions.items():
            seen.add((region_name(w, loc), its > 0))
        for loc, msg in bad.items():
            out.append(("conflict", func_at(w, loc), False, msg, loc))
    if not seen:
        raise Broken("no parallel loop is reached by %s.%s%s" % (modname, fn, args))
    for k, x in sorted(seen):
        out.append(("conflict", k, True, "", None))
    return out, analysed


FUNCS = {}


def func_at(w, loc):
    """function around a location"""
    if not isinstance(loc, tuple) or not loc[0]:
        return str(loc)
    f = os.path.realpath(str(loc[0]))
    if f not in FUNCS:
        fs = []
        if f.endswith(".c") or f.endswith(".h"):
            d = os.path.relpath(f, os.path.join(os.path.realpath(w.root), "src"))[:-2].replace("/", ".")
            u = w.linker.unit(d)
            if u is not None:
                fs = [(x.line, x.name) for x in u.funcs.values() if x.file and os.path.realpath(x.file) == f]
        else:
            for m in w.pkg.mods.values():
                for x in list(m.funcs.values()):
                    if x.file and os.path.realpath(os.path.join(w.root, "src", x.file)) == f or os.path.realpath(str(x.file)) == f:
                        fs.append((x.line, x.name))
        FUNCS[f] = sorted(x for x in fs if isinstance(x[0], int))
    best = None
    for l, nm in FUNCS[f]:
        if l <= loc[1]:
            best = nm
    return "%s.%s" % (os.path.basename(f).split(".")[0], best or "?")


region_name = func_at


def p08(c):
    c.rule("private", "every variable written inside a parallel region of compiled code is declared inside it, private to the thread or a reduction; functions called there write nothing of static storage")
    c.rule("owned", "all accesses of a parallel loop to an array it writes agree in one index that is a one-to-one function of the loop variable")
    c.rule("carried", "no variable of a parallel JIT loop is carried from one iteration to the next, reductions excepted")
    c.rule("conflict", "no element is written by one iteration of a parallel loop and touched by another between two barriers")
    w = world()
    private(c)
    jobs = [("kernel_job", d, k) for d in (2, 3) for k in ("fused", "boris", "pushpos", "photon", "interp", "deposit", "reset")]
    jobs += [("jit_job",) + x for x in prange_functions(w)]
    thorough = c.tier == "thorough"
    R = lambda m, f, *a: jobs.append(("record", m, f) + a)
    for pat in exchange.PATTERNS if thorough else ("full", "mixed"):
        for s, p in (((2, 2), (1, 1)), ((3, 2), (1, 0)), ((2, 2, 2), (1, 1, 0)), ((1, 2, 3), (0, 1, 1))):
            R("exchange", "local_job", s, p, pat)
        for x in (((2, 2), (1, 1), (0, 0, 1, 0)), ((2, 3), (1, 1), (0, 1, 0, 0, 1, 1)), ((2, 2, 2), (1, 1, 0), (0, 0, 1, 0, 1, 1, 0, 1))):
            R("exchange", "mpi_job", *(x + (pat,)))
    for kind in ("guards", "currents"):
        for x in (((2, 2), (1, 1), (0, 1, 0, 0), (3, 4), 2), ((3, 3), (1, 1), (0, 0, 1, 0, 1, 1, 2, 2, 2), (3, 2), 2), ((2, 2, 2), (1, 1, 1), (0, 1, 1, 0, 1, 0, 0, 1), (2, 3, 2), 1)):
            R("mpifields", "fields_job", kind, *x)
        for x in (((2, 2), (1, 1), (3, 4), 2), ((3, 3), (1, 1), (3, 2), 2), ((3, 2), (0, 0), (2, 3), 2), ((2, 2, 2), (1, 1, 1), (2, 3, 2), 1), ((3, 1, 2), (0, 1, 0), (2, 2, 2), 1)):
            R("races", "local_fields_job", kind, *x)
    cells = lambda nb: list(itertools.product(*[range(x) for x in nb]))
    P2, P3 = cells((2, 3)) + [None, "out"], cells((2, 3, 2)) + [None, "out"]
    for d, nb, n, Q in ((2, (2, 3), (2, 3), P2), (3, (2, 3, 2), (2, 3, 2), P3)):
        var = [p for m in (2, 5, 7) for p in [tuple(Q[(k * s + t) % len(Q)] for k in range(m)) for s, t in ((1, 0), (3, 1), (5, 4))]]
        R("sorting", "job", d, nb, n, False, var, True, "sort")
    for d in (2, 3):
        for p in qed.emission_cases("quick")[::7]:
            R("qed", "emission_job", d, p)
        for p in qed.pair_cases("quick")[::7]:
            R("qed", "pair_job", d, p)
    R("collide", "cells_job", "mixed")
    R("collide", "cells_job", "pairs")
    run_jobs(c, jobs, mod=globals())
    c.floor("private", 40)
    c.floor("owned", 40)
    c.floor("carried", 30)
    c.floor("conflict", 25)
    c.assume("different entries of a list of arrays handed to a kernel are different arrays (decided by P11 for the package's own lists); different array arguments do not overlap")
    c.assume("iterations are independent tasks; threads that share an iteration's schedule are not relied on; MPI calls are made from several threads only as the library permits")
