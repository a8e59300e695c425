"""P06 particle exchange between patches of one rank.

Patches.sync_particles (Python and C) is followed on small patch layouts: slots hold symbolic attributes and a position
class (towards each neighbour, inside, on the edge, dead), so every branch is decided and every attribute can be traced."""
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs, fresh
from .qed import S, flag, same
from fractions import Fraction as F
import itertools

AX = "xyz"
ATTRS = ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "_id"]


def setup(w):
    it = fresh(w)
    it.linker = w.linker
    it.small = it.unroll_par = True
    it.maxdepth = 60
    it.intrin["SYM"] = lambda it_, av, kv, st, n: S(av[0])
    it.intrin["ARR"] = lambda it_, av, kv, st, n: smallnp.new(it_, st, av)
    it.isobj = lambda a: a.kind in ("alloc", "capsule")
    it.newid = 0
    it.pending = {}

    def free(it_, av, kv, st, n):
        v = av[0]
        b, off = it_.base_of(v) if isinstance(v, Ptr) or isinstance(v, Poly) and v.as_atom() is not None else (None, ZERO)
        if b is not None and b.kind == "alloc":
            if b in it_.freed:
                raise smallnp.OutOfRange("a block is freed twice", n.loc)
            if b in it_.alens and b not in it_.bytes:
                raise smallnp.OutOfRange("the storage of an array is freed", n.loc)
            if b in it_.pending.values():
                raise smallnp.OutOfRange("a message buffer is freed before the transfer has completed", n.loc)
            it_.freed.add(b)
        return NONE
    it.intrin["free"] = free

    def ids(it_, av, kv, st, n):
        k = int(av[-1].const())
        it_.newid += k
        return smallnp.new(it_, st, [S("new_id_%d" % (it_.newid - k + i)) for i in range(k)])
    it.intrin["._generate_ids"] = ids
    for nm in ("info", "debug", "warning"):
        it.intrin["." + nm] = lambda it_, av, kv, st, n: NONE
    return it


def dirs(dim):
    return [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d)]


class Layout:
    """patches of a grid; each of n cells of size h; positions of classes are representative"""

    def __init__(self, w, shape, periodic, n=(6, 5, 4), h=(F(2), F(3), F(1, 2))):
        self.dim = len(shape)
        self.shape, self.per = shape, periodic
        self.n, self.h = n[:self.dim], h[:self.dim]
        self.cells = list(itertools.product(*[range(s) for s in shape]))
        self.num = {c: i for i, c in enumerate(self.cells)}
        self.bounds = boundaries(w, self.dim)
        # cell centres: first at 0
        self.lo = [[c[a] * self.n[a] * self.h[a] for a in range(self.dim)] for c in self.cells]
        self.hi = [[l[a] + (self.n[a] - 1) * self.h[a] for a in range(self.dim)] for l in self.lo]
        self.glo = [F(0)] * self.dim
        self.ghi = [shape[a] * self.n[a] * self.h[a] - self.h[a] for a in range(self.dim)]
        self.L = [shape[a] * self.n[a] * self.h[a] for a in range(self.dim)]

    def neighbor(self, i, d):
        c = [x + y for x, y in zip(self.cells[i], d)]
        for a in range(self.dim):
            if not 0 <= c[a] < self.shape[a]:
                if not self.per[a]:
                    return -1
                c[a] %= self.shape[a]
        j = self.num[tuple(c)]
        return j

    def pos(self, i, d, k=0):
        """a position of patch i towards d (0: inside, +-1 outside, +-2 on the edge)"""
        out = []
        for a in range(self.dim):
            h, lo, hi = self.h[a], self.lo[i][a], self.hi[i][a]
            f = F(1 + k, 7 + k) * h
            out.append({-1: lo - h / 2 - f, 1: hi + h / 2 + f, 0: lo + f + k % 2 * h, -2: lo - h / 2, 2: hi + h / 2}[d[a]])
        return out

    def owner(self, i, p, strict=True):
        """patch a position of patch i belongs to afterwards and the position there"""
        d = []
        for a in range(self.dim):
            h = self.h[a]
            d.append(-1 if p[a] < self.lo[i][a] - h / 2 else 1 if p[a] > self.hi[i][a] + h / 2 else 0)
        if not any(d):
            return i, list(p)
        j = self.neighbor(i, d)
        if j < 0:
            return None, None
        q = []
        for a in range(self.dim):
            x = p[a]
            c = self.cells[i][a] + d[a]
            if c < 0:
                x = x + self.L[a]
            elif c >= self.shape[a]:
                x = x - self.L[a]
            q.append(x)
        return j, q

    def source(self, slots, nspec=1, ranks=None, me=0):
        """driver of one rank: slots[spec][patch] = list of None (dead) or direction"""
        dim = self.dim
        np_ = len(self.cells)
        ranks = ranks or [0] * np_
        mine = [i for i in range(np_) if ranks[i] == me]
        where = {i: k for k, i in enumerate(mine)}
        src = "from .core.patch.patch import Patches, Patch%dD\nfrom .core.particles import ParticlesBase\nfrom .core.fields import Fields%dD\n" % (dim, dim)
        names = ["p%d" % i for i in range(np_)]
        parts = [["a%d_%d" % (s, i) for i in range(np_)] for s in range(nspec)]
        src += "def main(ps: Patches, sp, %s, %s, %s):\n" % (", ".join("%s: Patch%dD" % (x, dim) for x in names), ", ".join("f%d: Fields%dD" % (i, dim) for i in range(np_)),
                                                       ", ".join("%s: ParticlesBase" % x for q in parts for x in q))
        num = lambda x: "(%d / %d)" % (x.numerator, x.denominator) if x.denominator != 1 else "(%d)" % x
        for i, nm in enumerate(names):
            if i not in where:
                continue
            for a in range(dim):
                X = AX[a]
                for o in (nm, "f%d" % i):
                    src += "    %s.%s0 = %s\n    %s.n%s = %d\n    %s.d%s = %s\n" % (o, X, num(self.lo[i][a]), o, X, self.n[a], o, X, num(self.h[a]))
            src += "    %s.pml_boundary = []\n    %s.fields = f%d\n    %s.index = %d\n" % (nm, nm, i, nm, i)
            nb = [-1] * len(self.bounds)
            for v, (bn, d) in self.bounds.items():
                if v < len(nb) and any(d):
                    nb[v] = self.neighbor(i, d)
            src += "    %s.neighbor_ipatch = ARR(%s)\n" % (nm, ", ".join(str(where.get(j, -1)) for j in nb))
            src += "    %s.neighbor_index = ARR(%s)\n" % (nm, ", ".join(map(str, nb)))
            src += "    %s.neighbor_rank = ARR(%s)\n" % (nm, ", ".join(str(ranks[j] if j >= 0 and ranks[j] != me else -1) for j in nb))
            src += "    %s.particles = [%s]\n" % (nm, ", ".join(parts[s][i] for s in range(nspec)))
        for s in range(nspec):
            for i in mine:
                o = parts[s][i]
                sl = slots[s][i]
                for a in ATTRS:
                    if a in AX[:dim]:
                        vals = [num(self.pos(i, d, k)[AX.index(a)]) if d is not None else num(self.pos(i, (1, -1, 1)[:dim] if k % 3 else (0, 0, -1)[:dim], 40 + k)[AX.index(a)]) for k, d in enumerate(sl)]
                    else:
                        vals = ['SYM("%s_%s_%d")' % (o, a, k) for k in range(len(sl))]
                    src += "    %s.%s = ARR(%s)\n" % (o, a, ", ".join(vals))
                src += "    %s.is_dead = ARR(%s)\n" % (o, ", ".join(str(d is None) for d in sl))
                src += "    %s.attrs = %r\n    %s.npart = %d\n    %s.extended = False\n    %s._npart_created = %d\n" % (o, ATTRS, o, len(sl), o, o, len(sl))
        src += "    ps.dimension = %d\n    ps.npatches = %d\n    ps.patches = [%s]\n    ps.species = [%s]\n" % (dim, len(mine), ", ".join(names[i] for i in mine), ", ".join(["sp"] * nspec))
        for a in range(dim):
            src += "    ps.%smin_global = %s\n    ps.%smax_global = %s\n" % (AX[a], num(self.glo[a] - self.h[a] / 2), AX[a], num(self.ghi[a] + self.h[a] / 2))
        return src


def judge(L, slots, final):
    """every particle of the final states against the specification; final(patch) -> (interpreter, state) of its rank"""
    bad = {}
    shape, periodic = L.shape, L.per
    np_, nspec = len(L.cells), len(slots)
    for s in range(nspec):
        fin = []
        for i in range(np_):
            it, st = final(i)
            m = st.mem.get(atom("sym", "a%d_%d" % (s, i)))
            fin.append({a: smallnp.items(it, st, m.vals[a]) for a in ATTRS + ["is_dead"]})
            if any(v is None for v in fin[i].values()):
                raise Broken("the arrays of a patch cannot be followed through the exchange")
        arrived = {}
        for i in range(np_):
            N = len(fin[i]["is_dead"])
            if any(len(v) != N for v in fin[i].values()):
                bad.setdefault("intact", "patch %s: attribute arrays of different lengths" % (L.cells[i],))
                continue
            for k in range(N):
                fl = flag(fin[i]["is_dead"][k])
                if fl is None:
                    raise Broken("the dead flag of a slot is not decided: %s" % fin[i]["is_dead"][k])
                if fl:
                    continue
                wv = str(fin[i]["w"][k])
                p = wv.rsplit("_w_", 1)
                if len(p) != 2 or not p[0].startswith("a%d_" % s):
                    bad.setdefault("intact", "patch %s slot %d is alive with weight %s, which is no particle's" % (L.cells[i], k, wv))
                    continue
                o, kk = int(p[0].split("_")[1]), int(p[1])
                arrived.setdefault((o, kk), []).append((i, k))
        for i in range(np_):
            for k, d in enumerate(slots[s][i]):
                where = arrived.pop((i, k), [])
                if d is None:
                    if where:
                        bad.setdefault("dead", "patch %s slot %d was dead: its contents are a live particle of patch %s afterwards" % (L.cells[i], k, L.cells[where[0][0]]))
                    continue
                p = L.pos(i, d, k)
                j, q = L.owner(i, p)
                edge = any(abs(x) == 2 for x in d)
                desc = "%s, patch %s slot %d (%s): " % ("x".join(map(str, shape)) + "".join(" periodic" if x else " open" for x in periodic), L.cells[i], k, "leaving %s" % (d,) if any(abs(x) == 1 for x in d) else "on the edge %s" % (d,) if edge else "staying")
                if j is None:
                    if where:
                        bad.setdefault("left", desc + "leaves the domain but is alive in patch %s" % (L.cells[where[0][0]],))
                    continue
                if len(where) != 1:
                    bad.setdefault("once", desc + "is held %d times afterwards" % len(where))
                    continue
                jj, kk = where[0]
                if jj != j and not edge:
                    bad.setdefault("once", desc + "arrives in patch %s instead of %s" % (L.cells[jj], L.cells[j]))
                    continue
                for a in ATTRS:
                    v = fin[jj][a][kk]
                    if a in AX[:L.dim]:
                        want = q[AX.index(a)] if jj == j else None
                        c = v.const() if isinstance(v, Poly) else None
                        if want is None:
                            continue
                        if c != want:
                            bad.setdefault("intact", desc + "%s is %s afterwards, expected %s" % (a, v, want))
                    elif not same(v, S("a%d_%d_%s_%d" % (s, i, a, k))):
                        bad.setdefault("intact", desc + "its %s is %s afterwards" % (a, v))
                if jj == i and not any(abs(x) == 1 for x in d) and kk != k:
                    bad.setdefault("intact", desc + "moves to slot %d" % kk)
    return bad


def local_job(shape, periodic, pattern, nspec=1):
    w = world()
    it = setup(w)
    L = Layout(w, shape, periodic)
    np_ = len(L.cells)
    slots = [[PATTERNS[pattern](L, s, i) for i in range(np_)] for s in range(nspec)]
    src = L.source(slots, nspec) + "    n = ps.sync_particles()\n    OUT(n)\n    return 0\n"
    got = []
    it.intrin["OUT"] = lambda it_, av, kv, st, n: (got.append(smallnp.items(it_, st, av[0])), NONE)[1]
    tag = "%s %s %s%s" % ("x".join(map(str, shape)), "".join("p" if x else "o" for x in periodic), pattern, " %d species" % nspec if nspec > 1 else "")
    keys = ("once", "intact", "dead", "left")
    try:
        eff, ret, st = it.run_func(w.driver(src))
    except smallnp.OutOfRange as x:
        return [("range", tag, False, str(x), x.loc or ("src/lambdapic/core/patch/sync_particles_%dd.c" % L.dim, 0))], it.analysed
    loc = ("src/lambdapic/core/patch/sync_particles_%dd.c" % L.dim, 0)
    bad = judge(L, slots, lambda i: (it, st))
    return [("exchange", tag + " " + k, k not in bad, bad.get(k, ""), loc) for k in keys] + [("range", tag, True, "", loc)], it.analysed


class Blocked(Exception):
    pass


class Net:
    """messages between the ranks; every send and receive names its partner and its tag, so the outcome is the same
    for every schedule.  A rank is followed until it waits for something its partner has not posted yet, then again
    from the start when the partner got further; sends are taken to complete only when their receive is posted."""

    def __init__(self):
        self.sent, self.posted, self.problem = {}, {}, None

    def install(self, it, me):
        self_, seen, reqs, barriers = self, {"s": {}, "r": {}}, {}, [0]
        it.nbarrier = barriers

        def extent(t):
            n = 1
            for x in t.args[0]:
                n *= x
            return n

        def elements(t):
            sizes, subs, starts = t.args[:3]
            out = []
            for ix in itertools.product(*[range(s) for s in subs]):
                k = 0
                for i, s0, n in zip(ix, starts, sizes):
                    k = k * n + i + s0
                out.append(k)
            return out

        def subarray(it_, av, kv, st, n):
            nd = int(it_.num(av[0]).const())
            q = [tuple(it_.num(it_.load(st, av[j], (P(i),), loc=n.loc)).const() for i in range(nd)) for j in (1, 2, 3)]
            if any(x is None for t in q for x in t):
                raise Broken("the shape of a datatype is not decided")
            q = [tuple(int(x) for x in t) for t in q]
            if any(b < 1 or s < 0 or s + b > z for z, b, s in zip(*q)):
                raise smallnp.OutOfRange("datatype of elements %s from %s of an array %s" % (q[1], q[2], q[0]), n.loc)
            if "C" not in str(av[4]) and it_.num(av[4]).const() not in orders:
                raise Broken("array order of a datatype: %s" % av[4])
            t = atom("mpitype", q[0], q[1], q[2], str(av[5]))
            committed[t] = committed.get(t, False)
            it_.store(st, av[6], (ZERO,), P(t), n.loc)
            return ZERO

        def typeop(x):
            def f(it_, av, kv, st, n):
                v = it_.load(st, av[0], (ZERO,), loc=n.loc)
                a = v.as_atom() if isinstance(v, Poly) else v.base
                if a in committed:
                    committed[a] = x
                return ZERO
            return f

        committed, orders = {}, (0,)      # MPI_ORDER_C

        def envelope(av, kind, loc):
            buf, cnt, typ, other, tag, comm, req = av
            cnt, other, tag = (it.num(x).const() for x in (cnt, other, tag))
            if cnt is None or other is None or tag is None:
                raise Broken("count, partner or tag of a message is not decided")
            cm = str(it.base_of(comm)[0]) if not isinstance(comm, Poly) else str(comm)
            cm = cm.replace("mpi%d" % me, "mpi")
            e = (me, int(other), int(tag), cm) if kind == "s" else (int(other), me, int(tag), cm)
            if (kind, e) in it.pending:
                self_.problem = self_.problem or "two unfinished messages %s cannot be told apart" % self_.show(e + (0,))
            it.pending[kind, e] = it.base_of(buf)[0] if cnt else None
            k = seen[kind].get(e, 0)
            seen[kind][e] = k + 1
            ta = typ.as_atom() if isinstance(typ, Poly) else typ.base if isinstance(typ, Ptr) else None
            if ta is not None and ta.kind == "mpitype":
                if not committed.get(ta, True):
                    self_.problem = self_.problem or "message %s uses a datatype that was freed or never committed" % self_.show(e + (0,))
                idx = [i + r * extent(ta) for r in range(int(cnt)) for i in elements(ta)]
                typ = ta.args[3]
            else:
                nm = str(ta.args[0]) if ta is not None and ta.kind == "addrof" else None
                if nm is None:
                    if ta is not None and ta.kind == "load":
                        raise smallnp.OutOfRange("a datatype that was never created is used", loc)
                    raise Broken("datatype of a message: %s" % typ)
                if nm.replace("ompi_mpi_", "") not in ("double", "long", "unsigned_long", "long_long_int", "int64_t", "uint64_t"):
                    self_.problem = self_.problem or "message %s has elements of type %s, those of the buffer take 8 bytes" % (self_.show(e + (0,)), nm)
                idx = list(range(int(cnt)))
            return e + (k,), buf, idx, str(typ), req

        def isend(it_, av, kv, st, n):
            e, buf, cnt, typ, req = envelope(av, "s", n.loc)
            vals = [it_.load(st, buf, (P(i),), loc=n.loc) for i in cnt]
            self_.sent[e] = (vals, typ, n.loc)
            r = atom("mpireq", "s", P(len(reqs)))
            reqs[r] = ("s", e, (buf, cnt, n.loc))
            it_.store(st, req, (ZERO,), P(r), n.loc)
            return ZERO

        def irecv(it_, av, kv, st, n):
            e, buf, cnt, typ, req = envelope(av, "r", n.loc)
            self_.posted[e] = (len(cnt), typ, n.loc)
            r = atom("mpireq", "r", P(len(reqs)))
            reqs[r] = ("r", e, (buf, cnt, n.loc))
            it_.store(st, req, (ZERO,), P(r), n.loc)
            return ZERO

        def complete(it_, v, st, loc):
            a = v.as_atom() if isinstance(v, Poly) else v.base if isinstance(v, Ptr) else None
            if a not in reqs:
                if a is not None and a.kind == "load":
                    raise smallnp.OutOfRange("a request that was never started is waited for", loc)
                return
            k, e, x = reqs.pop(a)
            it_.pending.pop((k, e[:4]), None)
            if k == "s":
                if e not in self_.posted:
                    raise Blocked("rank %d waits at %s:%s for its message %s to be received" % (me, loc[0].split("/")[-1], loc[1], self_.show(e)))
                for i, w_ in zip(x[1], self_.sent[e][0]):
                    if not same(it_.load(st, x[0], (P(i),), loc=loc), w_):
                        self_.problem = self_.problem or "message %s: the buffer is written before the transfer has completed" % self_.show(e)
            elif k == "r":
                if e not in self_.sent:
                    raise Blocked("rank %d waits at %s:%s for message %s, which nobody sends" % (me, loc[0].split("/")[-1], loc[1], self_.show(e)))
                vals = self_.sent[e][0]
                if len(vals) != len(x[1]):
                    self_.problem = self_.problem or "message %s: %d elements are sent, room for %d is given" % (self_.show(e), len(vals), len(x[1]))
                for i, w_ in zip(x[1], vals):
                    it_.store(st, x[0], (P(i),), w_, loc)

        def waitall(it_, av, kv, st, n):
            for i in range(int(it_.num(av[0]).const())):
                complete(it_, it_.load(st, av[1], (P(i),), loc=n.loc), st, n.loc)
            return ZERO

        def wait(it_, av, kv, st, n):
            complete(it_, it_.load(st, av[0], (ZERO,), loc=n.loc), st, n.loc)
            return ZERO

        def get(it_, av, kv, st, n):
            b = it_.base_of(av[0])[0]
            a = it_.new_alloc()
            m = MemObj()
            m.vals[(ZERO,)] = P(b.args[0]) if b.kind == "val" and isinstance(b.args[0], Atom) else b.args[0] if b.kind == "val" else P(b)
            st.mem[a] = m
            return Ptr(a)

        def setv(i, x):
            def f(it_, av, kv, st, n):
                it_.store(st, av[i], (ZERO,), x, n.loc)
                return ZERO
            return f

        def attr(it_, av, kv, st, n):
            # MPI_TAG_UB: unbounded here
            it_.store(st, av[3], (ZERO,), ZERO, n.loc)
            return ZERO

        def barrier(it_, av, kv, st, n):
            barriers[0] += 1
            return ZERO
        for nm, f in (("MPI_Isend", isend), ("MPI_Type_create_subarray", subarray), ("MPI_Type_commit", typeop(True)), ("MPI_Type_free", typeop(False)), ("MPI_Irecv", irecv), ("MPI_Waitall", waitall), ("MPI_Wait", wait), ("PyMPIComm_Get", get), ("__pyx_api_f_6mpi4py_3MPI_PyMPIComm_Get", get), ("MPI_Comm_rank", setv(1, P(me))),
                      ("MPI_Comm_size", setv(1, P(self.size))), ("MPI_Comm_get_attr", attr), ("MPI_Barrier", barrier)):
            it.intrin[nm] = f

    def run(self, w, driver, tag, loc):
        """every rank's driver to its end; -> final (interpreter, state) by rank or None, obligations, functions"""
        done, analysed = {}, set()
        progress = None
        while len(done) < self.size:
            state = (len(done), len(self.sent), len(self.posted))
            if state == progress:
                return None, [("messages", tag, False, why, loc)], analysed
            progress, why = state, ""
            for me in range(self.size):
                if me in done:
                    continue
                it, src = driver(me)
                self.install(it, me)
                try:
                    eff, ret, st = it.run_func(w.driver(src))
                    done[me] = (it, st)
                except smallnp.OutOfRange as x:
                    return None, [("range", tag, False, str(x), x.loc or loc)], analysed
                except Blocked as x:
                    why = (why + "; " if why else "") + str(x)
                analysed |= it.analysed
        if self.problem:
            return None, [("messages", tag, False, self.problem, loc)], analysed
        left = [k for it, st in done.values() for k in it.pending]
        un = [e for e in self.sent if e not in self.posted] + [e for e in self.posted if e not in self.sent] + [k[1] + (0,) for k in left]
        ty = [e for e in self.sent if e in self.posted and self.sent[e][1] != self.posted[e][1]]
        nb = {it.nbarrier[0] for it, st in done.values()}
        msg = ""
        if un:
            msg = "message %s %s" % (self.show(un[0]), "is never completed" if left and un[0][:4] == left[0][1] else "has no partner")
        elif ty:
            msg = "message %s: sent and received as different types" % self.show(ty[0])
        elif len(nb) > 1:
            msg = "the ranks meet in different numbers of barriers"
        if not self.sent:
            raise Broken("no message is sent between ranks")
        return done, [("messages", tag, not msg, msg, loc), ("range", tag, True, "", loc)], analysed

    @staticmethod
    def show(e):
        return "from rank %d to rank %d, tag %d%s" % (e[0], e[1], e[2], ", occurrence %d" % e[4] if e[4] else "")


class Mixed(Exception):
    pass


class Snap:
    """the patches of a rank between the exchange with other ranks and the local one"""

    def __init__(self, L, slots, ranks, me):
        self.L, self.slots, self.ranks, self.me, self.bad = L, slots, ranks, me, {}

    def __call__(self, it, av, kv, st, n):
        L = self.L
        for s, sl in enumerate(self.slots):
            for i in range(len(L.cells)):
                if self.ranks[i] != self.me:
                    continue
                m = st.mem.get(atom("sym", "a%d_%d" % (s, i)))
                fin = {a: smallnp.items(it, st, m.vals[a]) for a in ATTRS + ["is_dead"]}
                if any(v is None for v in fin.values()):
                    raise Broken("the arrays of a patch cannot be followed through the exchange")
                for k, dead in enumerate(fin["is_dead"]):
                    if flag(dead) is None or flag(dead):
                        continue
                    for a in AX[:L.dim]:
                        if k >= len(fin[a]) or not isinstance(fin[a][k], Poly) or fin[a][k].const() is None:
                            raise Mixed("patch %s slot %d after the exchange between ranks: %s is %s" % (L.cells[i], k, a, fin[a][k] if k < len(fin[a]) else "missing"))
                    p = str(fin["w"][k]).rsplit("_w_", 1)
                    if len(p) == 2:
                        o, kk = int(p[0].split("_")[1]), int(p[1])
                        j, q = L.owner(o, L.pos(o, sl[o][kk], kk)) if sl[o][kk] is not None else (o, None)
                        if j is not None and self.ranks[j] != self.ranks[o] and i != j:
                            self.bad["left"] = "patch %s slot %d: the particle left for patch %s of another rank but is alive after the exchange between ranks" % (L.cells[i], k, L.cells[j])
        return NONE


def mpi_job(shape, periodic, ranks, pattern, nspec=1):
    w = world()
    L = Layout(w, shape, periodic)
    np_ = len(L.cells)
    net = Net()
    net.size = max(ranks) + 1
    slots = [[PATTERNS[pattern](L, s, i) for i in range(np_)] for s in range(nspec)]
    tag = "%s %s on ranks %s %s%s" % ("x".join(map(str, shape)), "".join("p" if x else "o" for x in periodic), "".join(map(str, ranks)), pattern, " %d species" % nspec if nspec > 1 else "")
    loc = ("src/lambdapic/core/mpi/sync_particles_%dd.c" % L.dim, 0)
    def driver(me):
        src = "from .core.mpi.mpi_manager import MPIManager%dD\n" % L.dim
        src += L.source(slots, nspec, ranks, me).replace("def main(", "def main(mpi%d: MPIManager%dD, " % (me, L.dim))
        src += "    mpi%d.patches = ps\n    mpi%d.size = %d\n    mpi%d.rank = %d\n" % (me, me, net.size, me, me)
        for a in AX[:L.dim]:
            src += "    mpi%d.d%s = ps.d%s\n" % (me, a, a)
        src += "    hs = []\n    for s in range(%d):\n        hs.append(mpi%d.sync_particles_start(s))\n    for h in hs:\n        mpi%d.sync_particles_wait(h)\n    SNAP(0)\n    ps.sync_particles()\n    return 0\n" % (nspec, me, me)
        it = setup(w)
        it.intrin["SNAP"] = Snap(L, slots, ranks, me)
        return it, src
    try:
        done, obs, analysed = net.run(w, driver, tag, loc)
    except Mixed as x:
        return [("exchange", tag + " intact", False, str(x), loc)], set()
    if done is None:
        return obs, analysed
    bad = judge(L, slots, lambda i: done[ranks[i]])
    for it, st in done.values():
        for k, v in it.intrin["SNAP"].bad.items():
            bad.setdefault(k, v)
    return [("exchange", tag + " " + k, k not in bad, bad.get(k, ""), loc) for k in ("once", "intact", "dead", "left")] + obs, analysed


def p_each(nd):
    def f(L, s, i):
        sl = [d for d in dirs(L.dim)]
        out = [None] * (nd // 2) + sl[:len(sl) // 2] + [(0,) * L.dim] + [None] * (nd - nd // 2) + sl[len(sl) // 2:]
        return out
    return f


def p_mixed(L, s, i):
    """patches of very different contents"""
    ds = dirs(L.dim)
    k = (i + s) % 4
    z = (0,) * L.dim
    if k == 0:
        return [ds[(i + j) % len(ds)] for j in (0, 0, 1, 3)] + [z, None]
    if k == 1:
        return [None, None, None, z]
    if k == 2:
        return []
    return [z, ds[-1], None, ds[-1], ds[i % len(ds)]]


def p_edge(L, s, i):
    z = [0] * L.dim
    out = []
    for a in range(L.dim):
        for e in (-2, 2):
            q = list(z)
            q[a] = e
            out.append(tuple(q))
            q2 = list(q)
            q2[(a + 1) % L.dim] = 1
            out.append(tuple(q2))
    return out + [None]


PATTERNS = {"full": p_each(0), "some dead": p_each(3), "many dead": p_each(12), "mixed": p_mixed, "edges": p_edge}


def p06(c):
    c.rule("exchange", "every particle leaving towards a patch of this rank is held exactly once by it, all attributes unchanged but the periodic shift; staying particles and dead slots are untouched")
    c.rule("range", "no element outside an array or block is read or written")
    jobs = []
    for pat in PATTERNS:
        jobs += [("local_job", s, p, pat) for s, p in (((3, 3), (1, 1)), ((2, 2), (1, 0)), ((1, 1), (1, 1)), ((2, 1), (0, 1)), ((2, 2, 2), (1, 1, 0)), ((3, 1, 1), (1, 1, 1)), ((1, 2, 3), (0, 1, 1)))]
    jobs += [("local_job", (2, 2), (1, 1), "mixed", 2), ("local_job", (2, 1, 2), (1, 0, 1), "mixed", 2)]
    if c.tier == "thorough":
        jobs += [("local_job", s, p, pat) for pat in PATTERNS for s in ((3, 2), (1, 3), (2, 3)) for p in itertools.product((0, 1), repeat=2)]
        jobs += [("local_job", s, p, pat) for pat in PATTERNS for s in ((3, 3, 3), (1, 1, 1), (2, 3, 1)) for p in ((0, 0, 0), (1, 1, 1), (1, 0, 1))]
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/patch/patch.py", "src/lambdapic/core/patch/sync_particles_2d.c", "src/lambdapic/core/patch/sync_particles_3d.c", "src/lambdapic/core/particles.py"}
    c.floor("exchange", 140)
    c.floor("range", 37)


def p07(c):
    c.rule("exchange", "every particle leaving towards a patch of another rank is held exactly once by it, all attributes unchanged but the periodic shift; everything else is held exactly once where it belongs")
    c.rule("messages", "sender and receiver agree on partner, tag, type and number of elements of every message, every message has a partner, and nobody waits for ever even when sends complete only on reception")
    c.rule("range", "no element outside an array or block, and none never stored, is read or written")
    lay = [((2, 1), (0, 0), (0, 1)), ((2, 1), (1, 1), (0, 1)), ((1, 2), (1, 1), (1, 0)), ((2, 2), (1, 0), (0, 1, 1, 0)), ((2, 2), (1, 1), (0, 0, 1, 2)), ((3, 3), (1, 1), (0, 0, 1, 0, 1, 1, 2, 2, 2)),
           ((2, 2, 2), (1, 1, 0), (0, 0, 1, 0, 1, 1, 0, 1)), ((3, 1, 1), (1, 1, 1), (0, 1, 2)), ((1, 1, 2), (0, 1, 1), (0, 1)), ((1, 3, 1), (0, 0, 1), (1, 0, 1))]
    jobs = [("mpi_job",) + x + (pat,) for pat in PATTERNS for x in lay]
    jobs += [("mpi_job", (2, 2), (1, 1), (0, 1, 1, 0), "mixed", 3), ("mpi_job", (2, 1, 2), (1, 0, 1), (0, 1, 0, 1), "mixed", 2)]
    if c.tier == "thorough":
        jobs += [("mpi_job", (2, 3), p, tuple(r)) + (pat,) for pat in PATTERNS for p in itertools.product((0, 1), repeat=2) for r in ((0, 1, 0, 1, 0, 1), (0, 0, 0, 1, 1, 1), (0, 1, 2, 3, 2, 0))]
        jobs += [("mpi_job", (2, 2, 3), p, tuple(k % 3 for k in range(12))) + (pat,) for pat in PATTERNS for p in ((1, 1, 1), (0, 1, 0), (1, 0, 1))]
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/mpi/mpi_manager.py", "src/lambdapic/core/mpi/sync_particles_2d.c", "src/lambdapic/core/mpi/sync_particles_3d.c", "src/lambdapic/core/patch/patch.py", "src/lambdapic/core/particles.py"}
    c.floor("exchange", 200)
    c.floor("messages", 50)
    c.floor("range", 50)
