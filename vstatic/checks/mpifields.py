"""P03 guard cells mirrored from, and P04 currents added to, neighbours held by another rank.

The managers and the compiled exchange are followed on small grids whose cells hold distinct symbols, all ranks together;
messages are matched by partner, tag and communicator.  Every cell of every array is compared afterwards."""
from ..world import *
from ..interp import *
from .. import alg, smallnp
from .topology import run_jobs
from .qed import S, same
from .exchange import Layout, Net, setup, AX
import itertools

smallnp.LIMIT = max(smallnp.LIMIT, 2048)
EB = ["ex", "ey", "ez", "bx", "by", "bz"]
JR = ["jx", "jy", "jz", "rho"]


def flat(c, N):
    k = 0
    for i, n in zip(c, N):
        k = k * n + i % n
    return k


def extents(n, ng):
    N = [x + 2 * ng for x in n]
    size = 1
    for x in N:
        size *= x
    return N, size


def fields_job(kind, shape, periodic, ranks, n, ng, passes=1, attrs=None, before=None):
    """before: (cells, guard) of another simulation of the same process that has synchronised earlier"""
    w = world()
    L = Layout(w, shape, periodic, n)
    dim = L.dim
    np_ = len(L.cells)
    net = Net()
    net.size = max(ranks) + 1
    comps = JR if kind == "currents" else attrs or EB
    N, size = extents(L.n, ng)
    tag = "%s %s %s on ranks %s cells %s guard %d%s" % (kind, "x".join(map(str, shape)), "".join("p" if x else "o" for x in periodic), "".join(map(str, ranks)), "x".join(map(str, L.n)), ng, " twice" if passes > 1 else " after cells %s guard %d" % ("x".join(map(str, before[0])), before[1]) if before else "")
    loc = ("src/lambdapic/core/mpi/sync_fields%dd.c" % dim, 0)

    def self_source(g, n_, ng_, k, me, mine):
        mpi, ps = "mpi%d%s" % (me, g), "ps" + g
        src = "    %s.dimension = %d\n    %s.npatches = %d\n    %s.patches = [%s]\n    %s.patches = %s\n    %s.size = %d\n    %s.rank = %d\n    %s.n_guard = %d\n" % (
            ps, dim, ps, len(mine), ps, ", ".join("p%d%s" % (i, g) for i in mine), mpi, ps, mpi, net.size, mpi, me, mpi, ng_)
        for a in range(dim):
            src += "    %s.n%s_per_patch = %d\n" % (mpi, AX[a], n_[a])
        size_ = extents(n_, ng_)[1]
        for i in mine:
            nb = [-1] * len(L.bounds)
            for v, (bn, d) in L.bounds.items():
                if v < len(nb) and any(d):
                    nb[v] = L.neighbor(i, d)
            p, f = "p%d%s" % (i, g), "f%d%s" % (i, g)
            src += "    %s.fields = %s\n    %s.index = %d\n" % (p, f, p, i)
            src += "    %s.neighbor_index = ARR(%s)\n    %s.neighbor_rank = ARR(%s)\n" % (p, ", ".join(map(str, nb)), p, ", ".join(str(ranks[j] if j >= 0 and ranks[j] != me else -1) for j in nb))
            for c in sorted(set(comps + JR + EB) if size < 200 else comps):
                src += "    %s.%s = CELLS('%s_%s', %d)\n" % (f, c, f, c, size_)
        for _ in range(k):
            if kind == "currents":
                src += "    %s.sync_currents_wait(%s.sync_currents_start())\n" % (mpi, mpi)
            elif attrs:
                src += "    %s.sync_guard_fields_wait(%s.sync_guard_fields_start(%r))\n" % (mpi, mpi, attrs)
            else:
                src += "    %s.sync_guard_fields()\n" % mpi
        return src

    def driver(me):
        mine = [i for i in range(np_) if ranks[i] == me]
        src = "from .core.mpi.mpi_manager import MPIManager%dD\nfrom .core.patch.patch import Patches, Patch%dD\nfrom .core.fields import Fields%dD\n" % (dim, dim, dim)
        runs = [("", L.n, ng, passes)] + ([("b",) + before + (1,)] if before else [])
        src += "def main(%s):\n" % ", ".join("mpi%d%s: MPIManager%dD, ps%s: Patches, %s" % (me, g, dim, g, ", ".join("p%d%s: Patch%dD, f%d%s: Fields%dD" % (i, g, dim, i, g, dim) for i in mine)) for g, n_, ng_, k in runs)
        for g, n_, ng_, k in runs[::-1]:
            src += self_source(g, n_, ng_, k, me, mine)
        src += "    return 0\n"
        it = setup(w)
        it.intrin["CELLS"] = lambda it_, av, kv, st, nd: smallnp.new(it_, st, [S("%s_%d" % (av[0], k)) for k in range(int(av[1].const()))])
        return it, src

    done, obs, analysed = net.run(w, driver, tag, loc)
    if done is None:
        return obs, analysed
    want = {}
    interior = set(itertools.product(*[range(x) for x in L.n]))
    allc = list(itertools.product(*[range(-ng, x + ng) for x in L.n]))
    for i in range(np_):
        for c in comps:
            for x in allc:
                want.setdefault((i, c, x), S("f%d_%s_%d" % (i, c, flat(x, N))))
    base = dict(want)
    for i in range(np_):
        for x in allc:
            d = tuple(-1 if x[a] < 0 else 1 if x[a] >= L.n[a] else 0 for a in range(dim))
            if not any(d):
                continue
            j = L.neighbor(i, d)
            if j < 0 or ranks[j] == ranks[i]:
                continue
            y = tuple(x[a] - d[a] * L.n[a] for a in range(dim))
            for c in comps:
                if kind == "guards":
                    want[i, c, x] = base[j, c, y]
                else:
                    want[j, c, y] = want[j, c, y] + base[i, c, x]
                    want[i, c, x] = ZERO
    bad = {}
    for i in range(np_):
        it, st = done[ranks[i]]
        m = st.mem.get(atom("sym", "f%d" % i))
        for c in sorted(k for k in m.vals if k in set(JR + EB)):
            arr = smallnp.items(it, st, m.vals[c])
            if arr is None or len(arr) != size:
                raise Broken("component %s of a patch cannot be followed through the exchange" % c)
            for x in allc:
                d = tuple(-1 if x[a] < 0 else 1 if x[a] >= L.n[a] else 0 for a in range(dim))
                k = "guard" if any(d) else "interior"
                if c not in comps:
                    k = "other"
                wv = want.get((i, c, x), S("f%d_%s_%d" % (i, c, flat(x, N))))
                if not same(arr[flat(x, N)], wv):
                    bad.setdefault(k, "patch %s cell %s of %s is %s, expected %s" % (L.cells[i], x, c, arr[flat(x, N)], wv))
    keys = ("guard", "interior", "other") if size < 200 else ("guard", "interior")
    return [(kind, tag + " " + k, k not in bad, bad.get(k, ""), loc) for k in keys] + obs, analysed


def lay(thorough):
    out = [((2, 1), (0, 0), (0, 1), (5, 4), 2), ((1, 2), (1, 1), (1, 0), (4, 5), 3), ((2, 2), (1, 1), (0, 1, 2, 0), (3, 4), 2), ((2, 2), (1, 0), (0, 1, 1, 0), (3, 4), 1),
           ((3, 3), (1, 1), (0, 0, 1, 0, 1, 1, 2, 2, 2), (3, 2), 2), ((3, 3), (0, 1), (1, 0, 1, 0, 1, 0, 1, 0, 1), (4, 3), 2),
           ((2, 1, 1), (1, 1, 1), (0, 1), (3, 4, 2), 2), ((1, 2, 1), (0, 1, 0), (0, 1), (2, 3, 4), 2), ((1, 1, 2), (1, 0, 1), (1, 0), (4, 2, 3), 2), ((2, 2, 2), (1, 1, 1), (0, 1, 1, 0, 1, 0, 0, 1), (2, 3, 2), 1), ((2, 2, 2), (0, 1, 0), (0, 0, 1, 1, 2, 2, 0, 2), (2, 2, 3), 1)]
    if thorough:
        out += [((2, 3), p, r, (5, 3), 3) for p in itertools.product((0, 1), repeat=2) for r in ((0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 2, 2))]
        out += [((2, 2, 2), p, (0, 1, 1, 0, 1, 0, 0, 1), (3, 4, 2), 2) for p in ((1, 1, 1), (1, 0, 1), (0, 0, 0))]
        out += [((3, 1, 2), (1, 1, 1), (0, 1, 2, 0, 1, 2), (3, 2, 4), 2)]
    return out


def check(c, kind):
    c.rule("messages", "sender and receiver agree on partner, tag, type and number of elements of every message, every message has a partner and is completed, nobody waits for ever even when sends complete only on reception, no buffer is touched while in flight")
    c.rule("range", "no element outside an array or block, and none never stored, is read or written")
    jobs = [("fields_job", kind) + x for x in lay(c.tier == "thorough")]
    jobs += [("fields_job", kind) + x + (2,) for x in (((2, 1), (1, 1), (0, 1), (3, 2), 2), ((2, 1, 1), (1, 1, 1), (0, 1), (2, 2, 2), 1))] if kind == "guards" else []
    if kind == "guards":
        jobs += [("fields_job", kind, (2, 1), (1, 0), (0, 1), (3, 2), 1, 1, None, b) for b in (((4, 2), 1), ((3, 3), 1), ((3, 2), 2), ((2, 1), 1))]
        jobs += [("fields_job", kind, (1, 1, 2), (1, 0, 0), (0, 1), (2, 3, 2), 1, 1, None, b) for b in (((3, 3, 2), 1), ((2, 2, 2), 1), ((2, 3, 3), 1))]
        jobs += [("fields_job", kind, (2, 1), (1, 0), (0, 1), (3, 2), 1, 1, a) for a in (["bx", "by", "bz"], ["ez"])]
    run_jobs(c, jobs, mod=globals())
    c.units |= {"src/lambdapic/core/mpi/mpi_manager.py", "src/lambdapic/core/mpi/sync_fields2d.c", "src/lambdapic/core/mpi/sync_fields3d.c"}
    c.floor(kind, 22)
    c.floor("messages", 11)
    c.floor("range", 11)


def p03(c):
    c.rule("guards", "guard cells towards a patch of another rank hold the value of that patch's interior cell at the same place for every component exchanged, no other cell changes")
    check(c, "guards")


def p04(c):
    c.rule("currents", "every guard-cell value towards a patch of another rank is added exactly once to that patch's interior cell at the same place and is zero afterwards, no other cell changes")
    check(c, "currents")
