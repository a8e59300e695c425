"""P21: every rank reaches the same collectives; every non-blocking message completes (see spmd.py, pyreq.py, cmem.py)."""
from ..spmd import Program, ops
from ..pyreq import Req


def p21(c):
    from ..world import world
    from . import extensions
    w = world()
    c.rule("uniform", "no collective operation (or call that reaches one) is executed, skipped or repeated under a condition that can differ between ranks, unless every alternative reaches the same sequence")
    c.rule("requests", "every non-blocking message posted from python is waited for on every path, its buffer is not written before")
    c.rule("completion", "every non-blocking message posted in the compiled extensions is completed on every path before its buffers or requests are released")
    P = Program(w.root)
    P.build()
    P.coll_fix()
    for f in P.fns:
        P.trace_of(f)
    for f in P.fns:
        # the interactive reload loop restarts a script after errors: not a parallel program
        if f not in P.hascoll or f.mod.short.startswith("cli"):
            continue
        own = sorted({what for kind, what in f.sites if kind == "op"} | {"callback" for kind, what in f.sites if kind == "user"} | {
            "call:" + g.name for kind, what in f.sites if kind == "fns" for g in what if g in P.hascoll})
        found = getattr(f, "found", [])
        c.units.add(f.mod.path)
        c.functions.add(f.qual)
        for key, msg, loc in found:
            c.ob("uniform", key, False, msg, loc)
        if not found:
            for o in own:
                c.ob("uniform", "%s/%s" % (f.qual, o), True, "", (f.mod.path, f.node.lineno))
    n = len(P.hascoll)
    c.need(n >= 30, "only %d functions reach a collective operation" % n)

    def find(nm):
        return (P.byname.get(nm, []) + P.meths.get(nm, [])) if nm else []
    for f in P.fns:
        r = Req(f, find)
        r.run()
        for line in sorted(r.nposts):
            bad = [(k, m) for (k, l), m in sorted(r.bad.items()) if l == line]
            if not bad:
                c.ob("requests", "%s#%d" % (f.qual, sorted(r.nposts).index(line)), True, "", (f.mod.path, line))
            for k, m in bad:
                c.ob("requests", "%s/%s" % (f.qual, k), False, m, (f.mod.path, line))
        if r.nposts:
            c.units.add(f.mod.path)
            c.functions.add(f.qual)
    extensions._run(c, w, ("completion",))
    c.floor("uniform", 60)
    c.floor("requests", 4)
    c.floor("completion", 8)
    c.assume("configuration given by the user (species, grid, callbacks and their interval functions) is the same on every rank; an exception that ends a rank ends the run; h5py files opened with a driver are collective")
