"""P20: memory, references and the interpreter lock in the compiled extensions (see cmem.py)."""
import glob
import os
from ..cfront import CUnit
from ..cmem import Engine, TooComplex
from ..ir import walk


def units(w):
    root = os.path.join(w.root, "src", "lambdapic")
    out = []
    for p in sorted(glob.glob(root + "/**/*.c", recursive=True)):
        if "PyModuleDef" in open(p, errors="replace").read():
            rel = os.path.relpath(p, os.path.join(w.root, "src"))[:-2].replace(os.sep, ".")
            out.append((rel, p))
    return out


def analyse(w, rel):
    """one extension module; returns (obligations {(rule,key): (ok,msg,loc)}, stats)"""
    u = w.linker.unit(rel)
    found = {}
    eng = Engine(u, lambda rule, key, msg, loc: found.setdefault((rule, key), (msg, loc)))
    meths = u.methods()
    entries = sorted(set(meths.values()))
    inits = [n for n in u.funcs if n.startswith("PyInit_")]
    obs = []
    funcs = set()
    short = rel[len("lambdapic."):]
    broken = []
    for name in entries + inits:
        found.clear()
        eng.calls = set()
        eng.paths = eng.nmsg = eng.apicalls = 0
        eng.relmemo = {k: v for k, v in eng.relmemo.items()}
        loc = (u.funcs[name].file, u.funcs[name].line)
        try:
            res = eng.run_entry(name)
            caps = [(s, v) for s, v in res if v[0] == "obj" and s.objs[v[1]][1] == "new:PyCapsule_New"]
            eng.finish(name, [(s.copy(), v) for s, v in res], None)
            # a capsule goes on living: dropped at once, or handed to the functions that accept it
            for s, v in caps:
                eng.entry = name + "+drop"
                d = s.copy()
                eng.decref(d, v, loc, 0)
                r2 = eng.flush(d, ("n", 0))
                eng.finish(name, r2, None)
                for other in entries:
                    if other == name or not takes_capsule(u, other):
                        continue
                    eng.entry = name + "+" + other
                    d = s.copy()
                    from ..cmem import Scope
                    eng.cur, eng.ptrvars, eng.stack = Scope(0), set(), []
                    a = eng.newobj(d, "borrowed:args", loc, 0, (("items", (v,)),))
                    r2 = eng.inline(d, other, [S0, a], loc)
                    fin = []
                    for s2, v2 in r2:
                        if v2[0] == "null":
                            continue
                        eng.decref(s2, v, loc, 0)
                        fin += eng.flush(s2, v2)
                    eng.finish(other, fin, None)
        except TooComplex as e:
            broken.append("%s/%s: %s" % (short, name, e))
            continue
        for (rule, key), (msg, l) in found.items():
            obs.append((rule, "%s/%s" % (short, key), False, msg, l))
        bad = {r for r, k in found}
        for rule in ("references", "buffers", "lock") + (("completion",) if eng.nmsg else ()):
            if rule not in bad:
                obs.append((rule, "%s/%s" % (short, name), True, "", loc))
        funcs |= eng.calls
    return obs, funcs, broken


S0 = ("s", "self")


def takes_capsule(u, fn):
    return any(n.op == "call" and n.a[0].op == "name" and n.a[0].a[0] == "PyCapsule_GetPointer" for n in walk(u.funcs[fn].body))


def job(w, rel):
    obs, funcs, broken = analyse(w, rel)
    return obs, funcs, broken


def p20(c):
    from ..world import world
    from . import topology
    w = world()
    c.rule("references", "every reference taken is released or handed over exactly once, and none that is not owned is released or returned, on every path of every exported function")
    c.rule("buffers", "every allocated block is released exactly once on every path, memory of an array never is, and none is used after its release")
    c.rule("lock", "the interpreter lock is held at every call into the interpreter and at every return")
    _run(c, w, ("references", "buffers", "lock"))
    for r, n in (("references", 40), ("buffers", 40), ("lock", 40)):
        c.floor(r, n)
    c.assume("allocation failures are only followed where the source tests for them; objects passed by the caller stay alive during the call")


def _run(c, w, rules):
    from concurrent.futures import ProcessPoolExecutor
    us = units(w)
    c.need(len(us) >= 12, "extension modules not found")
    with ProcessPoolExecutor(8) as ex:
        for (rel, p), (obs, funcs, broken) in zip(us, ex.map(_one, [r for r, _ in us])):
            c.units.add(p)
            c.functions |= {"%s:%s" % (rel[len("lambdapic."):], f) for f in funcs}
            for b in broken:
                c.break_(b)
            for rule, key, ok, msg, loc in obs:
                if rule in rules:
                    c.ob(rule, key, ok, msg, loc)


def _one(rel):
    import sys
    sys.setrecursionlimit(20000)
    from ..world import world
    return analyse(world(), rel)
