"""Local (same-rank) guard-field copy and current reduction, 2D and 3D."""
from ..grid import *


def setup(w, dim):
    it = w.interp()
    cls = w.cls("core.patch.patch", "Patches")
    me = w.self_of(it, cls)
    n = [w.attr(it, cls, me, "n" + x) for x in "xyz"[:dim]]
    ng = w.attr(it, cls, me, "n_guard")
    grid_facts(it, n, ng)
    return it, cls, me, n, ng


def container_of(it, cls, me, w):
    """the list object that holds the patches"""
    v = w.attr(it, cls, me, "patches")
    return v.as_atom()


def accesses(w, c, dim, meth, args):
    it, cls, me, n, ng = setup(w, dim)
    fn = w.method(cls, meth)
    eff, ret, st = it.run_func(fn, args=args, self_val=me, defaults=True)
    w.note(c, it)
    dimat = w.attr(it, cls, me, "dimension").as_atom()
    R = GridRegions(it, {dimat: P(dim)})
    acc = R.collect(eff, lambda l: isinstance(l, Store) and l.base.kind not in ("alloc", "local", "cell", "row"))
    return it, R, acc, container_of(it, cls, me, w), n, ng, me, cls


def layout(w, c):
    """field arrays have n+2*guard cells per axis in C order"""
    c.rule("layout", "every field array of a patch has n_a+2*n_guard cells along axis a, C order")
    for dim in (2, 3):
        cls = w.cls("core.fields", "Fields%dD" % dim)
        it = w.interp(link=False)
        me = w.self_of(it, cls)
        fn = w.method(cls, "__init__")
        eff, ret, st = it.run_func(fn, self_val=me)
        w.note(c, it)
        got = {}
        for leaf, loops, pc in flat(eff):
            if isinstance(leaf, Store) and leaf.base is me.as_atom() and isinstance(leaf.key, str):
                got[leaf.key] = leaf
        sh = got.get("shape")
        exp = Tup([atom_sum("n" + x) for x in "xyz"[:dim]])
        c.ob("layout", "Fields%dD.shape" % dim, sh is not None and sh.val == exp, "shape is %s" % (sh.val if sh else None), sh.loc if sh else None)
        for a in ["n" + x for x in "xyz"[:dim]] + ["n_guard"]:
            s = got.get(a)
            c.ob("layout", "Fields%dD.%s" % (dim, a), s is not None and s.val == P(atom("sym", a)), "is %s" % (s.val if s else None), s.loc if s else None)


def atom_sum(nm):
    return P(atom("sym", nm)) + 2 * P(atom("sym", "n_guard"))


def by_key(R, acc, container, c, rule, dim):
    """group stores by (attr, neighbour value pattern)"""
    groups = {}
    return groups


def guard(c, w=None):
    w = w or world()
    c.rule("guard-copy", "for each boundary direction the only writes are guard strip := neighbour interior strip, same attribute, guarded exactly by 'neighbour on this rank'")
    c.assume("all patches of a rank have the same shape; n_guard >= 1 and n_a >= n_guard")
    c.assume("neighbour patch indices come from the neighbour tables (separate topology property)")
    layout(w, c)
    for dim in (2, 3):
        for attrs in (("ex", "ey", "ez"), ("bx", "by", "bz"), None):
            args = {"attrs": Tup(attrs, "list")} if attrs else {}
            it, R, acc, cont, n, ng, me, cls = accesses(w, c, dim, "sync_guard_fields", args)
            npat = w.attr(it, cls, me, "npatches")
            check_copies(c, w, R, acc, cont, n, ng, dim, attrs or EFIELDS, npat, "guard-copy", guard_copy_spec, False)
    c.floor("guard-copy", 2 * 8 * 3)


def currents(c, w=None):
    w = w or world()
    c.rule("current-add", "for each boundary direction interior strip += neighbour guard strip, exactly once, for jx,jy,jz,rho")
    c.rule("current-clear", "each guard strip that was added is zeroed after it is read, and nothing else is written")
    c.assume("all patches of a rank have the same shape; n_guard >= 1 and n_a >= n_guard")
    layout(w, c)
    for dim in (2, 3):
        it, R, acc, cont, n, ng, me, cls = accesses(w, c, dim, "sync_currents", {})
        npat = w.attr(it, cls, me, "npatches")
        check_copies(c, w, R, acc, cont, n, ng, dim, CURRENTS, npat, "current-add", current_spec, True)
    c.floor("current-add", 4 * (8 + 26))
    c.floor("current-clear", 4 * (8 + 26))


def check_copies(c, w, R, acc, cont, n, ng, dim, attrs, npat, rule, spec, reduce):
    bnds = boundaries(w, dim)
    c.need(len(bnds) == 3 ** dim - 1, "Boundary%dD has %d members" % (dim, len(bnds)))
    plan = {}      # (attr, b) -> list of (desc, access)
    clears = {}
    for a in acc:
        key = "%dD/store@%s" % (dim, c.loc(a.loc))
        tgt = patch_of(a.base, cont)
        if tgt is None or a.idx is None:
            c.ob(rule, "%dD/unexpected-write:%s" % (dim, a.base), False, "writes %s[%s]" % (a.base, a.idx), a.loc)
            continue
        pidx, path = tgt
        if len(path) != 2 or path[0] != "fields":
            c.ob(rule, "%dD/unexpected-write:%s" % (dim, ".".join(path)), False, "writes %s" % (a.base,), a.loc)
            continue
        attr = path[1]
        # the patch loop
        pd = [d for d in a.dims if P(d.var) == pidx]
        rest = [d for d in a.dims if P(d.var) != pidx]
        if not a.val.t:
            # clearing a neighbour's guard strip: pidx = neighbour_ipatch[b] of loop patch
            nb = neighbour(pidx, cont)
            if nb is None:
                c.ob(rule, "%dD/%s/zeroed-not-a-neighbour" % (dim, attr), False, "zeroes %s[%s]" % (a.base, a.idx), a.loc)
                continue
            kv, b = nb
            pd = [d for d in a.dims if P(d.var) == kv]
            rest = [d for d in a.dims if P(d.var) != kv]
            desc = R.lmad(rest, a.idx)
            clears.setdefault((attr, b), []).append((desc, a, pd))
            continue
        loads, rem = copy_parts(a.val)
        srcs = []
        selfadd = 0
        ok = not rem.t
        for co, ld in loads:
            if co != 1:
                ok = False
            if ld.args[0] is a.base and ld.args[1] == (a.idx,):
                selfadd += 1
            else:
                srcs.append(ld)
        if not ok or len(srcs) != 1 or selfadd != (1 if reduce else 0):
            c.ob(rule, "%dD/%s/value" % (dim, attr), False, "stores %s into %s[%s]" % (a.val, a.base, a.idx), a.loc)
            continue
        ld = srcs[0]
        sp = patch_of(ld.args[0], cont)
        nb = neighbour(sp[0], cont) if sp else None
        if sp is None or nb is None or nb[0] != pidx or sp[1] != path:
            c.ob(rule, "%dD/%s/source" % (dim, attr), False, "source of %s[%s] is %s" % (a.base, a.idx, ld), a.loc)
            continue
        desc = R.lmad(rest, a.idx, ld.args[1][0])
        plan.setdefault((attr, nb[1]), []).append((desc, a, pd))
    for attr in attrs:
        for b, (nm, d) in sorted(bnds.items()):
            key = "%dD/%s/%s" % (dim, attr, nm)
            got = plan.pop((attr, b), [])
            exp = spec(R, n, ng, d)
            compare(c, R, rule, key, got, exp, cont, b, npat)
            if reduce:
                gc = clears.pop((attr, b), [])
                compare(c, R, "current-clear", key, gc, R.canon(*_p(exp, 1)), cont, b, npat,
                        after=[x[1].order for x in got])
    for (attr, b), got in list(plan.items()) + list(clears.items()):
        c.ob(rule, "%dD/%s/unknown-boundary-%s" % (dim, attr, b), False, "unexpected strip transfer", got[0][1].loc)


def _p(desc, i):
    offs, dims = part(desc, i)
    return offs, [(list(s), n) for s, n in dims]


def neighbour(p, cont):
    """p == npdata(container[k].neighbor_ipatch)[b]  ->  (k poly, b int)"""
    if not isinstance(p, Poly):
        return None
    a = p.as_atom()
    if a is None or a.kind != "load" or len(a.args[1]) != 1:
        return None
    t = patch_of(a.args[0], cont)
    if t is None or t[1] != ("neighbor_ipatch",):
        return None
    b = a.args[1][0]
    if not isinstance(b, Poly) or b.const() is None:
        return None
    return t[0], int(b.const())


def compare(c, R, rule, key, got, exp, cont, b, npat, after=None):
    if not got:
        c.ob(rule, key, False, "no transfer for this boundary; expected %s" % show_desc(exp))
        return
    loc = got[0][1].loc
    descs = R.merge([g[0] for g in got])
    ok = len(descs) == 1 and descs[0] == exp
    msg = "" if ok else "region is %s expected %s" % (" + ".join(map(show_desc, descs)), show_desc(exp))
    for desc, a, pd in got:
        if len(pd) != 1:
            ok, msg = False, "not executed once per patch (patch loop %s)" % (a.dims,)
            continue
        if not eqn(pd[0].n, npat):
            ok, msg = False, "patch loop covers %s of %s patches" % (pd[0].n, npat)
        cond = ~lt0(np_load(cont, P(pd[0].var), ("neighbor_ipatch",), P(b)))
        if not alg.b_equiv(a.pc, cond):
            ok, msg = False, "executed under %s, expected exactly %s" % (a.pc, cond)
        if after is not None and after and min(after) and a.order < max(after):
            ok, msg = False, "guard strip cleared before it is read"
    c.ob(rule, key, ok, msg, loc)


def eqn(a, b):
    return a == b
