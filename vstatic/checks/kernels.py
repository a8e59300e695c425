"""Particle kernels: field gather (P14), current deposit (P15), momentum push (P16), position push (P17),
the fused kernel (P10) and the guards of dead slots (P18), 2D and 3D."""
from ..world import *
from ..particle import *
from .. import alg

SRC = """
from typing import List
from lambdapic.core.pusher.pusher import BorisPusher, PhotonPusher
from lambdapic.core.interpolation.field_interpolation import FieldInterpolation{d}D
from lambdapic.core.current.deposition import CurrentDeposition{d}D
from lambdapic.core.patch.patch import Patches, Patch{d}D
def main(plist: List[Patch{d}D], so, sp, dt):
    ps = Patches(dimension={d})
    ps.patches = plist
    ps.npatches = len(plist)
    ps.species.append(so)
    ps.species.append(sp)
{body}
"""

BODY = {
    "fused": "    s = BorisPusher(ps, 1)\n    s(dt, unified=True)",
    "boris": "    s = BorisPusher(ps, 1)\n    s(dt, unified=False)",
    "pushpos": "    s = BorisPusher(ps, 1)\n    s.push_position(dt)",
    "photon": "    s = PhotonPusher(ps, 1)\n    s.push_position(dt)\n    s(dt)",
    "interp": "    s = FieldInterpolation{d}D(ps)\n    s(1)",
    "deposit": "    s = CurrentDeposition{d}D(ps)\n    s(1, dt)",
    "reset": "    s = CurrentDeposition{d}D(ps)\n    s.reset()",
}
AX = "xyz"
CL = P(299792458)
DT = sym("dt")


def D(a):
    return sym("D" + AX[a])


def NT(a, case=None):
    if case is None:
        return sym("NT" + AX[a], isint=True)
    return (case.cells[a] if case.cells[a].const() is None else P(3)) + 5 + slackint("NT" + AX[a])


NG = sym("NG", isint=True)


def org(a, patch):
    return P(atom("org", AX[a], patch))


class Case:
    """class of particle positions: per axis the interpolation cell (i, which half of the cell) and the deposit
    cell with the cell shift of the step"""

    def __init__(self, dim, cells, halves, i0, s, name):
        self.dim, self.cells, self.halves, self.i0, self.s, self.name = dim, cells, halves, i0, s, name


def slackint(n):
    return P(atom("slack", n, isint=True))


def facts_of(dim, case=None):
    f = {}
    for a in range(dim):
        f["n" + AX[a]] = lambda b, a=a: NT(a, case) - 2 * NG
        f["d" + AX[a]] = lambda b, a=a: D(a)
        f[AX[a] + "0"] = lambda b, a=a: org(a, strip_fields(b))
    f["n_guard"] = lambda b: NG
    return f


def strip_fields(b):
    b = strip_np(b)
    if b.kind == "attr" and b.args[1] == "fields":
        return b.args[0]
    return b


class Run:
    """one analysed kernel under one case"""

    def __init__(self, w, dim, what, case=None, finals=None, pass1=False):
        self.w, self.dim, self.what, self.case, self.pass1 = w, dim, what, case, pass1
        self.reads = set()
        it = self.it = w.interp()
        self.finals = finals
        it.cut = self.cut = Cutter(self.param if case is not None else None, facts_of(dim, case))
        alg.FACTS = self.ranges()
        try:
            fn = w.driver(SRC.format(d=dim, body=BODY[what].format(d=dim)))
            self.eff, ret, st = it.run_func(fn, defaults=True)
        finally:
            pass

    def ranges(self):
        f = {"range": {}, "pos": {DT.as_atom()}}
        for a in range(self.dim):
            f["pos"].add(D(a).as_atom())
        if self.case is not None:
            h = P(1) / 2
            for a in range(self.dim):
                for nm in ("ra", "rb"):
                    lo, hi = (0, h.const()) if self.case.halves[a] == 0 else (h.const(), 1)
                    f["range"][self.r(nm, a).as_atom()] = (lo, hi)
                for nm in ("r0", "r1"):
                    f["range"][self.r(nm, a).as_atom()] = (0, 1)
        return f

    def r(self, nm, a):
        return sym(nm + AX[a])

    # ------------------------------------------------------------ parametrisation
    def u(self, k, a):
        """start (0) and end (1) of the step in cells, relative to the origin"""
        c = self.case
        return c.i0[a] + (0 if k == 0 else c.s[a]) + self.r("r%d" % k, a) - P(1) / 2

    def interp_x(self, a, nm="rb"):
        return self.case.cells[a] + self.r(nm, a)

    def final(self, d):
        if self.what == "deposit":
            return d is None
        return d is not None and (self.finals is None or (d.attr, d.loc, d.depth) in self.finals)

    def value(self, attr, d, patch):
        """value given to the particle attribute (definition d, None: original content), or None to leave it"""
        if attr in AX[:self.dim]:
            a = AX.index(attr)
            if self.pass1:
                return org(a, patch) + D(a) * self.interp_x(a)
            if self.final(d):
                return org(a, patch) + D(a) * (self.u(0, a) + self.u(1, a)) / 2
            return org(a, patch) + D(a) * self.interp_x(a, "ra" if d is None and self.what == "fused" else "rb")
        if self.pass1 and attr in ("ux", "uy", "uz") and d is not None:
            return ZERO
        if self.what in ("fused", "deposit") and self.final(d):
            if attr in ("ux", "uy", "uz") and attr[1] in AX[:self.dim]:
                a = AX.index(attr[1])
                return (self.u(1, a) - self.u(0, a)) * D(a) / (CL * DT * IG)
            if attr == "inv_gamma":
                return IG
        return None

    def param(self, cut, attr, d, owner, key):
        if attr not in WATCH:
            return None
        self.reads.add((attr, key))
        return self.value(attr, d, owner[0])


WATCH = ("x", "y", "z", "ux", "uy", "uz", "inv_gamma")
IG = sym("IG")


def leaves(eff):
    """stores to particle and field arrays: (kind, owner, store, loops, path condition)"""
    out = []
    for e, loops, pc in flat(eff):
        if e.kind == "store":
            o = owner(e.base)
            if o is not None:
                out.append((o, e, loops, pc))
            else:
                out.append((None, e, loops, pc))
    return out



# ------------------------------------------------------------------ reading the result

class Group:
    """particle stores of one loop nest"""

    def __init__(self, patch, key, loops):
        self.patch, self.key, self.loops = patch, key, loops


def pa(attr):
    return sym("p." + attr)


def fl(comp, idx):
    return P(atom("fl", comp, idx))


class Reading:
    """canonical per-particle formulas of one run"""

    def __init__(self, run):
        self.run, self.cut = run, run.cut
        self.problems = []
        self.part = []          # (attr, def, loops, pc, store)
        self.field = []         # (comp, idx, contribution, loops, pc, store)
        self.other = []
        for o, e, loops, pc in leaves(run.eff):
            if o is None:
                self.other.append((e, loops, pc))
            elif o[1] == "p":
                d = self.cut.version(e.val) if isinstance(e.val, Poly) else None
                self.part.append((o[2], d, loops, pc, e, o[0]))
            else:
                a = e.val.as_atom() if isinstance(e.val, Poly) else None
                d = self.cut.fdefs[a.args[0]] if a is not None and a.kind == "fv" else None
                self.field.append((o[2], d, loops, pc, e, o[0]))
        self.memo = {}

    def canon(self, v, patch, key, names, expand=True):
        """formula over pa(attr), fl(comp, idx) and named definitions; names: uid -> Poly"""
        memo = self.memo.setdefault((patch, key, frozenset(names), expand), {})

        def f(a):
            if a in names:
                return names[a]
            if a.kind == "pv":
                if a.args[2] in names:
                    return names[a.args[2]]
                d = self.cut.defs[a.args[2]]
                o = owner(d.base)
                if o[0] is not patch or a.args[4] != key:
                    return None
                return alg.subst(d.val, f, memo)
            if a.kind == "let" and expand:
                return alg.subst(a.args[0], f, memo)
            if a.kind == "load" and isinstance(a.args[0], Atom):
                o = owner(a.args[0])
                if o is None or o[0] is not patch or len(a.args) > 2:
                    return None
                if o[1] == "p" and a.args[1] == (key,):
                    return pa(o[2])
                if o[1] == "f" and len(a.args[1]) == 1:
                    return fl(o[2], a.args[1][0])
            if a.kind == "attr" and a.args[0].kind == "sym" and a.args[0].args[0] == "sp":
                return sym("sp." + a.args[1])
            return None
        return alg.subst(v, f, memo)


# ------------------------------------------------------------------ references

def wts(d):
    return {-1: (d * d + d + P(1) / 4) / 2, 0: P(3) / 4 - d * d, 1: (d * d - d + P(1) / 4) / 2}


def wrap_idx(i, n):
    c = i.const()
    return i + n if c is not None and c < 0 else i


def flat_index(idx, nt):
    r = ZERO
    for a, i in enumerate(idx):
        r = r * nt[a] + wrap_idx(i, nt[a])
    return r


HALF = {"ex": "x", "ey": "y", "ez": "z", "bx": "yz", "by": "xz", "bz": "xy"}
EB = ("ex", "ey", "ez", "bx", "by", "bz")
J = ("jx", "jy", "jz", "rho")


def ref_gather(run, comp):
    """quadratic-spline gather of a staggered component at the mid-step position"""
    c, dim = run.case, run.dim
    nt = [NT(a, c) for a in range(dim)]
    ax = []
    for a in range(dim):
        u = run.r("rb", a)                       # position relative to cell c.cells[a]
        if AX[a] in HALF[comp]:
            i, d = 0, P(1) / 2 - u
        else:
            i = c.halves[a]
            d = i - u
        w = wts(d)
        ax.append([(c.cells[a] + i + m, w[m]) for m in (-1, 0, 1)])
    tot = ZERO

    def rec(a, idx, w):
        nonlocal tot
        if a == dim:
            tot = tot + w * fl(comp, flat_index(idx, nt))
            return
        for i, x in ax[a]:
            rec(a + 1, idx + [i], w * x)
    rec(0, [], ONE)
    return tot


def ref_boris(u, E, Bf, q, m, dt):
    ef, bf = q * dt / (2 * m * CL), q * dt / (2 * m)
    um = [u[k] + ef * E[k] for k in range(3)]
    g = alg.sqrt(1 + um[0] ** 2 + um[1] ** 2 + um[2] ** 2) ** -1
    t = [bf * Bf[k] * g for k in range(3)]
    up = [um[k] + um[(k + 1) % 3] * t[(k + 2) % 3] - um[(k + 2) % 3] * t[(k + 1) % 3] for k in range(3)]
    tf = 2 / (1 + t[0] ** 2 + t[1] ** 2 + t[2] ** 2)
    s = [tf * x for x in t]
    upl = [um[k] + up[(k + 1) % 3] * s[(k + 2) % 3] - up[(k + 2) % 3] * s[(k + 1) % 3] for k in range(3)]
    return [upl[k] + ef * E[k] for k in range(3)]


def ref_deposit(run, q, w, vz, dt):
    """density-decomposition current of one particle: {(comp, flat index): value}"""
    c, dim = run.case, run.dim
    nt = [NT(a, c) for a in range(dim)]
    S0, S1 = [], []
    for a in range(dim):
        w0, w1 = wts(P(1) / 2 - run.r("r0", a)), wts(P(1) / 2 - run.r("r1", a))
        S0.append({m: w0.get(m, ZERO) for m in range(-2, 3)})
        S1.append({m: w1.get(m - c.s[a], ZERO) for m in range(-2, 3)})
    DS = [{m: S1[a][m] - S0[a][m] for m in range(-2, 3)} for a in range(dim)]
    vol = ONE
    for a in range(dim):
        vol = vol * D(a)
    out = {}
    half, third = P(1) / 2, P(1) / 3

    def put(comp, idx, v):
        if v.t:
            k = (comp, flat_index([c.i0[a] + idx[a] for a in range(dim)], nt))
            out[k] = out.get(k, ZERO) + v
    R5 = range(-2, 3)

    def cross(o, m):
        if len(o) == 1:
            return S0[o[0]][m[0]] + half * DS[o[0]][m[0]]
        a, b = o
        return S0[a][m[0]] * S0[b][m[1]] + half * DS[a][m[0]] * S0[b][m[1]] + half * S0[a][m[0]] * DS[b][m[1]] + third * DS[a][m[0]] * DS[b][m[1]]
    import itertools
    for a in range(dim):
        o = [b for b in range(dim) if b != a]
        for m in itertools.product(R5, repeat=dim - 1):
            x = cross(o, m)
            if not x.t:
                continue
            acc = ZERO
            for i in R5:
                acc = acc + DS[a][i]
                idx = [0] * dim
                idx[a] = i
                for b, mm in zip(o, m):
                    idx[b] = mm
                put("j" + AX[a], idx, -q * w * D(a) / (vol * dt) * acc * x)
    for idx in itertools.product(R5, repeat=dim):
        v = ONE
        for a in range(dim):
            v = v * S1[a][idx[a]]
        put("rho", idx, q * w / vol * v)
        if dim == 2:
            put("jz", idx, q * w * vz / vol * cross((0, 1), idx))
    return out



# ------------------------------------------------------------------ loop nests and path conditions

NPL = P(atom("len", atom("sym", "plist")))


class Cover:
    """do the loops around a store visit every particle slot of every patch exactly once, and under what condition"""

    def __init__(self, rd):
        self.rd = rd
        self.red = {}           # loopout atom -> (Loop, v0, v1)
        for lp in all_loops(rd.run.eff):
            for nm, v0, v1 in lp.carried:
                self.red[atom("loopout", lp.var.args[0], nm)] = (lp, v0, v1)

    def count_ok(self, n, patch):
        a = n.as_atom()
        if a is None:
            return False
        if a.kind == "len":
            o = owner(a.args[0]) if isinstance(a.args[0], Atom) else None
            return o is not None and o[1] == "p" and o[0] is patch
        while a.kind in ("pynum", "dims", "npdata", "fact") and isinstance(a.args[0], Atom):
            a = a.args[0]
        o = owner(a)
        if o is not None and o[1] == "p" and o[0] is patch and o[2] == "npart":
            return True
        if a.kind == "load" and isinstance(a.args[0], Atom) and a.args[0].kind in ("dims", "shape"):
            o = owner(a.args[0])
            return o is not None and o[0] is patch
        return False

    def visit(self, loops, patch, key):
        """message when the nest is not a walk over all slots of all patches, else None"""
        if not loops:
            return "not in a loop over the patches"
        pl = loops[0]
        if not (patch.kind == "load" and patch.args[1] == (P(pl.var),)):
            return "the outer loop does not select the patch (%s)" % (patch,)
        if pl.lo != ZERO or pl.hi is None or not alg.is_zero(pl.hi - NPL) or pl.hasbreak:
            return "patch loop covers [%s,%s)" % (pl.lo, pl.hi)
        rest = loops[1:]
        if any(l.hasbreak or l.hi is None for l in rest):
            return "particle loop may stop early"
        if len(rest) == 1:
            l = rest[0]
            if key != P(l.var) or l.lo != ZERO or not self.count_ok(l.hi, patch):
                return "particle loop covers [%s,%s) with index %s" % (l.lo, l.hi, key)
            return None
        if len(rest) == 2:
            a, b = rest
            S = alg_coeff(key, a.var)
            if S is None or S.const() is None or key != S * P(a.var) + P(b.var):
                return "slot index %s" % key
            at = a.hi.as_atom()
            if a.lo != ZERO or b.lo != ZERO or at is None or at.kind != "ceildiv" or P(at.args[1]) != S or not self.count_ok(P(at.args[0]), patch):
                return "strip loop covers [%s,%s)" % (a.lo, a.hi)
            N = P(at.args[0])
            e = S * P(a.var)
            exp = ite(lt0(N - e - S), N - e, S)
            if not alg.is_zero(b.hi - exp):
                return "strip covers [0,%s)" % b.hi
            return None
        return "%d nested particle loops" % len(rest)

    def same_range(self, l1, l2):
        return l1.lo == l2.lo and l1.hi is not None and l2.hi is not None and alg.is_zero(l1.hi - l2.hi)

    def condition(self, pc, loops, patch, key, dead):
        """pc with the slot assumed dead (True) or alive with finite position (False)"""
        def f(a):
            if a.kind in ("eq", "truth") :
                x = a.args[0]
                x = x.as_atom() if isinstance(x, Poly) else x
                if isinstance(x, Atom):
                    if x.kind == "load" and isinstance(x.args[0], Atom):
                        o = owner(x.args[0])
                        if o is not None and o[1] == "p" and o[2] == "is_dead" and o[0] is patch and x.args[1] == (key,):
                            isz = not dead
                            return TRUE if isz == (a.kind == "eq") else FALSE
                    if x.kind == "nan" and not dead and x.args[1] is patch and x.args[2] == (key,):
                        return FALSE
                    if x.kind == "loopout" and x in self.red and dead:
                        r = self.reduction(x, loops, patch, key)
                        if r is not None:
                            return TRUE if a.kind == "eq" else FALSE
                    if x.kind == "attr" and x.args[1] == "q" and not dead and a.kind == "eq":
                        return FALSE
            if a.kind == "lt" and isinstance(a.args[0], Poly) and not (a.args[0] - NPL + 1).t == {} and False:
                return None
            if a.kind == "lt" and a.args[0] == NPL - 1:
                return FALSE
            return None
        return alg.subst(pc, f, {})

    def reduction(self, x, loops, patch, key):
        """the loop result x is non-zero only if every slot of the strip is alive"""
        lp, v0, v1 = self.red[x]
        if not loops or not self.same_range(lp, loops[-1]):
            return None
        k = alg.subst(key, lambda a: P(lp.var) if a is loops[-1].var else None, {})
        ph = atom("phi", lp.var.args[0], x.args[1])
        def flags(a):
            if a.kind in ("bit&", "bit|"):
                l, r = (alg.truth(alg.subst(z, flags, {})) for z in a.args)
                return ite(l & r if a.kind == "bit&" else l | r, ONE, ZERO)
            return None
        if isinstance(v1, Poly):
            v1 = alg.subst(v1, flags, {})
        t = alg.truth(v1) if not isinstance(v1, B) else v1
        # true result needs the previous result and this slot alive
        c = self.condition(t, (lp,), patch, k, True)
        if c is not FALSE:
            return None
        c = alg.subst(t, lambda a: (TRUE if a.kind == "eq" else FALSE) if a.kind in ("eq", "truth") and (a.args[0] is ph or a.args[0] == P(ph)) else None, {})
        c2 = alg.subst(c, lambda a: ZERO if a.kind == "phi" and a.args == ph.args else None, {})
        if not (c2 is FALSE or b_equiv(c2, FALSE)):
            return None
        return True


def alg_coeff(p, v):
    co = ZERO
    for m, c in p.t.items():
        md = dict(m)
        if v.id in md:
            if md[v.id] != 1:
                return None
            co = co + Poly({tuple((x, e) for x, e in m if x != v.id): c})
    return co


def all_loops(eff):
    for e in eff:
        if e.kind == "loop":
            yield e
            yield from all_loops(e.body)


# ------------------------------------------------------------------ examining one run

class Out:
    def __init__(self):
        self.obs = []
        self.broken = []
        self.funcs = set()
        self.units = set()

    def ob(self, rule, key, ok, msg="", loc=None):
        self.obs.append((rule, key, bool(ok), str(msg)[:900] if not ok else "", loc))
        return ok


def eq(a, b):
    try:
        return alg.is_zero(a - b)
    except RecursionError:
        return False


def finals_of(rd):
    prevs = set()
    for at, d, loops, pc, e, patch in rd.part:
        while d is not None and d.prev is not None:
            prevs.add((d.prev.attr, d.prev.loc, d.prev.depth))
            d = d.prev
    return {(d.attr, d.loc, d.depth) for at, d, *_ in rd.part if d is not None} - prevs


def coverage(o, rd, cov, what, entries, tag, needq=True):
    """entries: (loops, pc, patch, key, loc) of the stores performing one effect; each slot must be handled once"""
    bad = None
    conds = []
    loc = entries[0][4] if entries else None
    for loops, pc, patch, key, loc in entries:
        m = cov.visit(loops, patch, key)
        if m:
            bad = m
            break
        d = cov.condition(pc, loops, patch, key, True)
        if not (d is FALSE or b_equiv(d, FALSE)):
            o.ob("dead", tag, False, "performed for dead slots when %s" % show_b(d)[:300], loc)
        else:
            o.ob("dead", tag, True, "", loc)
        c = norm_loops(cov.condition(pc, loops, patch, key, False), loops)
        if not any(alg.b_equiv(c, x) for x in conds):
            for x in conds:
                if alg.b_feasible(c & x):
                    bad = "performed more than once for a particle"
            conds.append(c)
        else:
            bad = "performed more than once for a particle"
    if bad is None:
        u = FALSE
        for x in conds:
            u = u | x
        if not (u is TRUE or b_equiv(u, TRUE)):
            bad = "a live particle is skipped when %s" % show_b(~u)[:300]
    o.ob("cover", tag, bad is None, bad or "", loc)


def norm_loops(c, loops):
    """name the loop variables by nesting position so that conditions of sibling loops compare"""
    mp = {l.var: P(atom("nest", i, isint=True)) for i, l in enumerate(loops)}
    return alg.subst(c, lambda a: mp.get(a), {})


def examine(w, dim, what, case):
    o = Out()
    tag0 = "%dD/%s/%s" % (dim, what, case.name if case else "any")
    finals = None
    if what == "fused":
        r1 = Run(w, dim, what, case, pass1=True)
        finals = finals_of(Reading(r1))
    run = Run(w, dim, what, case, finals=finals)
    rd = Reading(run)
    cov = Cover(rd)
    o.funcs |= set(run.it.analysed)
    o.units |= set(w.linker.used)
    patches = {p for *_, p in rd.part} | {p for *_, p in rd.field}
    q, m = sym("sp.q"), sym("sp.m")
    fin, mid = {}, {}
    fset = finals if finals is not None else finals_of(rd)
    for at, d, loops, pc, e, patch in rd.part:
        if d is None:
            o.ob("write", "%s/%s" % (tag0, at), False, "store %s not understood" % (e,), e.loc)
            continue
        sp = owner(e.base)[3]
        if sp != (ONE,):
            o.ob("write", "%s/%s" % (tag0, at), False, "writes species %s" % (sp,), e.loc)
        (fin if (d.attr, d.loc, d.depth) in fset else mid).setdefault(at, []).append((d, loops, pc, e, patch))
    allowed = {"interp": set(EB[:6]), "deposit": set(), "boris": {"ux", "uy", "uz", "inv_gamma"}, "pushpos": set(AX[:dim]), "photon": set(AX[:dim]), "reset": set()}
    e6 = {c + "_part" for c in EB}
    allowed["interp"] = e6
    allowed["fused"] = e6 | allowed["boris"] | allowed["pushpos"]
    for at in list(fin) + list(mid):
        if at not in allowed[what]:
            o.ob("write", "%s/%s" % (tag0, at), False, "the kernel writes %s" % at, (fin.get(at) or mid.get(at))[0][3].loc)
    if what not in ("deposit", "fused", "reset"):
        for comp, d, loops, pc, e, patch in rd.field:
            o.ob("write", "%s/%s" % (tag0, comp), False, "the kernel writes field %s" % comp, e.loc)
    # keys: every particle element touched belongs to the slot being processed
    names = {}

    def finals(at):
        for x in fin.get(at, []):
            yield x

    def each(at, rule, key, ref, alt=None):
        """all final definitions of attribute `at` equal ref(patch, k)"""
        lst = list(finals(at))
        ok = bool(lst)
        msg = "" if ok else "never written"
        loc = None
        for d, loops, pc, e, patch in lst:
            loc = e.loc
            got = rd.canon(d.val, patch, d.key, names)
            exp = ref(patch, d)
            if not eq(got, exp) and not (alt is not None and alt(d, loops, pc, patch)):
                ok, msg = False, "%s becomes %s, expected %s" % (at, alg.show(got), alg.show(exp))
                break
        o.ob(rule, key, ok, msg, loc)
        if lst:
            coverage(o, rd, cov, what, [(loops, pc, patch, d.key, e.loc) for d, loops, pc, e, patch in lst], "%s/%s" % (tag0, at))
        return ok

    def name(at, v):
        for d, *_ in finals(at):
            names[d.uid] = v
            a = d.val.as_atom()
            if a is not None and a.kind == "let":
                names[a] = v
    U = {}
    if what in ("interp", "fused"):
        for comp in EB:
            ok = each(comp + "_part", "gather", "%s/%s" % (tag0, comp), lambda patch, d: ref_gather(run, comp))
            name(comp + "_part", sym("E." + comp))
    if what == "fused":
        for at in AX[:dim]:
            a = AX.index(at)
            lst = mid.get(at, [])
            ok, msg, loc = bool(lst), "no first half position push before the gather", None
            for d, loops, pc, e, patch in lst:
                loc = e.loc
                got = rd.canon(d.val, patch, d.key, names)
                exp = run.value(at, None, patch) + CL * DT / 2 * pa("inv_gamma") * pa("u" + at)
                if not eq(got, exp) or d.depth != 1:
                    ok, msg = False, "first position push gives %s, expected %s" % (alg.show(got), alg.show(exp))
            o.ob("drift", "%s/%s/first" % (tag0, at), ok, msg, loc)
            if lst:
                coverage(o, rd, cov, what, [(loops, pc, patch, d.key, e.loc) for d, loops, pc, e, patch in lst], "%s/%s-first" % (tag0, at))
    if what in ("boris", "fused"):
        E = [sym("E.e" + x) if what == "fused" else pa("e%s_part" % x) for x in "xyz"]
        Bf = [sym("E.b" + x) if what == "fused" else pa("b%s_part" % x) for x in "xyz"]
        un = ref_boris([pa("ux"), pa("uy"), pa("uz")], E, Bf, q, m, DT)
        for k, x in enumerate("xyz"):
            each("u" + x, "boris", "%s/u%s" % (tag0, x), lambda patch, d: un[k])
        for k, x in enumerate("xyz"):
            U[x] = sym("U." + x)
            name("u" + x, U[x])
            if what == "fused" and x in AX[:dim]:
                U[x] = run.value("u" + x, fin["u" + x][0][0] if fin.get("u" + x) else None, None) or U[x]
        ig = (1 + sum((U[x] ** 2 for x in "xyz"), ZERO))

        def alt(d, loops, pc, patch):
            # in terms of the very values stored as momentum
            t = ONE
            for x in "xyz":
                c = [y for y in fin.get("u" + x, []) if y[1] == loops and alg.b_equiv(y[2], pc)]
                if len(c) != 1:
                    return False
                t = t + rd.canon(c[0][0].val, patch, c[0][0].key, {}, False) ** 2
            return eq(rd.canon(d.val, patch, d.key, {}, False), alg.sqrt(t) ** -1)
        each("inv_gamma", "boris", "%s/inv_gamma" % tag0, lambda patch, d: alg.sqrt(ig) ** -1, alt)
        name("inv_gamma", IG)
    if what in ("pushpos", "photon", "fused"):
        for a, x in enumerate(AX[:dim]):
            if what == "fused":
                each(x, "drift", "%s/%s/second" % (tag0, x), lambda patch, d: org(a, patch) + D(a) * run.interp_x(a) + CL * DT / 2 * IG * U[x])
            else:
                each(x, "drift", "%s/%s" % (tag0, x), lambda patch, d: pa(x) + CL * DT * pa("inv_gamma") * pa("u" + x))
    if what in ("deposit", "fused"):
        vz = CL * (U["z"] * IG if what == "fused" else pa("uz") * IG)
        ref = ref_deposit(run, q, pa("w"), vz, DT)
        groups = {}
        for comp, d, loops, pc, e, patch in rd.field:
            if comp not in J or d is None:
                o.ob("write", "%s/%s" % (tag0, comp), False, "the kernel writes %s" % (e,), e.loc)
                continue
            groups.setdefault(tuple(id(l) for l in loops), []).append((comp, d, loops, pc, e, patch))
        ent = []
        tot = {}
        for gid, lst in groups.items():
            comp, d, loops, pc0, e, patch = lst[0]
            key = slot_index(loops)
            got = {}
            msgs = {}
            for comp, d, loops, pc, e, patch2 in lst:
                if not alg.b_equiv(pc, pc0):
                    msgs[comp] = "contribution only under %s" % show_b(pc)[:200]
                if patch2 is not patch:
                    msgs[comp] = "deposits into patch %s" % patch2
                k = (comp, d.key[0])
                got[k] = got.get(k, ZERO) + rd.canon(d.val, patch, key, names)
            for comp in J:
                ks = {k for k in list(got) + list(ref) if k[0] == comp}
                msg = msgs.get(comp)
                for k in sorted(ks, key=str):
                    x, y = got.get(k, ZERO), ref.get(k, ZERO)
                    if msg is None and not eq(x, y):
                        msg = "cell %s receives %s, expected %s" % (k[1], alg.show(x), alg.show(y))
                o.ob("deposit", "%s/%s" % (tag0, comp), msg is None, msg or "", e.loc)
            ent.append((loops, pc0, patch, key, e.loc))
        if not groups:
            o.ob("deposit", tag0, False, "no current deposited")
        else:
            coverage(o, rd, cov, what, ent, "%s/current" % tag0)
    check_slots(o, rd, cov, tag0)
    alg.FACTS = None
    return o


def slot_index(loops):
    """slot visited by the innermost particle loops"""
    if len(loops) == 2:
        return P(loops[1].var)
    if len(loops) == 3:
        at = loops[1].hi.as_atom() if loops[1].hi is not None else None
        if at is not None and at.kind == "ceildiv":
            return P(at.args[1]) * P(loops[1].var) + P(loops[2].var)
    return ZERO


def check_slots(o, rd, cov, tag):
    """no particle element other than those of the visited slots is read"""
    ok = set()
    for lp in all_loops(rd.run.eff):
        ok.add(P(lp.var))
    for *_, e, patch in rd.part:
        ok.add(e.key[0])
    bad = None
    for lp1 in all_loops(rd.run.eff):
        for lp in all_loops(lp1.body):
            at = lp1.hi.as_atom() if lp1.hi is not None else None
            if at is not None and at.kind == "ceildiv":
                ok.add(P(at.args[1]) * P(lp1.var) + P(lp.var))
    for at, key in rd.run.reads:
        if key not in ok and not any(a.kind == "phi" for a in atoms_deep(key)):
            bad = "%s[%s]" % (at, key)
    o.ob("slot", tag, bad is None, "reads the attribute of another slot: %s" % bad)


def debug(w, argv):
    dim, what = int(argv[0]), argv[1]
    case = None
    if argv[-1] == "ex":
        o = examine(w, dim, what, mkcase(dim, argv[2:]) if len(argv) > 3 else None)
        print(len(o.obs), "obs")
        for x in o.obs:
            if not x[2]:
                print(str(x)[:1200])
        return
    if len(argv) > 2:
        case = mkcase(dim, argv[2:])
    import time
    t = time.time()
    r = Run(w, dim, what, case, pass1="pass1" in argv)
    print("time", time.time() - t)
    o = dump(r.eff)
    print(len(o))
    for l in o.split("\n"):
        print(l[:330])
    if "quiet" in argv:
        return
    print("DEFS")
    for d in r.cut.defs:
        print(d.attr, d.depth, d.uid, str(d.val)[:300], "| pc", show_b(d.pc)[:200], d.loc)


def mkcase(dim, spec):
    """spec per axis: e.g. i0+1 (interior, half 0, shift +1)  2:1-1 (cell 2, half 1, shift -1)"""
    cells, halves, s = [], [], []
    ranges = {}
    for a in range(dim):
        x = spec[a]
        ci, rest = x.split(":")
        if ci == "i":
            cells.append(3 + slackint("i" + AX[a]))
        else:
            cells.append(P(int(ci)))
        halves.append(int(rest[0]))
        s.append(int(rest[1:] or 0))
    return Case(dim, cells, halves, cells, s, ",".join(spec[:dim]))


# ------------------------------------------------------------------ checks

RULES = {
    "gather": "each particle field component becomes sum over 3 grid points per axis of spline weight * field at the component's staggered place",
    "boris": "momentum and inverse Lorentz factor become the half kick / rotation / half kick of the Boris scheme",
    "drift": "every coordinate of the simulation's dimension advances by c*dt*u*inv_gamma (half of it in each of the two fused pushes), the first one before the gather",
    "deposit": "every grid cell receives exactly the density-decomposition current and end-of-step charge shape of the particle",
    "write": "the kernel writes no other particle attribute, species or field",
    "slot": "only the attributes of the slot being processed are read",
    "dead": "the effect is not performed for slots marked dead",
    "cover": "the loops visit every slot of every patch once, and each live finite particle is handled exactly once",
    "reset": "current and charge arrays of every patch are zeroed over their whole extent, guards included",
}


def cases(dim, what, tier):
    import itertools as it
    if what in ("boris", "pushpos", "photon", "reset"):
        return [None]
    out = []
    if what == "interp":
        for h in it.product("01", repeat=dim):
            out.append(["i:" + x for x in h])
        ed = ["-1:0", "-1:1", "0:0", "0:1", "1:0", "1:1"]
        if tier == "thorough":
            for c in it.product(ed + ["i:0", "i:1"], repeat=dim) if dim == 2 else it.product(["-1:1", "0:0", "0:1", "1:0", "i:1"], repeat=dim):
                out.append(list(c))
        else:
            for k, e in enumerate(ed):
                for a in range(dim):
                    c = ["i:%d" % ((k + b) % 2) for b in range(dim)]
                    c[a] = e
                    out.append(c)
            out.append(["-1:1"] * dim)
    else:
        sh = ["-1", "0", "+1"]
        for n, s in enumerate(it.product(sh, repeat=dim)):
            out.append(["i:%d%s" % ((n >> b) % 2, x) for b, x in enumerate(s)])
        if what == "fused":
            for h in it.product("01", repeat=dim):
                out.append(["i:%s0" % x for x in h])
        ed = ["-1:1-1", "-1:00", "0:0-1", "0:10", "0:1+1", "1:0-1", "1:0+1", "2:1-1"]
        if tier == "thorough":
            for n, c in enumerate(it.product(ed, repeat=dim)):
                if dim == 2 or n % 5 == 0:
                    out.append(list(c))
        for k, e in enumerate(ed):
            for a in range(dim):
                if tier != "thorough" and dim == 3 and (k + a) % 3:
                    continue
                c = ["i:%d%s" % ((k + b) % 2, sh[(k + b) % 3]) for b in range(dim)]
                c[a] = e
                out.append(c)
    seen, res = set(), []
    for c in out:
        if tuple(c) not in seen:
            seen.add(tuple(c))
            res.append(c)
    return res


def check_reset(w, dim):
    o = Out()
    run = Run(w, dim, "reset", None)
    o.funcs |= set(run.it.analysed)
    o.units |= set(w.linker.used)
    tag = "%dD/reset" % dim
    cov = {}
    tot = alg.ONE
    for a in range(dim):
        tot = tot * NT(a)
    for e, loops, pc in flat(run.eff):
        base = None
        if e.kind == "call" and e.name == "memset" and len(e.args) == 3:
            a = e.args[0]
            a = a.as_atom() if isinstance(a, Poly) else a
            base = getattr(a, "base", a)
            off = getattr(a, "off", None)
            n = e.args[2]
            size = [x for x in atoms_deep(n) if x.kind == "sizeof"]
            full = e.args[1] == ZERO and (off is None or off == ZERO) and len(size) == 1 and alg.is_zero(n - tot * P(size[0])) and "double" in str(size[0])
            why = "memset covers %s" % n
        elif e.kind == "store" and isinstance(e.base, Atom):
            base = e.base
            full, why = None, ""
        if base is None or not isinstance(base, Atom):
            continue
        ow = owner(base)
        if ow is None or ow[1] != "f":
            continue
        if full is None:
            full, why = whole_store(e, loops, dim, tot)
        pl = loops[0] if loops else None
        okp = pl is not None and ow[0].kind == "load" and ow[0].args[1] == (P(pl.var),) and pl.lo == ZERO and alg.is_zero(pl.hi - NPL) and not pl.hasbreak
        c = alg.subst(pc, lambda a: FALSE if a.kind == "lt" and a.args[0] == NPL - 1 else None, {})
        ok = full and okp and (c is TRUE or b_equiv(c, TRUE))
        if ow[2] not in J:
            o.ob("write", "%s/%s" % (tag, ow[2]), False, "reset writes %s" % ow[2], e.loc)
        else:
            cov.setdefault(ow[2], []).append((ok, why or "only when %s" % show_b(pc)[:200], e.loc))
    for comp in J:
        x = cov.get(comp, [])
        good = [y for y in x if y[0]]
        o.ob("reset", "%s/%s" % (tag, comp), bool(good), x[0][1] if x else "never cleared", x[0][2] if x else None)
    alg.FACTS = None
    return o


def whole_store(e, loops, dim, tot):
    """plain stores of zero over the whole array"""
    key = e.key if isinstance(e.key, tuple) else (e.key,)
    if not (isinstance(e.val, Poly) and e.val == ZERO) and e.val != 0:
        return False, "stores %s" % (e.val,)
    if len(key) == 1 and not isinstance(key[0], Poly):
        k = key[0]
        return ("fill" in str(k) or "slice" in str(k) or "Ellipsis" in str(k)), "clears %s" % (k,)
    inner = loops[1:]
    if any(l.hasbreak or l.lo != ZERO for l in inner):
        return False, "partial loop"
    if len(key) == 1 and len(inner) == 1 and key[0] == P(inner[0].var) and alg.is_zero(inner[0].hi - tot):
        return True, ""
    if len(key) == 1 and len(inner) == dim:
        n = ONE
        exp = ZERO
        for l in inner:
            exp = exp * l.hi + P(l.var)
            n = n * l.hi
        if alg.is_zero(n - tot) and alg.is_zero(key[0] - exp):
            return True, ""
    return False, "clears only part (index %s)" % (key,)


_W = [None]
UNITS = {"fused": "core.pusher.unified.unified_pusher_%dd", "interp": "core.interpolation.cpu%dd", "deposit": "core.current.cpu%dd", "reset": "core.current.cpu%dd"}


def job(j):
    dim, what, spec = j
    if _W[0] is None:
        _W[0] = World()
    if what == "reset":
        o = check_reset(_W[0], dim)
    else:
        o = examine(_W[0], dim, what, mkcase(dim, spec) if spec else None)
    return o.obs, sorted(map(str, o.funcs)), sorted(map(str, o.units))


def run_jobs(c, jobs, rules, only=None):
    for r in rules:
        c.rule(r, RULES[r])
    from ..report import pmap
    _W[0] = World()
    for u in {UNITS[j[1]] for j in jobs if j[1] in UNITS}:
        for d in (2, 3):
            _W[0].unit(u % d)
    _W[0].linker.used.clear()
    for j, (ok, res) in zip(jobs, pmap(job, jobs)):
        if not ok:
            c.break_("%s: %s" % (j, res))
            continue
        obs, fs, us = res
        c.functions |= set(fs)
        c.units |= set(us)
        for rule, key, ok, msg, loc in obs:
            if rule in rules and (only is None or only(j, rule, key)):
                c.ob(rule, key, ok, msg, loc)
    c.assume("quantities are exact reals: floating point rounding is outside the check")
    c.assume("all patches of a rank have the same number of cells, spacings and guards (constructed so in Simulation/Patches)")


def every(tier, *whats):
    return [(d, k, s) for k in whats for d in (3, 2) for s in cases(d, k, tier)]


def some(n, *whats):
    """n fused/gather/deposit classes spread over the case list"""
    out = []
    for k in whats:
        for d in (3, 2):
            cs = cases(d, k, "quick")
            st = max(1, len(cs) // n)
            out += [(d, k, s) for s in cs[::st][:n]]
    return out


def halves(tier):
    """fused classes for each half-cell combination"""
    if tier == "thorough":
        return every("quick", "fused")
    out = []
    for d in (3, 2):
        seen = set()
        for s in cases(d, "fused", "quick"):
            h = tuple(x.split(":")[0][:1] + x.split(":")[1][0] for x in s)
            if h not in seen and all(x.startswith("i") for x in s):
                seen.add(h)
                out.append((d, "fused", s))
        out += [(d, "fused", ["-1:00"] * d), (d, "fused", ["0:1+1"] * d), (d, "fused", ["1:0-1"] * d)]
    return out


def p14(c):
    run_jobs(c, every(c.tier, "interp") + halves(c.tier), ["gather", "write", "slot", "cover"],
             lambda j, r, k: r in ("gather",) or j[1] == "interp" or "_part" in k and r in ("cover", "write"))
    c.floor("gather", 6 * 60)


def p15(c):
    run_jobs(c, every(c.tier, "deposit", "fused", "reset"), ["deposit", "reset", "write", "slot", "cover"],
             lambda j, r, k: r in ("deposit", "reset") or j[1] == "deposit" or r == "cover" and "/current" in k or r == "write" and k.split("/")[-1] in J)
    c.floor("deposit", 4 * 100)
    c.floor("reset", 8)


def p16(c):
    U = ("ux", "uy", "uz", "inv_gamma")
    run_jobs(c, every(c.tier, "boris") + (halves(c.tier) if c.tier == "thorough" else some(3, "fused")), ["boris", "write", "slot", "cover"],
             lambda j, r, k: r == "boris" or j[1] == "boris" or k.split("/")[-1] in U)
    c.floor("boris", 4 * 8)


def p17(c):
    run_jobs(c, every(c.tier, "pushpos", "photon") + (halves(c.tier) if c.tier == "thorough" else some(3, "fused")), ["drift", "write", "slot", "cover"],
             lambda j, r, k: r == "drift" or j[1] in ("pushpos", "photon") or k.split("/")[-1].split("-")[0] in AX)
    c.floor("drift", 2 * 5 + 3 * 10)


def p10(c):
    run_jobs(c, every(c.tier, "fused") + every("quick", "boris", "pushpos") + some(4, "interp", "deposit"),
             ["gather", "boris", "drift", "deposit", "write", "slot", "cover", "dead"])
    c.floor("gather", 6 * 60)
    c.floor("deposit", 4 * 60)
