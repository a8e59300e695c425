"""Yee update of E and B (P12) and the CPML layers (P13), 2D and 3D."""
from ..world import *
from ..nd import *
from .. import alg

C2 = P(299792458) ** 2
EPS = P(atom("const", "epsilon_0"))

DRIVER = """
from lambdapic.core.maxwell.solver.solver import MaxwellSolver{d}D
from lambdapic.core.patch.patch import Patches, Patch{d}D
from lambdapic.core.fields import Fields{d}D
from lambdapic.core.boundary.cpml import PMLXmin, PMLXmax, PMLYmin, PMLYmax, PMLZmin, PMLZmax
def main({fields}, th, kmax, amax, smax, dt):
    ps = Patches(dimension={d})
{patches}
    s = MaxwellSolver{d}D(ps)
    s.update_{which}field(dt)
"""

PMLS2 = [(), ("PMLXmin",), ("PMLXmax",), ("PMLYmin",), ("PMLYmax",), ("PMLXmin", "PMLYmax"), ("PMLXmax", "PMLYmin"), ("PMLYmin", "PMLXmin"), ()]
PMLS3 = [(), ("PMLXmin",), ("PMLXmax",), ("PMLYmin",), ("PMLYmax",), ("PMLZmin",), ("PMLZmax",), ("PMLXmin", "PMLYmax", "PMLZmin"), ("PMLZmax", "PMLYmin"), ("PMLXmin", "PMLXmax"), ()]


def driver(w, dim, which, cfg):
    pt = []
    for i, b in enumerate(cfg):
        f = "f%d" % i
        ax = "xyz"[:dim]
        args = ", ".join(["ipatch_%s=0" % a for a in ax] + ["%s0=%s.%s0" % (a, f, a) for a in ax] + ["n%s=%s.n%s" % (a, f, a) for a in ax] + ["d%s=%s.d%s" % (a, f, a) for a in ax])
        pt.append("    p%d = Patch%dD(rank=0, index=%d, %s)" % (i, dim, i, args))
        pt.append("    p%d.set_fields(%s)" % (i, f))
        for k in b:
            pt.append("    p%d.add_pml_boundary(%s(%s, thickness=th, kappa_max=kmax, a_max=amax, sigma_max=smax))" % (i, k, f))
        pt.append("    ps.append(p%d)" % i)
    return w.driver(DRIVER.format(d=dim, which=which, fields=", ".join("f%d: Fields%dD" % (i, dim) for i in range(len(cfg))), patches="\n".join(pt)))


def analyse(w, c, dim, which, cfg):
    it = w.interp()
    fn = driver(w, dim, which, cfg)
    # the layer is thinner than the patch (a shorter patch is rejected with an exception)
    it.opaque_arrays = True
    eff, ret, st = it.run_func(fn)
    it.opaque_arrays = False
    w.note(c, it)
    fixed = {}
    n = [sym("N" + x, isint=True) for x in "xyz"[:dim]]
    dx = [sym("D" + x) for x in "xyz"[:dim]]
    ng = sym("NG", isint=True)
    for i in range(len(cfg)):
        f = atom("sym", "f%d" % i)
        for a, x in enumerate("xyz"[:dim]):
            fixed[atom("attr", f, "n" + x)] = n[a]
            fixed[atom("attr", f, "d" + x)] = dx[a]
        fixed[atom("attr", f, "n_guard")] = ng
    th = sym("TH", isint=True)
    fixed[atom("sym", "th")] = th
    R = Regions(it, fixed)
    R.base_facts = {}
    R.sign = lambda p: alg.sign_affine(p, R.bounds, {th.as_atom(): 1 + slack("t"), ng.as_atom(): 1 + slack("g"),
                                                      **{n[a].as_atom(): 3 + slack("t") + slack("n%d" % a) for a in range(dim)}})
    return it, R, eff, n, dx, th


def sh(k, ax, d):
    k = list(k)
    k[ax] = k[ax] + d
    return tuple(k)


def fld(i, comp, key):
    return P(atom("load", atom("attr", atom("sym", "f%d" % i), comp), key))


def curl_terms(which, comp, dim):
    """list of (sign, component, axis) of the curl for component comp of the E (B) update"""
    a = "xyz".index(comp)
    b, d = (a + 1) % 3, (a + 2) % 3
    src = "b" if which == "e" else "e"
    out = []
    # curl_a = d_b F_d - d_d F_b
    if b < dim:
        out.append((1, src + "xyz"[d], b))
    if d < dim:
        out.append((-1, src + "xyz"[b], d))
    return out


def diff(which, i, comp, key, ax):
    if which == "e":
        return fld(i, comp, key) - fld(i, comp, sh(key, ax, -1))
    return fld(i, comp, sh(key, ax, 1)) - fld(i, comp, key)


def raw_stores(it, R, eff):
    """stores to field components, auxiliary (per-cell) arrays and everything else"""
    fields, aux, rest = {}, {}, []
    for a in R.collect(eff, lambda l: isinstance(l, Store) and isinstance(l.key, tuple)):
        b = a.base
        key = a.args[0] if a.idx is None else (a.idx,)
        if b.kind == "attr" and b.args[0].kind == "sym" and str(b.args[0].args[0]).startswith("f"):
            fields.setdefault((int(b.args[0].args[0][1:]), b.args[1]), []).append(nd_store(R, a))
        elif b.kind == "alloc" and len(key) > 1:
            aux.setdefault(b, []).append(nd_store(R, a))
        elif any(isinstance(k, SliceV) for k in key) or b.kind == "alloc":
            pass            # profile set-up in the constructors; judged through the values read
        else:
            rest.append(a)
    return fields, aux, rest


def box(ranges):
    c = TRUE
    for k, (lo, hi) in enumerate(ranges):
        c = c & ~lt0(I(k) - lo) & lt0(I(k) - hi)
    return c


class Prof:
    """names for the coefficient arrays of the absorbing layers of one patch"""

    def __init__(self, it, R, n, dx, th, pmls, which):
        self.it, self.R, self.n, self.th, self.pmls, self.which = it, R, n, th, pmls, which
        self.dx = dx
        self.bad = {}
        self.memo = {}
        self.axes = {}
        for p in pmls:
            self.axes.setdefault("XYZ".index(p[3]), []).append(p[4:])

    def strip(self, ax, side):
        n, th = self.n[ax], self.th
        if side == "min":
            return ZERO, th
        return (n - th, n) if self.which == "e" else (n - th - 1, n - 1)

    def expected(self, kind, ax, side, s0):
        """value of the coefficient at cell I(ax) as a function of the distance from the outer edge"""
        n, th = self.n[ax], self.th
        h = ZERO if self.which == "e" else P(1) / 2
        i = I(ax)
        depth = i + h if side == "min" else n - 1 - i - h
        pos = 1 - depth / th
        km, am, sm = sym("kmax"), sym("amax"), sym("smax")
        lo, hi = self.strip(ax, side)
        inside = ~lt0(i - lo) & lt0(i - hi)
        v = {"kappa": 1 + (km - 1) * pos ** 3, "sigma": sm * 299792458 * P(4) / 5 * 4 / s0 * pos ** 3, "a": am * (1 - pos)}[kind]
        return ite(inside, v, ONE if kind == "kappa" else ZERO)

    def name(self, a):
        """symbol standing for one element of a coefficient array, or None"""
        if a in self.memo:
            return self.memo[a]
        r = self._name(a)
        self.memo[a] = r
        return r

    def _name(self, a):
        key = a.args[1]
        if len(key) != 1 or not isinstance(key[0], Poly):
            return None
        ka = key[0].as_atom()
        if ka is None or ka.kind != "cell":
            return None
        ax = ka.args[0]
        base = a.args[0]
        v = self.it.elem(base.args[0] if base.kind == "val" else P(base), I(ax), None)
        if v is None:
            return None
        v = self.R.subst(v, self.R.fixed)
        assume = box([(ZERO, m) for m in self.n]) & lt0(self.th - self.n[ax]) & ~le0(self.th)
        if alg.is_zero(v - 1, assume):
            return ONE
        sides = self.axes.get(ax, [])
        if len(sides) > 1:
            e = ONE
            for s in sides:
                e = e * self.expected("kappa", ax, s, self.dx[ax])
            if alg.is_zero(v - e, assume & lt0(2 * self.th - self.n[ax])):
                return sym("KA%d" % ax)
        for side in sides:
            sfx = "" if len(sides) == 1 else side
            for kind in ("kappa", "sigma", "a"):
                for s0 in ({self.dx[0], self.dx[ax]} if kind == "sigma" else (ONE,)):
                    if alg.is_zero(v - self.expected(kind, ax, side, s0), assume):
                        return sym({"kappa": "KA", "sigma": "SI", "a": "AA"}[kind] + str(ax) + sfx)
        self.bad[a] = v
        return None

    def apply(self, v):
        def f(a):
            if a.kind == "load" and a.args[0].kind in ("alloc", "val"):
                return self.name(a)
            return None
        return alg.subst(v, f, {})


def self_delta(x):
    ncoef, delta = strip_self(x.val, x.base, x.key())
    return ncoef == ONE, delta


def nogen_self(v, base):
    """loads of `base` at the own cell, with any memory generation, as one atom"""
    def f(a):
        if a.kind == "load" and a.args[0] is base and len(a.args) > 2:
            return P(atom("load", a.args[0], a.args[1], isint=a.isint))
        return None
    return alg.subst(v, f, {})


def total(cells, f):
    """sum of the per-cell contributions of all stores as one guarded expression"""
    t = ZERO
    for x in cells:
        t = t + ite(box(x.ranges), f(x), ZERO)
    return t


def psi_arrays(v, key, aux):
    out = []
    for a in atoms_deep(v):
        if a.kind == "load" and a.args[0].kind == "alloc" and a.args[1] == key and a.args[0] in aux:
            if a.args[0] not in out:
                out.append(a.args[0])
    return out


def solve(c, which_rules):
    w = world()
    c.assume("patches of a rank share one shape and spacing; absorbing layer at least one cell and thinner than the patch")
    for dim, cfg in ((2, PMLS2), (3, PMLS3)):
        for which in "eb":
            it, R, eff, n, dx, th = analyse(w, c, dim, which, cfg)
            fields, aux, rest = raw_stores(it, R, eff)
            dt = sym("dt")
            guards = TRUE
            for m in n:
                guards = guards & lt0(th - m)
            inbox = box([(ZERO, m) for m in n])
            used = {}
            for i, pmls in enumerate(cfg):
                pr = Prof(it, R, n, dx, th, pmls, which)
                for comp in "xyz":
                    name = which + comp
                    key = "%dD/%s/%s" % (dim, "+".join(pmls) or "interior%d" % i, name)
                    cells = fields.pop((i, name), [])
                    main, psi = [], []
                    problem = None
                    for x in cells:
                        ok, d = self_delta(x)
                        if not ok:
                            problem = "not an in-place update: stores %s" % alg.show(x.val)
                        if [e for e in x.extra if e.n != ONE]:
                            problem = "update repeated (%s)" % (x.extra,)
                        if not alg.b_implies(guards, x.pc):
                            problem = "update only executed under %s" % (x.pc,)
                        (psi if psi_arrays(d, x.key(), aux) else main).append(x)
                    loc = cells[0].loc if cells else None
                    if "yee" in which_rules:
                        exp = ZERO
                        key0 = tuple(I(k) for k in range(dim))
                        for sg, src, ax in curl_terms(which, comp, dim):
                            t = diff(which, i, src, key0, ax) / dx[ax] * (dt * C2 if which == "e" else -dt) * sg
                            if ax in pr.axes:
                                t = t * sym("KA%d" % ax) ** -1
                            exp = exp + t
                        if which == "e":
                            exp = exp - dt / EPS * fld(i, "j" + comp, key0)
                        got = total(main, lambda x: pr.apply(self_delta(x)[1]))
                        ok = problem is None and alg.is_zero(got - ite(inbox, exp, ZERO))
                        c.ob("yee", key, ok, problem or ("update is %s, expected %s over the whole interior" % (alg.show(got), alg.show(exp)) if not ok else ""), loc)
                    if "cpml" in which_rules and pmls:
                        check_psi(c, key, dim, which, comp, i, pr, psi, aux, n, dx, th, dt, used, problem, R)
            for (i, nm), cells in fields.items():
                for x in cells:
                    c.ob(sorted(which_rules)[0], "%dD/%s/f%d.%s/unexpected-write" % (dim, which, i, nm), False, "the %s update also writes %s" % (which.upper(), nm), x.loc)
            for x in rest:
                c.ob(sorted(which_rules)[0], "%dD/%s/%s/unexpected-write" % (dim, which, x.base), False, "writes %s" % (x.base,), x.loc)
            if "cpml" in which_rules:
                for b, cs in aux.items():
                    if b not in used:
                        c.ob("cpml", "%dD/%s/unused-memory-%s" % (dim, which, b), False, "memory variable advanced but not applied to any component", cs[0].loc)


def check_psi(c, key, dim, which, comp, i, pr, psi, aux, n, dx, th, dt, used, problem, R):
    key0 = tuple(I(k) for k in range(dim))
    fac = dt * C2 if which == "e" else -dt
    exp, got = ZERO, ZERO
    nlayer = 0
    msgs = []
    lay = {}
    for sg, src, ax in curl_terms(which, comp, dim):
        for side in pr.axes.get(ax, []):
            sfx = side if len(pr.axes[ax]) > 1 else ""
            ka, si, aa = (sym(q + str(ax) + sfx) for q in ("KA", "SI", "AA"))
            b = P(atom("fn", "exp", (-(si / ka + aa) * dt,)))
            cc = (b - 1) * si / ka / (si + ka * aa) / dx[ax]
            ranges = [(ZERO, m) for m in n]
            ranges[ax] = pr.strip(ax, side)
            lay[(ax, side)] = (sg, b, cc * diff(which, i, src, key0, ax), ranges)
    for (ax, side), (sg, b, drv, ranges) in lay.items():
        k2 = "%s/%s%s" % (key, "xyz"[ax], side)
        inr = box(ranges)
        cand = []
        for x in psi:
            d = self_delta(x)[1]
            ps = psi_arrays(d, x.key(), aux)
            if len(ps) != 1:
                continue
            A = ps[0]
            old = P(atom("load", A, key0))
            new = b * old + drv
            d = pr.apply(nogen_self(d, A))
            if alg.is_zero(d - fac * sg * new) and same_box(R, x.ranges, ranges):
                cand.append((x, A, new))
        if len(cand) != 1:
            near = "; ".join("%s over %s" % (alg.show(pr.apply(self_delta(x)[1])), show_ranges(x.ranges)) for x in psi)
            c.ob("cpml", k2, False, "%d matching corrections (expected 1) over %s; corrections found: %s" % (len(cand), show_ranges(ranges), near[:700] or "none"), psi[0].loc if psi else None)
            continue
        x, A, new = cand[0]
        psi = [y for y in psi if y is not x]
        st = aux.get(A, [])
        got = total(st, lambda y: pr.apply(nogen_self(y.val, A)))
        ok = problem is None and A not in used and len(st) > 0 and alg.is_zero(got - ite(inr, new, ZERO))
        c.ob("cpml", k2, ok, problem or "memory variable stored as %s" % alg.show(got), st[0].loc if st else x.loc)
        used[A] = k2
    for x in psi:
        c.ob("cpml", key + "/extra", False, "extra correction %s over %s" % (alg.show(pr.apply(self_delta(x)[1])), show_ranges(x.ranges)), x.loc)


def same_box(R, a, b):
    return len(a) == len(b) and all(not (x[0] - y[0]).t and not (x[1] - y[1]).t for x, y in zip(a, b))


def yee(c):
    c.rule("yee", "every interior cell of every patch gets exactly E += dt*(c^2 curl B - J/eps0) with backward differences, B -= dt curl E with forward differences (each curl term divided by the stretching profile of its axis in absorbing patches); nothing else is written")
    solve(c, {"yee"})
    c.floor("yee", 2 * 3 * (len(PMLS2) + len(PMLS3)))


def cpml(c):
    c.rule("cpml", "in each absorbing layer every transverse component gets exactly one recursive-convolution correction per layer, with decay exp(-(sigma/kappa+a)dt), the matching strip, sign and difference; profiles mirror between low/high sides and axes")
    solve(c, {"cpml"})
    c.floor("cpml", 92)
