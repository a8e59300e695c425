"""Array-region analysis: turns the stores of an effect tree into affine
regions (linear memory access descriptors, LMADs) in a canonical form.

A store  dst[off + sum s_k v_k] = f(src[off' + sum s'_k v_k])  over the box
0 <= v_k < n_k  is the descriptor (off, off', {(s_k, s'_k, n_k)}).  The
canonical form drops unit dimensions, makes strides positive, fuses dimensions
that walk memory contiguously and merges adjacent descriptors, so the order,
nesting, splitting, fusion or flattening of loops does not matter.
"""
from .alg import *
from . import alg
from .interp import flat, Store, CallE, Loop, Ptr, atoms_deep, AnalysisError


class Broken(AnalysisError):
    """the analysis cannot interpret the code: analysis-broken, never a pass"""


class Access:
    __slots__ = ("base", "idx", "val", "pc", "dims", "loc", "op", "order", "name", "args", "eff", "loops")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    def copy(self, **k):
        a = Access()
        for n in self.__slots__:
            setattr(a, n, getattr(self, n))
        for n, v in k.items():
            setattr(a, n, v)
        return a

    def terms(self):
        return [x for x in (self.base, self.idx, self.val, self.pc, self.args) if x is not None]


class Dim:
    __slots__ = ("var", "n", "par", "lid")

    def __init__(self, var, n, par=False, lid=None):
        self.var, self.n, self.par, self.lid = var, n, par, lid

    def __repr__(self):
        return "%s<%s" % (self.var, self.n)


class Regions:
    def __init__(self, interp, fixed=None):
        """fixed: atom -> Poly facts substituted everywhere (e.g. nx -> ng+slack)"""
        self.it = interp
        self.fixed = dict(fixed or {})
        self.bounds = {}
        self.instances = 0

    # ------------------------------------------------------------ sign facts
    def sign(self, p):
        return alg.sign_affine(p, self.bounds, {})

    def _wrap(self, i, n):
        s = self.sign(i)
        if s == "+":
            return i
        if s == "-":
            return i + n
        return P(atom("wrap", i, n, isint=True))

    def _small(self, x, y):
        return (not x.t) or (self.sign(x) == "+" and self.sign(x - y) == "-")

    def _idiv(self, x, y):
        ex, rest = ZERO, ZERO
        for m, c in x.t.items():
            q = Poly({m: c}) * inv(y) if len(y.t) == 1 else None
            if q is not None and q.isint():
                ex = ex + q
            else:
                rest = rest + Poly({m: c})
        if self._small(rest, y):
            return ex
        if len(y.t) > 1:
            d = self._polydiv(x, y)
            if d is not None and self._small(d[1], y):
                return d[0]
        return P(atom("idiv", x, y, isint=True))

    def _polydiv(self, x, y):
        """x = q*y + r by cancelling the leading monomial of y"""
        lead, lc = max(y.t.items(), key=lambda kv: (sum(e for _, e in kv[0]), kv[0]))
        q, r = ZERO, x
        for _ in range(20):
            for m, c in r.t.items():
                t = Poly({m: c}) * inv(Poly({lead: lc}))
                if t.isint() and all(e > 0 for mm in t.t for _, e in mm):
                    q, r = q + t, r - t * y
                    break
            else:
                return q, r
        return None

    def _mod(self, x, y):
        q = self._idiv(x, y)
        if not any(a.kind == "idiv" for a in q.atoms()):
            return x - q * y
        return P(atom("mod", x, y, isint=True))

    def subst(self, v, mp):
        saved = dict(alg.REBUILD)
        alg.REBUILD.update(wrap=self._wrap, idiv=self._idiv, mod=self._mod)
        try:
            f = lambda a: mp.get(a)
            return alg.subst(v, f, {})
        finally:
            alg.REBUILD.clear()
            alg.REBUILD.update(saved)

    def subst_access(self, a, mp):
        dims = []
        for d in a.dims:
            dims.append(Dim(d.var, self.subst(d.n, mp), d.par, d.lid))
        return a.copy(base=self.sb(a.base, mp), idx=self.subst(a.idx, mp) if a.idx is not None else None,
                      val=self.subst(a.val, mp) if a.val is not None else None, pc=self.subst(a.pc, mp), dims=dims,
                      args=self.subst(tuple(a.args), mp) if a.args is not None else None)

    def sb(self, base, mp):
        if base is None:
            return None
        r = self.subst(base, mp)
        if isinstance(r, Poly) and r.as_atom() is not None:
            r = r.as_atom()
        if isinstance(r, Ptr) and not r.off.t:
            r = r.base
        return r

    # ---------------------------------------------------------------- expand
    def collect(self, effs, want=None):
        """canonical accesses (stores with one polynomial index, and calls) in program order"""
        out = []
        order = 0
        for leaf, loops, pc in flat(effs):
            if not isinstance(leaf, (Store, CallE)):
                continue
            if want is not None and not want(leaf):
                continue
            order += 1
            dims = []
            for lp in loops:
                if lp.hi is None:
                    raise Broken("loop at %s has no recognised trip count" % (lp.loc,))
                dims.append(Dim(lp.var, lp.hi, bool(lp.parallel), lp.var))
            if isinstance(leaf, Store):
                idx = None
                key = leaf.key
                if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], Poly):
                    idx = key[0]
                a = Access(base=leaf.base, idx=idx, val=leaf.val, pc=pc, dims=dims, loc=leaf.loc, op=leaf.op, order=order, eff=leaf, loops=loops)
                if idx is None:
                    a.args = (key,)
            else:
                a = Access(name=leaf.name, args=tuple(leaf.args), pc=pc, dims=dims, loc=leaf.loc, order=order, eff=leaf, loops=loops)
            out.extend(self.expand(a))
        return out

    def expand(self, a):
        if self.fixed:
            a = self.subst_access(a, self.fixed)
        for d in a.dims:
            self.bounds[d.var] = (ZERO, d.n - 1)
        a = self.subst_access(a, {})
        return self._split(a)

    def _split(self, a, depth=0):
        if depth > 12:
            raise Broken("cannot case-split the access at %s" % (a.loc,))
        # 1. flattened loops: v in [0, c*H) used through v/c and v%c
        for i, d in enumerate(a.dims):
            for at in atoms_deep(a.terms()):
                if at.kind in ("idiv", "mod") and d.var in atoms_deep(at.args[0]):
                    c = at.args[1]
                    co = self.coeff(at.args[0], d.var)
                    if co is None or co != ONE:
                        continue
                    rest = at.args[0] - P(d.var)
                    H = d.n * inv(c) if len(c.t) == 1 else self._exact(d.n, c)
                    if H is None or not H.isint():
                        continue
                    q = atom("lvq", d.var, c, isint=True)
                    r = atom("lvr", d.var, c, isint=True)
                    nd = a.dims[:i] + [Dim(q, H, d.par, d.lid), Dim(r, c, d.par, d.lid)] + a.dims[i + 1:]
                    self.bounds[q] = (ZERO, H - 1)
                    self.bounds[r] = (ZERO, c - 1)
                    b = self.subst_access(a.copy(dims=nd), {d.var: c * P(q) + P(r)})
                    return self._split(b, depth + 1)
        # 2. constant-trip loops used in conditions or bases are enumerated
        for i, d in enumerate(a.dims):
            n = d.n.const()
            if n is not None and n <= 64 and self._nonaffine(a, d.var):
                res = []
                for k in range(int(n)):
                    b = a.copy(dims=a.dims[:i] + a.dims[i + 1:])
                    b = self.subst_access(b, {d.var: P(k)})
                    if b.pc is FALSE:
                        continue
                    res += self._split(b, depth + 1)
                return res
        # 3. gating conditions in base / index / value
        for at in atoms_deep([x for x in (a.base, a.idx, a.val) if x is not None]):
            if at.kind == "ite":
                c = at.args[0]
                res = []
                for pol in (c, ~c):
                    npc = a.pc & pol
                    if not alg.b_feasible(npc):
                        continue
                    v = at.args[1] if pol is c else at.args[2]
                    if isinstance(v, Ptr):
                        v = P(v.base) if not v.off.t else v
                    if not isinstance(v, Poly):
                        raise Broken("gated non-numeric value at %s" % (a.loc,))
                    b = a.copy(pc=npc)
                    b = self.subst_access(b, {at: v})
                    b.pc = npc
                    res += self._split(b, depth + 1)
                return res
        if a.pc is FALSE or not alg.b_feasible(a.pc):
            return []
        return [a]

    def _exact(self, n, c):
        d = self._polydiv(n, c)
        if d is not None and not d[1].t:
            return d[0]
        return None

    def coeff(self, p, v):
        """coefficient polynomial of v in p when p is affine in v"""
        co = ZERO
        for m, c in p.t.items():
            for x, e in m:
                if alg._atom_list[x] is v:
                    if e != 1:
                        return None
                    co = co + Poly({tuple((y, f) for y, f in m if y != x): c})
        rest = p - co * P(v)
        if v in atoms_deep(rest) or v in atoms_deep(co):
            return None
        return co

    def _nonaffine(self, a, v):
        if v in atoms_deep([a.pc]):
            return True
        if a.base is not None and v in atoms_deep([a.base]):
            return True
        for x in (a.idx, a.val):
            if isinstance(x, Poly):
                for at in x.atoms():
                    if at.kind == "load" and at is not v:
                        if v in atoms_deep([at.args[0]]):
                            return True
                        for k in at.args[1]:
                            if isinstance(k, Poly) and v in atoms_deep([k]) and self.coeff(k, v) is None:
                                return True
                    elif at is not v and v in atoms_deep([at]):
                        return True
        if a.args is not None and v in atoms_deep(list(a.args)):
            return True
        return False

    # ------------------------------------------------------------------ LMAD
    def lmad(self, dims, *offs):
        """canonical descriptor of simultaneous index polynomials over the box dims.
        -> (offsets tuple, dims tuple of (strides tuple, count))"""
        dd = []
        offs = list(offs)
        for d in dims:
            n = d.n
            ss = []
            for p in offs:
                c = self.coeff(p, d.var)
                if c is None:
                    raise Broken("index %s is not affine in %s" % (p, d.var))
                ss.append(c)
            offs = [p - c * P(d.var) for p, c in zip(offs, ss)]
            if n == ONE:
                continue
            dd.append([ss, n])
        return self.canon(tuple(offs), dd)

    def canon(self, offs, dd):
        offs = list(offs)
        out = []
        for ss, n in dd:
            ss = list(ss)
            neg = False
            if ss and self.sign(ss[0]) == "-":
                neg = True
            if neg:
                offs = [o + s * (n - 1) for o, s in zip(offs, ss)]
                ss = [-s for s in ss]
            out.append((tuple(ss), n))
        # fuse contiguous dims
        ch = True
        while ch:
            ch = False
            for i in range(len(out)):
                for j in range(len(out)):
                    if i != j and all(out[i][0][k] == out[j][0][k] * out[j][1] for k in range(len(offs))) and any(s.t for s in out[j][0]):
                        s, n = out[j]
                        m = out[i][1]
                        for x in sorted((i, j), reverse=True):
                            out.pop(x)
                        out.append((s, n * m))
                        ch = True
                        break
                if ch:
                    break
        out.sort(key=lambda t: repr(t))
        return (tuple(offs), tuple(out))

    def merge(self, descs):
        """merge adjacent descriptors (split loops)"""
        ds = list(descs)
        ch = True
        while ch:
            ch = False
            for i in range(len(ds)):
                for j in range(len(ds)):
                    if i == j:
                        continue
                    m = self._adj(ds[i], ds[j])
                    if m is not None:
                        ds = [d for k, d in enumerate(ds) if k not in (i, j)] + [m]
                        ch = True
                        break
                if ch:
                    break
        return ds

    def _adj(self, a, b):
        (oa, da), (ob, db) = a, b
        delta = [y - x for x, y in zip(oa, ob)]
        # b starts where a ends along one dim, other dims equal
        for (ss, n) in da:
            if all(dl == s * n for dl, s in zip(delta, ss)):
                resta = list(da)
                resta.remove((ss, n))
                for (s2, n2) in db:
                    if s2 == ss:
                        restb = list(db)
                        restb.remove((s2, n2))
                        if resta == restb:
                            return self.canon(oa, resta + [(ss, n + n2)])
                if list(db) == resta:
                    return self.canon(oa, resta + [(ss, n + 1)])
        for (ss, n) in db:
            if all(dl == s for dl, s in zip(delta, ss)):
                restb = list(db)
                restb.remove((ss, n))
                if list(da) == restb:
                    return self.canon(oa, restb + [(ss, n + 1)])
        return None


def show_desc(d):
    offs, dims = d
    return "@(%s) %s" % (", ".join(map(str, offs)), " ".join("[%s]x%s" % (",".join(map(str, s)), n) for s, n in dims))


def copy_parts(val, base=None):
    """value of a store as (coefficient map of load atoms, rest Poly)"""
    loads = []
    rest = ZERO
    for m, c in val.t.items():
        if len(m) == 1 and m[0][1] == 1 and alg._atom_list[m[0][0]].kind == "load":
            loads.append((c, alg._atom_list[m[0][0]]))
        else:
            rest = rest + Poly({m: c})
    return loads, rest
