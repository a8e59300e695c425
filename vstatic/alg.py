"""Value-number algebra used by the dataflow engine.

 * Atom  - interned uninterpreted term (symbol, load, floor(..), ite(..), ...)
 * Poly  - Laurent polynomial over atoms with rational coefficients, the
           canonical value number of an arithmetic expression
 * BDD   - canonical boolean functions over comparison atoms, used for path
           conditions and gating functions

Everything is hash-consed, so equality of two normal forms is identity for
BDDs and structural equality for polynomials.
"""
import math
from fractions import Fraction
import itertools
import sys

sys.setrecursionlimit(20000)

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "id", "isint", "note")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def atom(kind, *args, isint=False, note=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(_atom_list)
        a.isint = isint
        a.note = note
        _atom_list.append(a)
        _atoms[key] = a
    elif isint and not a.isint:
        a.isint = True
    return a


def show_atom(a):
    if a.kind == "let":
        return "let%d" % a.id
    k = a.kind
    if k == "sym":
        return str(a.args[0])
    if k == "load":
        return "%s[%s]" % (a.args[0], ",".join(map(str, a.args[1]))) + (
            "" if len(a.args) < 3 or not a.args[2] else "'%s" % (a.args[2],))
    if k == "attr":
        return "%s.%s" % (a.args[0], a.args[1]) + (
            "" if len(a.args) < 3 or not a.args[2] else "'%s" % (a.args[2],))
    if k == "ite":
        return "ite(%s ? %s : %s)" % a.args[:3]
    if k == "lt":
        return "(%s<0)" % (a.args[0],)
    if k == "le":
        return "(%s<=0)" % (a.args[0],)
    if k == "eq":
        return "(%s==0)" % (a.args[0],)
    if k == "truth":
        return "?%s" % (a.args[0],)
    return "%s(%s)" % (k, ",".join(map(str, a.args)))


# ---------------------------------------------------------------- polynomials

class Poly:
    __slots__ = ("t", "_h", "_int")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._int = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return NotImplemented
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        t = {}
        special = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, sp = mono_mul(m1, m2)
                special = special or sp
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        r = Poly(t)
        if special:
            r = reduce_special(r)
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def __pow__(self, n):
        if isinstance(n, Poly):
            n = n.const()
        if n is None:
            raise ValueError
        n = Fraction(n)
        if n.denominator == 1:
            n = int(n)
            if n < 0:
                return inv(self) ** (-n)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if n.denominator == 2:
            s = sqrt(self)
            return s ** int(n * 2)
        raise ValueError("pow")

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return c
        return None

    def is_zero(self):
        return not self.t

    def as_atom(self):
        """the atom if this is exactly one atom, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atom_list[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(_atom_list[a])
        return s

    def isint(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(e > 0 and _atom_list[a].isint for a, e in m)
                            for m, c in self.t.items())
        return self._int

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2, _mono_special(m2)
    if not m2:
        return m1, _mono_special(m1)
    d = dict(m1)
    sp = False
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    for a, e in d.items():
        k = _atom_list[a].kind
        if k == "sqrt" and (e > 1 or e < -1):
            sp = True
        elif k == "paren" and e > 0:
            sp = True
    return tuple(sorted(d.items())), sp


def _mono_special(m):
    for a, e in m:
        k = _atom_list[a].kind
        if k == "sqrt" and (e > 1 or e < -1):
            return True
        if k == "paren" and e > 0:
            return True
    return False


def reduce_special(p):
    """sqrt(P)^2 -> P ; paren(P)^n (n>0) -> expand"""
    r = ZERO
    plain = {}
    for m, c in p.t.items():
        if not _mono_special(m):
            plain[m] = plain.get(m, 0) + c
            continue
        acc = Poly({(): c})
        rest = []
        for a, e in m:
            A = _atom_list[a]
            if A.kind == "sqrt" and (e > 1 or e < -1):
                inner = A.args[0]
                q, rem = divmod(abs(e), 2)
                f = inner ** q if e > 0 else inv(inner) ** q
                acc = acc * f
                if rem:
                    rest.append((a, 1 if e > 0 else -1))
            elif A.kind == "paren" and e > 0:
                acc = acc * (A.args[0] ** e)
            else:
                rest.append((a, e))
        acc = acc * Poly({tuple(rest): Fraction(1)})
        r = r + acc
    return r + Poly({m: c for m, c in plain.items() if c})


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def snap(f):
    """decimal literal -> rational; 0.3333333333333333 -> 1/3"""
    if isinstance(f, int):
        return Fraction(f)
    if f != f or f in (float("inf"), float("-inf")):
        return None
    fr = Fraction(repr(f)) if not isinstance(f, Fraction) else f
    if fr == 0 or fr.denominator < 10000:
        return fr
    near = fr.limit_denominator(2000)
    if near != 0 and abs(near - fr) <= abs(fr) * Fraction(1, 10 ** 14):
        return near
    return fr


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        s = snap(x)
        if s is None:
            return P(atom("fconst", repr(x)))
        return Poly({(): s}) if s else ZERO
    raise TypeError("not numeric: %r" % (x,))


def sym(name, isint=False):
    return P(atom("sym", name, isint=isint))


def content(p):
    """(scale, primitive) with primitive's leading coefficient +1"""
    if not p.t:
        return Fraction(0), p
    lead = max(p.t)
    c = p.t[lead]
    if c == 1:
        return c, p
    return c, Poly({m: v / c for m, v in p.t.items()})


def inv(p):
    if not p.t:
        return P(atom("inv0"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({tuple((a, -e) for a, e in m): 1 / c})
        return reduce_special(r) if _mono_special(tuple((a, -e) for a, e in m)) else r
    # pull out common monomial factor
    g, rest = common_mono(p)
    if g:
        return inv(Poly({g: Fraction(1)})) * inv(rest)
    c, prim = content(p)
    return Poly({((atom("paren", prim).id, -1),): 1 / c})


def common_mono(p):
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(d):
            e = md.get(a, 0)
            if (d[a] > 0) != (e > 0) or e == 0:
                del d[a]
            elif abs(e) < abs(d[a]):
                d[a] = e
        if not d:
            return (), p
    g = tuple(sorted(d.items()))
    rest = {}
    for m, c in p.t.items():
        md = dict(m)
        for a, e in d.items():
            md[a] -= e
            if not md[a]:
                del md[a]
        rest[tuple(sorted(md.items()))] = c
    return g, Poly(rest)


def _isqrt_frac(f):
    import math
    if f < 0:
        return None
    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


def sqrt(p):
    p = P(p)
    c = p.const()
    if c is not None:
        r = _isqrt_frac(c)
        if r is not None:
            return P(r)
    if not p.t:
        return ZERO
    # keep rational scale inside, but pull perfect-square scales
    cc, prim = content(p)
    if cc > 0:
        r = _isqrt_frac(cc)
        if r is not None and r != 1:
            return P(r) * sqrt(prim)
    a = p.as_atom()
    if len(p.t) == 1:
        (m, c1), = p.t.items()
        if c1 == 1 and len(m) == 1 and m[0][1] == -1:
            return inv(sqrt(P(_atom_list[m[0][0]])))
    return P(atom("sqrt", p))


def subst(x, f, memo=None):
    """rebuild Poly/BDD/tuple with atoms mapped by f(atom)->Poly|BDD|None"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is not None:
            return r
        if not any(_needs(a, f, memo) for a in x.atoms()):
            memo[x] = x
            return x
        r = ZERO
        for m, c in x.t.items():
            acc = Poly({(): c})
            for a, e in m:
                v = subst_atom(_atom_list[a], f, memo)
                acc = acc * (P(v) ** e if e > 0 else inv(P(v)) ** (-e))
            r = r + acc
        memo[x] = r
        return r
    if isinstance(x, B):
        if x is TRUE or x is FALSE:
            return x
        k = ("b", x)
        r = memo.get(k)
        if r is not None:
            return r
        v = subst_cond_atom(x.var, f, memo)
        r = ite_b(v, subst(x.hi, f, memo), subst(x.lo, f, memo))
        memo[k] = r
        return r
    if isinstance(x, Atom):
        v = subst_atom(x, f, memo)
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                return a
        return v
    if isinstance(x, tuple):
        return tuple(subst(y, f, memo) for y in x)
    if hasattr(x, "subst"):
        return x.subst(f, memo)
    return x


def _needs(a, f, memo):
    k = ("n", a)
    r = memo.get(k)
    if r is None:
        r = subst_atom(a, f, memo) != P(a)
        memo[k] = r
    return r


def subst_atom(a, f, memo):
    k = ("a", a)
    r = memo.get(k)
    if r is not None:
        return r
    v = f(a)
    if v is None:
        if a.args and any(isinstance(y, (Poly, B, Atom, tuple)) or hasattr(y, "subst") for y in a.args):
            na = tuple(subst(y, f, memo) if isinstance(y, (Poly, B, Atom, tuple)) or hasattr(y, "subst") else y for y in a.args)
            if na == a.args:
                v = P(a)
            else:
                v = rebuild(a, na)
        else:
            v = P(a)
    if isinstance(v, Atom):
        v = P(v)
    memo[k] = v
    return v


def rebuild(a, na):
    k = a.kind
    if k == "sqrt":
        return sqrt(na[0])
    if k == "paren":
        return na[0]
    if k == "ite":
        return ite(na[0], na[1], na[2])
    if k == "floor":
        return floor_(na[0])
    if k == "inv0":
        return P(a)
    h = REBUILD.get(k)
    if h:
        return h(*na)
    if k in ("idiv", "mod") and len(na) == 2:
        return _fold_div(a, na)
    return P(atom(k, *na, isint=a.isint))


REBUILD = {}


EVALFN = {"cos": math.cos, "sin": math.sin, "tan": math.tan, "exp": math.exp, "log": math.log, "atan2": math.atan2, "abs": abs}
NUMFN = {"exp": math.exp, "log": math.log, "log10": math.log10, "log2": math.log2, "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "abs": abs,
         "fabs": abs, "expm1": math.expm1, "log1p": math.log1p, "arctan": math.atan, "atan": math.atan, "sqrt": math.sqrt, "float": float}


def _root(v):
    """square root, exact where it can be"""
    if isinstance(v, (int, Fraction)):
        v = Fraction(v)
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return Fraction(p, q)
    return math.sqrt(v)


def evaluate(x, leaf, memo=None):
    """value of a formula at a point: leaf(atom) gives numbers for symbols (None: look inside)"""
    if memo is None:
        memo = {}

    def num(x):
        if not isinstance(x, Poly):
            r = leaf(x)
            if r is not None:
                return r
            x = P(x)
        r = memo.get(x)
        if r is None:
            r = 0
            for m, c in x.t.items():
                acc = c
                for a, e in m:
                    acc = acc * at(_atom_list[a]) ** e
                r = r + acc
            memo[x] = r
        return r

    def at(a):
        r = memo.get(("a", a))
        if r is not None:
            return r
        r = leaf(a)
        if r is None:
            k = a.kind
            if k == "ite":
                r = num(a.args[1] if cond(a.args[0]) else a.args[2])
            elif k == "floor":
                r = Fraction(num(a.args[0])).__floor__()
            elif k in ("idiv", "mod") and len(a.args) == 2:
                p, q = num(a.args[0]), num(a.args[1])
                if p < 0 or q <= 0:
                    raise ValueError("division of %s by %s" % (p, q))
                r = p // q if k == "idiv" else p % q
            elif k == "table" and len(a.args) == 2:
                t = getattr(a.args[0], "items", a.args[0])
                r = num(t[int(num(a.args[1]))])
            elif k == "paren" or k == "let":
                r = num(a.args[0])
            elif k == "trunc":
                r = math.trunc(Fraction(num(a.args[0])))
            elif k == "fn" and str(a.args[0]) in ("round", "int", "trunc", "math.ceil", "math.floor", "numpy.ceil", "numpy.floor") and len(a.args[1]) == 1:
                f = str(a.args[0]).split(".")[-1]
                v = Fraction(num(a.args[1][0]))
                r = round(v) if f == "round" else math.ceil(v) if f == "ceil" else math.floor(v) if f == "floor" else math.trunc(v)
            elif k == "sqrt":
                v = num(a.args[0])
                r = math.nan if v < 0 else _root(v)
            elif k in ("cos", "sin", "tan", "exp", "log", "atan2", "abs") and k in EVALFN:
                r = EVALFN[k](*[float(num(x)) for x in a.args])
            elif k == "cbrt":
                r = math.cbrt(num(a.args[0]))
            elif k == "pow":
                v, y = num(a.args[0]), num(a.args[1])
                r = math.nan if v < 0 else float(v) ** float(y)
            elif k == "fn" and str(a.args[0]).split(".")[-1] in NUMFN and len(a.args[1]) == 1:
                r = NUMFN[str(a.args[0]).split(".")[-1]](num(a.args[1][0]))
            else:
                raise ValueError("no value for %s" % (a,))
        memo[("a", a)] = r
        return r

    def cond(b):
        while b is not TRUE and b is not FALSE:
            a = b.var
            if a.kind in ("lt", "le", "eq"):
                v = num(a.args[0])
                t = v < 0 if a.kind == "lt" else v <= 0 if a.kind == "le" else v == 0
            else:
                t = leaf(a)
                if t is None and a.kind == "truth" and isinstance(a.args[0], Atom) and a.args[0].kind == "fn" and str(a.args[0].args[0]) in ("isnan", "isinf", "isfinite"):
                    t = getattr(math, str(a.args[0].args[0]))(num(a.args[0].args[1][0]))
                if t is None:
                    raise ValueError("no value for %s" % (a,))
            b = b.hi if t else b.lo
        return b is TRUE
    return cond(x) if isinstance(x, B) else num(x)


def _fold_div(a, na):
    """integer quotient/remainder of constants; only where truncation and flooring agree"""
    x, y = na
    if isinstance(x, Poly) and isinstance(y, Poly):
        p, q = x.const(), y.const()
        if p is not None and q is not None and q > 0 and p >= 0:
            return P(p // q) if a.kind == "idiv" else P(p % q)
    return P(atom(a.kind, *na, isint=a.isint))


def subst_cond_atom(a, f, memo):
    v = f(a)
    if v is not None:
        return v
    if a.kind in ("lt", "le", "eq"):
        p = subst(a.args[0], f, memo)
        return {"lt": lt0, "le": le0, "eq": eq0}[a.kind](p)
    if a.kind == "truth":
        x = a.args[0]
        y = subst(x, f, memo) if isinstance(x, (Poly, Atom, tuple)) or hasattr(x, "subst") else x
        if isinstance(y, Poly) and not isinstance(x, Poly):
            b = y.as_atom()
            y = b if b is not None else y
        if isinstance(y, Atom):
            return var_b(atom("truth", y))
        return truth(y)
    na = tuple(subst(y, f, memo) if isinstance(y, (Poly, B, Atom, tuple)) or hasattr(y, "subst") else y for y in a.args)
    return var_b(atom(a.kind, *na, isint=a.isint))


def floor_(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    if p.isint():
        return p
    # floor(x + n) = floor(x) + n for integer-valued part
    ip, rp = {}, {}
    for m, co in p.t.items():
        q = Poly({m: co})
        if q.isint():
            ip[m] = co
        else:
            rp[m] = co
    if ip and rp:
        k = rp.get((), None)
        return Poly(ip) + floor_(Poly(rp))
    if FACTS is not None:
        lo, hi, lop, hip = interval(p)
        if lo is not None and hi is not None:
            a = math.floor(lo)
            b = math.floor(hi) if not (hip and hi == math.floor(hi)) else math.floor(hi) - 1
            if a == b:
                return P(a)
    if () in p.t:
        k = p.t[()]
        n = k.numerator // k.denominator
        if n:
            return P(n) + P(atom("floor", p - n, isint=True))
    return P(atom("floor", p, isint=True))


# ------------------------------------------------------------------- BDDs

class B:
    __slots__ = ("var", "hi", "lo", "id")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_b(self)

    def __and__(self, o):
        return ite_b(self, o, FALSE)

    def __or__(self, o):
        return ite_b(self, TRUE, o)

    def __invert__(self):
        return ite_b(self, FALSE, TRUE)

    def __bool__(self):
        raise TypeError("BDD used as bool")


_bn = {}
_bid = itertools.count()


def _mkleaf():
    b = B()
    b.var = None
    b.hi = b.lo = None
    b.id = next(_bid)
    return b


TRUE = _mkleaf()
FALSE = _mkleaf()


def node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v.id, hi.id, lo.id)
    n = _bn.get(k)
    if n is None:
        n = B()
        n.var, n.hi, n.lo, n.id = v, hi, lo, next(_bid)
        _bn[k] = n
    return n


def var_b(a):
    return node(a, TRUE, FALSE)


_ite_memo = {}


def ite_b(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = min((x.var for x in (f, g, h) if x.var is not None), key=lambda a: a.id)
    r = node(v, ite_b(_co(f, v, 1), _co(g, v, 1), _co(h, v, 1)),
             ite_b(_co(f, v, 0), _co(g, v, 0), _co(h, v, 0)))
    _ite_memo[k] = r
    return r


def _co(f, v, val):
    if f.var is v:
        return f.hi if val else f.lo
    return f


def restrict_care(f, c):
    """simplify f under care set c (Coudert-Madre restrict)"""
    if c is FALSE:
        return f
    memo = {}

    def go(f, c):
        if c is TRUE or f.var is None:
            return f
        k = (f.id, c.id)
        if k in memo:
            return memo[k]
        fv, cv = f.var, c.var
        if fv is cv:
            if c.lo is FALSE:
                r = go(f.hi, c.hi)
            elif c.hi is FALSE:
                r = go(f.lo, c.lo)
            else:
                r = node(fv, go(f.hi, c.hi), go(f.lo, c.lo))
        elif cv.id < fv.id:
            r = go(f, c.hi | c.lo)
        else:
            r = node(fv, go(f.hi, c), go(f.lo, c))
        memo[k] = r
        return r
    return go(f, c)


def b_atoms(f, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.var is None or x in seen:
            continue
        seen.add(x)
        acc.add(x.var)
        st.append(x.hi)
        st.append(x.lo)
    return acc


def cofactor(f, v, val):
    memo = {}

    def go(f):
        if f.var is None or f.var.id > v.id:
            return f
        if f.var is v:
            return f.hi if val else f.lo
        if f in memo:
            return memo[f]
        r = node(f.var, go(f.hi), go(f.lo))
        memo[f] = r
        return r
    return go(f)


def implies(a, b):
    return (a & ~b) is FALSE


def cubes(f):
    """list of dict atom->bool (paths to TRUE)"""
    out = []

    def go(f, cur):
        if f is TRUE:
            out.append(dict(cur))
            return
        if f is FALSE:
            return
        cur.append((f.var, True))
        go(f.hi, cur)
        cur.pop()
        cur.append((f.var, False))
        go(f.lo, cur)
        cur.pop()
    go(f, [])
    return out


def show_b(f):
    if f is TRUE:
        return "true"
    if f is FALSE:
        return "false"
    cs = cubes(f)
    return " | ".join(" & ".join(("" if v else "!") + str(a) for a, v in c.items()) for c in cs[:6]) + (
        "" if len(cs) <= 6 else " | ...")


# ---------------------------------------------------------- comparison atoms

def _neg_lead(p):
    m = max((m for m in p.t if m != ()), default=None)
    return m is not None and p.t[m] < 0


def _prim(p):
    m = max((m for m in p.t if m != ()))
    c = abs(p.t[m])
    return p if c == 1 else Poly({k: v / c for k, v in p.t.items()})


def lift_ite(p, f):
    """apply f to p's ite cases when p is exactly one small ite"""
    return None


FACTS = None        # {"range": {atom: (lo, hi)} open intervals, "pos": {atoms known > 0}}


def interval(p):
    """(lo, hi, lo_open, hi_open) of p from FACTS; None = unbounded"""
    if FACTS["pos"] and p.t and () not in p.t:
        g, q = common_mono(p)
        g2 = [(a, e) for a, e in g if _atom_list[a] in FACTS["pos"]]
        if g2 and len(g2) == len(g):
            lo, hi, a, b = interval(q)
            return (0 if lo is not None and lo >= 0 else None), (0 if hi is not None and hi <= 0 else None), a or (lo is not None and lo > 0), b or (hi is not None and hi < 0)
    lo = hi = Fraction(0)
    lop = hip = False
    for m, c in p.t.items():
        if m == ():
            if lo is not None:
                lo += c
            if hi is not None:
                hi += c
            continue
        a = _atom_list[m[0][0]]
        r = FACTS["range"].get(a) if len(m) == 1 and m[0][1] == 1 else None
        if r is not None:
            l, h, o = r[0], r[1], True
        elif all(e > 0 and _atom_list[x].kind == "slack" for x, e in m):
            l, h, o = Fraction(0), None, False
        elif all(_atom_list[x] in FACTS["pos"] or _atom_list[x].kind == "slack" and e > 0 for x, e in m):
            l, h, o = Fraction(0), None, not any(_atom_list[x].kind == "slack" for x, e in m)
        else:
            return None, None, False, False
        if c < 0:
            l, h = h, l
        l = None if l is None else l * c
        h = None if h is None else h * c
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        lop = lop or o
        hip = hip or o
    return lo, hi, lop, hip


def lt0(p):
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if FACTS is not None:
        lo, hi, lop, hip = interval(p)
        if hi is not None and (hi < 0 or hi == 0 and hip):
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    a = p.as_atom()
    lift = _split_ite(p)
    if lift is not None:
        cnd, x, y = lift
        return ite_b(cnd, lt0(x), lt0(y))
    if p.isint():
        # scale to coprime integers
        p = _intprim(p)
        if _neg_lead(p):
            # p<0  <=>  -p>0 <=> !(-p<=0) <=> !(-p-1<0)
            return ~var_b(atom("lt", -p - 1))
        return var_b(atom("lt", p))
    p = _prim(p)
    if _neg_lead(p):
        return ~var_b(atom("le", -p))
    return var_b(atom("lt", p))


def _intprim(p):
    from math import gcd, floor
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = gcd(g, int(c))
    if g <= 1:
        return p
    # g*q + k < 0  <=> q + ceil-ish ; q < -k/g <=> q - floor... use q + floor(k/g) (+1 if inexact?) 
    k = p.t.get((), Fraction(0))
    # q < -k/g  <=> q <= ceil(-k/g)-1  <=> q - ceil(-k/g) < 0
    t = {m: c / g for m, c in p.t.items() if m != ()}
    import math
    kk = -math.ceil(-k / g)
    if kk:
        t[()] = Fraction(kk)
    return Poly(t)


def le0(p):
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if FACTS is not None:
        lo, hi, lop, hip = interval(p)
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and (lo > 0 or lo == 0 and lop):
            return FALSE
    lift = _split_ite(p)
    if lift is not None:
        cnd, x, y = lift
        return ite_b(cnd, le0(x), le0(y))
    if p.isint():
        return lt0(p - 1)
    p = _prim(p)
    if _neg_lead(p):
        return ~var_b(atom("lt", -p))
    return var_b(atom("le", p))


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if FACTS is not None:
        lo, hi, lop, hip = interval(p)
        if hi is not None and (hi < 0 or hi == 0 and hip) or lo is not None and (lo > 0 or lo == 0 and lop):
            return FALSE
    lift = _split_ite(p)
    if lift is not None:
        cnd, x, y = lift
        return ite_b(cnd, eq0(x), eq0(y))
    p = _prim(p)
    if _neg_lead(p):
        p = -p
    return var_b(atom("eq", p))


def _split_ite(p):
    for a in p.atoms():
        if a.kind == "ite" and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
            ca, cb = a.args[1], a.args[2]
            if ca.const() is not None or cb.const() is not None:
                def mk(v):
                    return top_replace(p, a, v)
                return a.args[0], mk(ca), mk(cb)
    return None


def top_replace(p, a, v):
    """p with the top-level atom a replaced by v"""
    r = ZERO
    for m, co in p.t.items():
        acc = Poly({(): co})
        for aid, e in m:
            acc = acc * ((v if _atom_list[aid] is a else P(_atom_list[aid])) ** e)
        r = r + acc
    return r


def truth(x):
    """boolean view of a value"""
    if isinstance(x, B):
        return x
    if isinstance(x, Poly):
        return ~eq0(x)
    if isinstance(x, Atom):
        return ~eq0(P(x))
    return var_b(atom("truth", x))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b or a == b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return ite_b(c, a, b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        # canonical orientation: root var positive on hi side is natural; normalise !c
        # factor out common additive part? keep simple but canonical for single-var negation
        if c.hi is FALSE and c.lo is TRUE:
            c, a, b = ~c, b, a
        # nested simplification
        a = restrict_val(a, c, True)
        b = restrict_val(b, c, False)
        if a == b:
            return a
        return P(atom("ite", c, a, b, isint=a.isint() and b.isint()))
    return P(atom("ite", c, a, b))


def restrict_val(v, c, pos):
    """inside v, top-level ite atoms whose condition is decided by c simplify"""
    care = c if pos else ~c
    def f(x):
        if x.kind == "ite":
            cc = x.args[0]
            if implies(care, cc):
                return x.args[1] if isinstance(x.args[1], Poly) else None
            if implies(care, ~cc):
                return x.args[2] if isinstance(x.args[2], Poly) else None
        return None
    if not isinstance(v, Poly):
        return v
    if not any(a.kind == "ite" for a in v.atoms()):
        return v
    for _ in range(20):
        hit = None
        for a in v.atoms():
            if a.kind == "ite" and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
                cc = a.args[0]
                if implies(care, cc):
                    hit = (a, a.args[1])
                    break
                if implies(care, ~cc):
                    hit = (a, a.args[2])
                    break
        if not hit:
            break
        A, val = hit
        r = ZERO
        for m, co in v.t.items():
            acc = Poly({(): co})
            for aid, e in m:
                base = val if _atom_list[aid] is A else P(_atom_list[aid])
                acc = acc * (base ** e)
            r = r + acc
        v = r
    return v


# ----------------------------------------------------------------- equality

def clear_den(p):
    """multiply by all paren/neg-exponent/negative-sqrt factors; result has the same zero set"""
    for _ in range(60):
        need = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    if need.get(a, 0) > e:
                        need[a] = e
        if not need:
            return p
        f = Poly({tuple(sorted((a, -e) for a, e in need.items())): Fraction(1)})
        # multiply term-wise without triggering infinite loop
        t = {}
        sp = False
        for m, c in p.t.items():
            mm, s = mono_mul(m, next(iter(f.t)))
            sp = sp or s
            n = t.get(mm, 0) + c
            if n:
                t[mm] = n
            else:
                t.pop(mm, None)
        p = Poly(t)
        if sp:
            p = reduce_special(p)
    return p


def conds_in(x, acc=None):
    """condition atoms appearing in ite gates inside a Poly"""
    acc = set() if acc is None else acc
    seen = set()

    def go(y):
        if isinstance(y, Poly):
            for a in y.atoms():
                ga(a)
        elif isinstance(y, Atom):
            ga(y)
        elif isinstance(y, B):
            for a in b_atoms(y):
                acc.add(a)
        elif isinstance(y, tuple):
            for z in y:
                go(z)

    def ga(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == "ite":
            go(a.args[0])
            go(a.args[1])
            go(a.args[2])
        else:
            for z in a.args:
                if isinstance(z, (Poly, Atom, tuple)):
                    go(z)
    go(x)
    return acc


def assign_cond(x, a, val):
    """fix condition atom a to val inside Poly/B x"""
    memo = {}

    def f(y):
        if y.kind == "ite":
            c = y.args[0]
            if a in b_atoms(c):
                c2 = cofactor(c, a, val)
                return ite(c2, subst(y.args[1], f, memo), subst(y.args[2], f, memo))
        return None
    if isinstance(x, B):
        return cofactor(x, a, val)
    return subst(x, f, memo)


def consistent(assign):
    """quick theory check for a set of (atom,bool) comparison facts over the same linear form"""
    by = {}
    for a, v in assign.items():
        if a.kind not in ("lt", "le", "eq"):
            continue
        p = a.args[0]
        k = p.t.get((), Fraction(0))
        lin = Poly({m: c for m, c in p.t.items() if m != ()})
        by.setdefault(lin, []).append((a.kind, -k, v))   # lin < -k etc.
    for lin, cons in by.items():
        lo, hi = None, None   # (value, strict)
        eqs, nes = [], []
        isint = lin.isint()
        for k, b, v in cons:
            if k == "lt":
                if v:
                    hi = _tight(hi, (b, True), -1)
                else:
                    lo = _tight(lo, (b, False), 1)
            elif k == "le":
                if v:
                    hi = _tight(hi, (b, False), -1)
                else:
                    lo = _tight(lo, (b, True), 1)
            else:
                (eqs if v else nes).append(b)
        for e in eqs:
            if any(e != e2 for e2 in eqs) or e in nes:
                return False
            if lo and (e < lo[0] or (e == lo[0] and lo[1])):
                return False
            if hi and (e > hi[0] or (e == hi[0] and hi[1])):
                return False
        if lo and hi:
            if lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1])):
                return False
            if isint and lo[0] == hi[0] and lo[0] in nes:
                return False
            if isint and hi[1] and lo[0] == hi[0] - 1 and not lo[1] and lo[0] in nes:
                return False
            if lo[0] == hi[0] and lo[0] in nes:
                return False
    return True


def _tight(cur, new, d):
    if cur is None:
        return new
    if d < 0:
        if new[0] < cur[0] or (new[0] == cur[0] and new[1]):
            return new
    else:
        if new[0] > cur[0] or (new[0] == cur[0] and new[1]):
            return new
    return cur


def b_feasible(f, facts=None):
    """is f satisfiable w.r.t. the simple comparison theory"""
    for c in cubes(f):
        d = dict(facts or {})
        bad = False
        for a, v in c.items():
            if a in d and d[a] != v:
                bad = True
                break
            d[a] = v
        if not bad and consistent(d):
            return True
    return False


def b_equiv(f, g):
    """equivalence modulo the comparison theory"""
    if f is g:
        return True
    d = (f & ~g) | (~f & g)
    return not b_feasible(d)


def b_implies(f, g):
    d = f & ~g
    return d is FALSE or not b_feasible(d)


def is_zero(p, assume=None, depth=0, facts=None):
    """decides p == 0 by clearing denominators and splitting on gate conditions"""
    if not p.t:
        return True
    q = clear_den(p)
    if not q.t:
        return True
    facts = facts or {}
    cs = conds_in(q)
    cs = [c for c in cs if c not in facts]
    if not cs or depth > 14:
        return False
    a = min(cs, key=lambda c: c.id)
    for val in (True, False):
        f2 = dict(facts)
        f2[a] = val
        if not consistent(f2):
            continue
        if assume is not None:
            as2 = cofactor(assume, a, val)
            if as2 is FALSE:
                continue
        else:
            as2 = None
        if not is_zero(assign_cond(q, a, val), as2, depth + 1, f2):
            return False
    return True


def equal(a, b, assume=None):
    if isinstance(a, B) and isinstance(b, B):
        if assume is not None:
            a, b = a & assume, b & assume
        return b_equiv(a, b)
    if isinstance(a, B):
        a = ite(a, ONE, ZERO)
    if isinstance(b, B):
        b = ite(b, ONE, ZERO)
    if isinstance(a, Poly) and isinstance(b, Poly):
        facts = {}
        if assume is not None:
            for c in cubes(assume) if assume is not TRUE else []:
                pass
            for at in b_atoms(assume):
                if cofactor(assume, at, True) is FALSE:
                    facts[at] = False
                elif cofactor(assume, at, False) is FALSE:
                    facts[at] = True
        d = a - b
        for at, v in facts.items():
            d = assign_cond(d, at, v)
        return is_zero(d, assume, 0, facts)
    return a == b


# ------------------------------------------------------------------ printing

def show(p, maxterms=12):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda kv: (len(kv[0]), kv[0]))):
        if i >= maxterms:
            out.append("+...(%d terms)" % len(p.t))
            break
        fs = []
        for a, e in m:
            s = show_atom(_atom_list[a])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        cs = str(c) if c.denominator < 10 ** 6 else "%g" % float(c)
        if not fs:
            term = cs
        elif c == 1:
            term = "*".join(fs)
        elif c == -1:
            term = "-" + "*".join(fs)
        else:
            term = cs + "*" + "*".join(fs)
        out.append(term if not out or term.startswith("-") else "+" + term)
    return "".join(out)


# ------------------------------------------------- sign of affine expressions

def sign_affine(p, bounds, nonneg):
    """Return '+', '-', '0+', '0-', None for an affine Poly.

    bounds: atom -> (lo Poly, hi Poly inclusive) for loop variables
    nonneg: substitution atom -> Poly in slack atoms that are >= 0
    Decides lower bound >=0 / upper bound <0 by pushing loop variables to their
    extremes and testing that every slack coefficient has one sign.
    """
    lo = extreme(p, bounds, -1)
    hi = extreme(p, bounds, +1)
    def slack(q):
        if not nonneg or not any(a in nonneg or a.kind in ("ite", "idiv", "mod", "wrap", "floor", "max0") for a in q.atoms()):
            return q
        return subst(q, lambda a: nonneg.get(a))
    r = None
    def known(q):
        return all(a.kind == "slack" for a in q.atoms()) and all(e > 0 for m in q.t for _, e in m)
    if lo is not None:
        s = slack(lo)
        if known(s) and all(c >= 0 for c in s.t.values()):
            return "+"      # >= 0
    if hi is not None:
        s = slack(hi)
        if s.isint():
            s = s + 1
            ok = True
        else:
            ok = s.t.get((), 0) < 0
        if known(s) and ok and all(c <= 0 for c in s.t.values()):
            return "-"      # < 0
    return r


def extreme(p, bounds, d):
    for _ in range(30):
        vs = [a for a in p.atoms() if a in bounds]
        if not vs:
            return p
        # innermost first: pick var with greatest id (created last)
        a = max(vs, key=lambda z: z.id)
        co = ZERO
        rest = ZERO
        for m, c in p.t.items():
            md = dict(m)
            if a.id in md:
                if md[a.id] != 1:
                    return None
                mm = tuple((x, e) for x, e in m if x != a.id)
                co = co + Poly({mm: c})
            else:
                rest = rest + Poly({m: c})
        cc = co.const()
        if cc is None:
            return None
        lo, hi = bounds[a]
        v = hi if (cc > 0) == (d > 0) else lo
        if v is None:
            return None
        p = rest + co * v
    return None


def slack(name):
    """a symbolic integer known to be >= 0"""
    return P(atom("slack", name, isint=True))
