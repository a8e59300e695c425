"""Python front end: ast -> IR, plus a light module/class index of the package."""
import ast
import os

from .ir import N, Func

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
       ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}


class PConv:
    def __init__(self, file):
        self.file = file

    def L(self, n):
        return (self.file, getattr(n, "lineno", 0))

    def body(self, xs):
        out = []
        for x in xs:
            s = self.stmt(x)
            if s is None:
                continue
            if isinstance(s, list):
                out.extend(s)
            else:
                out.append(s)
        return out

    def func(self, n, cls=None, module=None):
        a = n.args
        params = []
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            d = None
            j = i - (len(pos) - nd)
            if j >= 0:
                d = self.e(a.defaults[j])
            params.append((p.arg, ast.unparse(p.annotation) if p.annotation else None, d))
        kwonly = []
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            kwonly.append((p.arg, ast.unparse(p.annotation) if p.annotation else None, self.e(d) if d is not None else None))
        body = self.body(n.body) if not isinstance(n, ast.Lambda) else [N("return", (self.e(n.body),), self.L(n))]
        return Func(getattr(n, "name", "<lambda>"), params, body, self.file, n.lineno, "py", cls=cls, module=module,
                    decorators=[ast.unparse(d) for d in getattr(n, "decorator_list", [])],
                    vararg=a.vararg.arg if a.vararg else None, kwarg=a.kwarg.arg if a.kwarg else None,
                    kwonly=kwonly, node=n)

    def stmt(self, n):
        L = self.L(n)
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return None
            return N("expr", (self.e(n.value),), L)
        if isinstance(n, ast.Assign):
            return N("set", ([self.e(t) for t in n.targets], self.e(n.value)), L)
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return None
            return N("set", ([self.e(n.target)], self.e(n.value)), L)
        if isinstance(n, ast.AugAssign):
            return N("augset", (BIN[type(n.op)], self.e(n.target), self.e(n.value)), L)
        if isinstance(n, ast.If):
            return N("if", (self.e(n.test), self.body(n.body), self.body(n.orelse)), L)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return N("for", (self.e(n.target), self.e(n.iter), self.body(n.body), self.body(n.orelse)), L)
        if isinstance(n, ast.While):
            return N("while", (self.e(n.test), self.body(n.body), self.body(n.orelse)), L)
        if isinstance(n, ast.Return):
            return N("return", (self.e(n.value) if n.value is not None else None,), L)
        if isinstance(n, ast.Break):
            return N("break", (), L)
        if isinstance(n, ast.Continue):
            return N("continue", (), L)
        if isinstance(n, ast.Pass):
            return None
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return N("def", (self.func(n),), L)
        if isinstance(n, ast.ClassDef):
            return N("class", (n.name,), L)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return N("with", ([(self.e(i.context_expr), self.e(i.optional_vars) if i.optional_vars else None) for i in n.items],
                              self.body(n.body)), L)
        if isinstance(n, ast.Try) or n.__class__.__name__ == "TryStar":
            hs = [(self.e(h.type) if h.type else None, h.name, self.body(h.body)) for h in n.handlers]
            return N("try", (self.body(n.body), hs, self.body(n.orelse), self.body(n.finalbody)), L)
        if isinstance(n, ast.Raise):
            return N("raise", (self.e(n.exc) if n.exc else None,), L)
        if isinstance(n, ast.Assert):
            return N("assert", (self.e(n.test),), L)
        if isinstance(n, ast.Delete):
            return N("del", ([self.e(t) for t in n.targets],), L)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return N("global", (list(n.names),), L)
        if isinstance(n, ast.Import):
            return N("import", ([(a.name, a.asname) for a in n.names], None, 0), L)
        if isinstance(n, ast.ImportFrom):
            return N("import", ([(a.name, a.asname) for a in n.names], n.module or "", n.level), L)
        if isinstance(n, ast.Match):
            return self.match(n)
        return N("opaque_stmt", (type(n).__name__,), L)

    def match(self, n):
        L = self.L(n)
        subj = self.e(n.subject)
        res = []
        chain = None
        for c in reversed(n.cases):
            cond = self.pat(c.pattern, subj, L)
            body = self.body(c.body)
            if c.guard is not None:
                g = self.e(c.guard)
                cond = g if cond is None else N("and", ([cond, g],), L)
            if cond is None:
                chain = body
            else:
                chain = [N("if", (cond, body, chain or []), L)]
        return chain or []

    def pat(self, p, subj, L):
        if isinstance(p, ast.MatchValue):
            return N("cmp", ("==", subj, self.e(p.value)), L)
        if isinstance(p, ast.MatchSingleton):
            return N("cmp", ("is", subj, self.e(ast.Constant(p.value))), L)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return None
        if isinstance(p, ast.MatchOr):
            return N("or", ([self.pat(q, subj, L) for q in p.patterns],), L)
        return N("opaque", ("pattern",), L)

    def e(self, n):
        L = self.L(n)
        if n is None:
            return N("none", (), L)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is None:
                return N("none", (), L)
            if isinstance(v, bool):
                return N("bool", (v,), L)
            if isinstance(v, (int, float)):
                return N("num", (v,), L, "int" if isinstance(v, int) else "double")
            if isinstance(v, str):
                return N("str", (v,), L)
            return N("opaque", ("const", repr(v)), L)
        if isinstance(n, ast.Name):
            return N("name", (n.id,), L)
        if isinstance(n, ast.BinOp):
            return N("bin", (BIN[type(n.op)], self.e(n.left), self.e(n.right)), L)
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                return N("un", ("-", self.e(n.operand)), L)
            if isinstance(n.op, ast.Not):
                return N("un", ("!", self.e(n.operand)), L)
            if isinstance(n.op, ast.Invert):
                return N("un", ("~", self.e(n.operand)), L)
            return self.e(n.operand)
        if isinstance(n, ast.BoolOp):
            return N("and" if isinstance(n.op, ast.And) else "or", ([self.e(v) for v in n.values],), L)
        if isinstance(n, ast.Compare):
            parts = []
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                parts.append(N("cmp", (CMP[type(op)], self.e(l), self.e(r)), L))
                l = r
            return parts[0] if len(parts) == 1 else N("and", (parts,), L)
        if isinstance(n, ast.IfExp):
            return N("cond", (self.e(n.test), self.e(n.body), self.e(n.orelse)), L)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Constant) and n.slice.value is Ellipsis:
                return N("sub", (self.e(n.value), N("slice", (None, None, None), L)), L)
            return N("sub", (self.e(n.value), self.e(n.slice)), L)
        if isinstance(n, ast.Slice):
            return N("slice", (self.e(n.lower) if n.lower else None, self.e(n.upper) if n.upper else None,
                               self.e(n.step) if n.step else None), L)
        if isinstance(n, ast.Attribute):
            return N("attr", (self.e(n.value), n.attr, False), L)
        if isinstance(n, ast.Call):
            args = [self.e(a) for a in n.args]
            kw = [(k.arg, self.e(k.value)) for k in n.keywords]
            return N("call", (self.e(n.func), args, kw), L)
        if isinstance(n, ast.Tuple):
            return N("tuple", ([self.e(x) for x in n.elts],), L)
        if isinstance(n, ast.List):
            return N("list", ([self.e(x) for x in n.elts],), L)
        if isinstance(n, ast.Set):
            return N("set_lit", ([self.e(x) for x in n.elts],), L)
        if isinstance(n, ast.Dict):
            return N("dict", ([self.e(x) if x is not None else None for x in n.keys], [self.e(x) for x in n.values]), L)
        if isinstance(n, ast.Starred):
            return N("star", (self.e(n.value),), L)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return N("comp", (type(n).__name__, self.e(n.elt), [(self.e(g.target), self.e(g.iter), [self.e(i) for i in g.ifs]) for g in n.generators]), L)
        if isinstance(n, ast.DictComp):
            return N("comp", ("DictComp", N("tuple", ([self.e(n.key), self.e(n.value)],), L),
                              [(self.e(g.target), self.e(g.iter), [self.e(i) for i in g.ifs]) for g in n.generators]), L)
        if isinstance(n, ast.Lambda):
            return N("lambda", (self.func(n),), L)
        if isinstance(n, ast.JoinedStr):
            return N("fstr", ([self.e(v.value) if isinstance(v, ast.FormattedValue) else N("str", (v.value,), L) for v in n.values],
                              [ast.unparse(v.format_spec) if isinstance(v, ast.FormattedValue) and v.format_spec else None for v in n.values]), L)
        if isinstance(n, ast.NamedExpr):
            return N("assign", (self.e(n.target), self.e(n.value)), L)
        if isinstance(n, ast.Await):
            return self.e(n.value)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return N("yield", (self.e(n.value) if n.value else None,), L)
        return N("opaque", (type(n).__name__,), L)


class PyModule:
    def __init__(self, path, root, src=None):
        if src is None:
            with open(path) as f:
                src = f.read()
        self.src = src
        self.path = path
        self.tree = ast.parse(self.src, path)
        rel = os.path.relpath(path, root)
        self.name = rel[:-3].replace(os.sep, ".")
        if self.name.endswith(".__init__"):
            self.name = self.name[:-9]
            self.ispkg = True
        else:
            self.ispkg = False
        c = PConv(path)
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.imports = {}      # local name -> (module, name|None)
        self.conv = c
        self._collect(self.tree.body, c)

    def _collect(self, body, c):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = c.func(n, module=self)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = PyClass(n, c, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = c.e(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.assigns[n.target.id] = c.e(n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.ispkg:
                        parts = parts[:-1]
                    if n.level > 1:
                        parts = parts[:-(n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(n, ast.If):
                self._collect(n.body, c)
                self._collect(n.orelse, c)
            elif isinstance(n, ast.Try):
                self._collect(n.body, c)
                for h in n.handlers:
                    self._collect(h.body, c)


class PyClass:
    def enum_values(self):
        """member -> int for an integer Enum (auto() continues from the previous value), else None"""
        if not any("Enum" in b for b in self.bases):
            return None
        out = {}
        last = 0
        for nm, v in self.attrs.items():
            if v.op == "num" and isinstance(v.a[0], int) or v.op == "num" and v.a[0] == int(v.a[0]):
                last = int(v.a[0])
            elif v.op == "un" and v.a[0] == "-" and v.a[1].op == "num":
                last = -int(v.a[1].a[0])
            elif v.op == "call" and v.a[0].op == "name" and v.a[0].a[0] == "auto" or v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "auto":
                last += 1
            elif v.op == "name" and v.a[0] in out:
                last = out[v.a[0]]
            else:
                return None
            out[nm] = last
        return out

    def __init__(self, n, c, mod):
        self.name = n.name
        self.module = mod
        self.node = n
        self.bases = [ast.unparse(b) for b in n.bases]
        self.methods = {}
        self.attrs = {}
        self.annots = {}
        self.props = set()
        self.setters = {}
        self.decorators = [ast.unparse(d) for d in n.decorator_list]
        for m in n.body:
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = c.func(m, cls=n.name, module=mod)
                if any(d.endswith(".setter") for d in f.decorators):
                    self.setters[m.name] = f
                    continue
                if any(d == "overload" for d in f.decorators):
                    continue
                self.methods[m.name] = f
                if any(d in ("property", "cached_property", "functools.cached_property") for d in f.decorators):
                    self.props.add(m.name)
            elif isinstance(m, ast.Assign):
                for t in m.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = c.e(m.value)
            elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                self.annots[m.target.id] = ast.unparse(m.annotation)
                if m.value is not None:
                    self.attrs[m.target.id] = c.e(m.value)

    def __repr__(self):
        return "<PyClass %s>" % self.name


class Package:
    """all Python modules below <root>/<pkg>"""

    def __init__(self, srcroot, pkg="lambdapic"):
        self.root = srcroot
        self.mods = {}
        for d, _, fs in os.walk(os.path.join(srcroot, pkg)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    m = PyModule(os.path.join(d, f), srcroot)
                    self.mods[m.name] = m

    def resolve(self, mod, name, depth=0):
        """resolve a global name of a module to Func/PyClass/('mod',m)/('ext',modname,name)/('val',N,module)"""
        if depth > 10:
            return None
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.assigns:
            return ("val", mod.assigns[name], mod)
        if name in mod.imports:
            base, nm = mod.imports[name]
            if nm is None:
                if base in self.mods:
                    return ("mod", self.mods[base])
                return ("ext", base, None)
            if base in self.mods:
                r = self.resolve(self.mods[base], nm, depth + 1)
                if r is not None:
                    return r
            full = base + "." + nm
            if full in self.mods:
                return ("mod", self.mods[full])
            return ("ext", base, nm)
        return None

    def cls(self, name, modhint=None):
        for m in self.mods.values():
            if name in m.classes and (modhint is None or modhint in m.name):
                return m.classes[name]
        return None

    def mro(self, c, seen=None):
        """linearised bases inside the package"""
        bs = [r for r in (self.resolve(c.module, b.split("[")[0].split(".")[-1]) for b in c.bases) if isinstance(r, PyClass)]
        seqs = [self.mro(b) for b in bs] + [bs]
        out = [c]
        while any(seqs):
            seqs = [q for q in seqs if q]
            k = next((q[0] for q in seqs if not any(q[0] in r[1:] for r in seqs)), seqs[0][0])
            out.append(k)
            seqs = [[x for x in q if x is not k] for q in seqs]
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None
