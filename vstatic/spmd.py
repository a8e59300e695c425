"""Rank uniformity of collective operations (whole-package dataflow over the python syntax trees).

Every value is uniform (the same on all ranks by construction) or varying (derived from the rank, the local patches,
the clock, the file system, a signal, or a receive-like operation).  Interprocedural: parameters join over all call
sites, attributes by name, function results by summary.  Every function has a trace of the collective operations it
reaches; under a varying condition all alternatives, continued to the end of the function, must have the same trace.
"""
import ast
import os

SYNC = {"bcast", "Bcast", "allgather", "Allgather", "Allgatherv", "allreduce", "Allreduce"}
ASYM = {"scatter", "Scatter", "Scatterv", "gather", "Gather", "Gatherv", "reduce", "Reduce", "scan", "Scan", "exscan", "Exscan", "alltoall", "Alltoall", "Alltoallv"}
PLAIN = {"Barrier", "barrier", "Dup", "Split", "Split_type", "Create", "Create_cart", "Clone"}
COLL = SYNC | ASYM | PLAIN
RECV = {"recv", "Recv", "irecv", "Irecv", "sendrecv", "Sendrecv", "probe", "Probe", "iprobe", "Iprobe"}
SOURCES_MOD = {"time", "random", "signal", "socket", "psutil"}
SOURCES_OS = {"getpid", "stat", "listdir", "scandir", "walk", "times", "urandom", "cpu_count", "getenv"}
SOURCES_METH = {"exists", "is_file", "is_dir", "iterdir", "glob", "rglob", "stat", "isatty", "Get_rank", "getmtime", "now", "utcnow", "get_terminal_size"}
# objects and counters each rank has its own of
LOCAL_ATTRS = {"rank", "patches", "particles", "fields", "npatches", "pml_boundary", "pml"}
# configuration held by those objects, the same on every rank
CONFIG_ATTRS = {"dimension", "nx", "ny", "nz", "dx", "dy", "dz", "n_guard", "species", "npatch_x", "npatch_y", "npatch_z", "nx_per_patch", "ny_per_patch",
                "nz_per_patch", "Lx", "Ly", "Lz", "dt", "shape", "dtype", "ndim", "attrs", "cpml_thickness", "boundary_conditions", "__class__", "__name__"}
IMMUTABLE = {"logger", "pbar"}


def is_local(cls):
    return cls.startswith(("Patch", "Fields", "Particles", "CPML", "PML"))


class Fn:
    def __init__(self, mod, cls, node, outer):
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        self.name = node.name
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.var = (a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None)
        self.tp = {}            # parameter -> varying
        self.ret = False
        self.gen = False
        self.static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        self.prop = any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) for d in node.decorator_list)
        self.method = cls is not None and outer is None
        self.qual = ".".join(x for x in (mod.short, cls.name if cls else None, outer.name if outer else None, node.name) if x)
        self.trace = None
        self.nested = {}
        self.sites = []


class Cls:
    def __init__(self, mod, node):
        self.mod, self.name, self.node = mod, node.name, node
        self.bases = [b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "") for b in node.bases]
        self.methods = {}


class Mod:
    def __init__(self, path, rel):
        self.path = path
        self.rel = rel
        self.short = rel[len("lambdapic."):] if rel.startswith("lambdapic.") else rel
        self.tree = ast.parse(open(path).read(), path)
        self.imports = {}     # local name -> (module, name|None)
        self.funcs, self.classes = {}, {}


class Program:
    def __init__(self, root):
        self.src = os.path.join(root, "src")
        self.mods = {}
        self.fns = []
        self.cmods = set()
        pk = os.path.join(self.src, "lambdapic")
        for d, _, fs in sorted(os.walk(pk)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)
                if f.endswith(".py"):
                    r = rel[:-3].replace(os.sep, ".")
                    pkg = r.endswith(".__init__")
                    if pkg:
                        r = r[:-9]
                    m = Mod(p, r)
                    m.pkg = pkg
                    self.mods[r] = m
                elif f.endswith(".c"):
                    self.cmods.add(rel[:-2].replace(os.sep, "."))
        self.meths, self.byname, self.clsname = {}, {}, {}
        for m in self.mods.values():
            self.scan(m)
        self.subs = {}
        for cs in self.clsname.values():
            for c in cs:
                for b in c.bases:
                    self.subs.setdefault(b, []).append(c)
        self.attrV = {}        # (class, attribute) -> where it became varying
        self.attrnames = set()
        self.hattr = set()
        self.why = {}
        self.strsets = set()   # attributes that hold a set of strings
        self.atypes = {}       # attribute -> class names
        self.handlers = set()
        self.roots = {}
        self.attr_types()

    def scan(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[(a.asname or a.name).split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.rel.split(".")
                    parts = parts[:len(parts) - (n.level - (1 if m.pkg else 0))]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = (base, a.name)

        def visit(body, cls, outer):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(m, cls, n, outer)
                    self.fns.append(f)
                    if outer:
                        outer.nested[n.name] = f
                    elif cls:
                        cls.methods[n.name] = f
                        self.meths.setdefault(n.name, []).append(f)
                    else:
                        m.funcs[n.name] = f
                        self.byname.setdefault(n.name, []).append(f)
                    visit(n.body, cls, f)
                elif isinstance(n, ast.ClassDef):
                    c = Cls(m, n)
                    m.classes[n.name] = c
                    self.clsname.setdefault(n.name, []).append(c)
                    visit(n.body, c, None)
                elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for fld in ("body", "orelse", "finalbody"):
                        visit(getattr(n, fld, []), cls, outer)
                    for h in getattr(n, "handlers", []):
                        visit(h.body, cls, outer)
        visit(m.tree.body, None, None)

    def ann_classes(self, a):
        out = set()
        if a is None:
            return out
        for n in ast.walk(a):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                nm = n.value
            if nm in self.clsname:
                out.add(nm)
        return out

    def attr_types(self):
        def ctor(v):
            out = set()
            for n in ast.walk(v):
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if nm in self.clsname:
                        out.add(nm)
                    else:
                        for g in self.meths.get(nm, []) if isinstance(f, ast.Attribute) else self.byname.get(nm, []):
                            out |= self.ann_classes(g.node.returns)
            return out
        for f in self.fns:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            self.atypes.setdefault(t.attr, set()).update(ctor(n.value))
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                    self.atypes.setdefault(n.target.attr, set()).update(self.ann_classes(n.annotation))
                    if n.value is not None:
                        self.atypes[n.target.attr] |= ctor(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "signal" and len(n.args) > 1:
                    h = n.args[1]
                    nm = h.attr if isinstance(h, ast.Attribute) else getattr(h, "id", None)
                    for g in self.meths.get(nm, []) + self.byname.get(nm, []):
                        self.handlers.add(g)
        for cs in self.clsname.values():
            for c in cs:
                for n in c.node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        self.atypes.setdefault(n.target.id, set()).update(self.ann_classes(n.annotation))

    def rootname(self, name):
        """one name for a class and everything related to it by inheritance inside the package"""
        if name not in self.roots:
            todo, seen = [name], {name}
            while todo:
                x = todo.pop()
                for c in self.clsname.get(x, []):
                    for b in c.bases:
                        if b in self.clsname and b not in seen and "Mixin" not in b:
                            seen.add(b)
                            todo.append(b)
                for c in self.subs.get(x, []):
                    if c.name not in seen and "Mixin" not in x:
                        seen.add(c.name)
                        todo.append(c.name)
            r = min(seen)
            for x in seen:
                self.roots[x] = r
        return self.roots[name]

    def family(self, c):
        """the class, its bases and subclasses inside the package"""
        up, todo = [c], [c]
        while todo:
            x = todo.pop()
            for b in x.bases:
                for y in self.clsname.get(b, []):
                    if y not in up:
                        up.append(y)
                        todo.append(y)
        return up

    def down(self, c):
        out, todo = [c], [c]
        while todo:
            x = todo.pop()
            for y in self.subs.get(x.name, []):
                if y not in out:
                    out.append(y)
                    todo.append(y)
        return out

    def method(self, cls, name):
        """methods an object declared as cls may run"""
        out = []
        for d in self.down(cls):
            for u in self.family(d):
                if name in u.methods:
                    if u.methods[name] not in out:
                        out.append(u.methods[name])
                    break
        return out

    def build(self, rounds=12):
        for f in self.fns:
            for p in f.params + f.kwonly:
                f.tp[p] = False
            ann = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
            for p, a in ann.items():
                cl = self.ann_classes(a)
                if any(is_local(x) for x in cl):
                    f.tp[p] = True
        for h in self.handlers:
            pass
        for k in range(rounds):
            self.changed = False
            for f in self.fns:
                Walk(self, f).run()
            if not self.changed:
                return k
        raise RuntimeError("no fixed point of the uniformity analysis")

    def coll_fix(self):
        """functions that (transitively) reach a collective operation"""
        self.hascoll = set()
        calls = {f: [] for f in self.fns}
        for f in self.fns:
            for kind, what in f.sites:
                if kind == "op" or kind == "user":
                    self.hascoll.add(f)
                else:
                    calls[f] += what
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f not in self.hascoll and any(g in self.hascoll for g in calls[f]):
                    self.hascoll.add(f)
                    ch = True

    def trace_of(self, f):
        if f not in self.hascoll:
            return ()
        if f.trace is None:
            f.trace = (("rec", f.qual),)
            w = Walk(self, f, final=True)
            f.trace = w.run()
        return f.trace


def exits(t):
    for x in t:
        if x[0] == "exit":
            return True
        if x[0] == "vif":
            return True
        if x[0] == "if" and (exits(x[2]) or exits(x[3])):
            return True
    return False


def simp(c, a, b):
    """('if',c,a,b) as a tuple of items"""
    if a == b:
        return a
    return (("if", c, a, b),)


def norm(items):
    """push what follows a conditional exit into its alternatives; drop what follows an exit"""
    out = []
    for i, x in enumerate(items):
        if x[0] == "exit":
            out.append(x)
            return tuple(out)
        if x[0] == "if" and (exits(x[2]) or exits(x[3])):
            rest = items[i + 1:]
            return tuple(out) + simp(x[1], norm(x[2] + rest), norm(x[3] + rest))
        if x[0] == "vif":
            rest = items[i + 1:]
            return tuple(out) + ((x[0], x[1], x[2], norm(x[3] + rest), norm(x[4] + rest)),)
        out.append(x)
    return tuple(out)


def ops(t):
    out = []
    for x in t:
        if x[0] == "op":
            out.append(x[1])
        elif x[0] == "user":
            out.append("callback")
        elif x[0] == "if":
            out += ops(x[2]) + ops(x[3])
        elif x[0] == "vif":
            out += ops(x[3]) + ops(x[4])
        elif x[0] == "loop":
            out += ops(x[1])
        elif x[0] == "any":
            for y in x[1]:
                out += ops(y)
        elif x[0] == "rec":
            out.append(x[1])
    return out


ORDER = "order"     # the same elements on every rank, in an order that can differ (string hashes are salted per process)
UNORDERED = {"sorted", "len", "set", "frozenset", "any", "all", "min", "max", "bool"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}


class Walk:
    """one function: taint propagation; with final=True also traces and findings"""

    def __init__(self, P, f, final=False):
        self.P, self.f, self.final = P, f, final
        self.env = {}
        self.types = {}
        self.comms = set()
        self.quiet = False
        self.pc = 0            # depth of varying control
        self.found = []
        self.localfn = {}
        self._ss = None

    def run(self):
        f = self.f
        self.ssets()
        if not self.final:
            f.sites = []
        self.env = {}
        for p in f.params + f.kwonly:
            self.env[p] = f.tp.get(p, False)
        for a in f.node.args.args + f.node.args.kwonlyargs:
            t = self.P.ann_classes(a.annotation)
            if not t and a.arg in ("sim", "simulation") and "Simulation" in self.P.clsname:
                t = {"Simulation"}
            if t:
                self.types[a.arg] = t
        for v in f.var:
            if v:
                self.env[v] = False
        if f in self.P.handlers:
            self.pc = 1            # runs on the rank that gets the signal
        g = f.outer
        while g is not None:
            for p in g.params + g.kwonly:
                self.env.setdefault(p, g.tp.get(p, False))
            g = g.outer
        t = self.block(f.node.body)
        t = self.resolve(norm(t), "return")
        if self.final:
            f.found = self.found
        return t

    # ------------------------------------------------------------ findings
    def flag(self, node, msg, key):
        if self.final and not self.quiet:
            x = (key, msg, (self.f.mod.path, node.lineno))
            if x not in self.found:
                self.found.append(x)

    # ---------------------------------------------------------- statements
    def block(self, stmts):
        """trace of a statement list (with exit markers); findings at varying conditions"""
        out = ()
        save = self.pc
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If):
                v = self.val(s.test)
                out += self.tr(s.test)
                ct = ast.unparse(s.test)
                e0 = dict(self.env)
                ty0 = dict(self.types)
                if v:
                    self.pc += 1
                a = self.block(s.body)
                e1, self.env = self.env, dict(e0)
                ty1, self.types = self.types, ty0
                b = self.block(s.orelse)
                if v:
                    self.pc -= 1
                self.join(e1, v, e0)
                for k, t in ty1.items():
                    self.types[k] = self.types.get(k, set()) | t
                if not v:
                    out += simp(ct, a, b)
                    continue
                ka, kb = kinds(a), kinds(b)
                if not (ka | kb):
                    if a != b:
                        self.mismatch(s, ct, a, b)
                    out += a or b
                    continue
                # one alternative leaves early: the rest of the block runs only on some ranks
                if (ka | kb) != {"raise"}:
                    self.pc += 1
                rest = self.block(stmts[i + 1:])
                self.pc = save
                return out + (("vif", ct, s, norm(a + rest), norm(b + rest)),)
            out += self.stmt(s)
        return out

    def resolve(self, t, strip):
        """alternatives under varying conditions at the end of a function or of a loop body"""
        out = ()
        for x in t:
            if x[0] == "exit" and x[1] == strip:
                return out
            if x[0] == "exit":
                return out + (x,)
            if x[0] == "if":
                out += simp(x[1], self.resolve(x[2], strip), self.resolve(x[3], strip))
            elif x[0] == "vif":
                a, b = self.resolve(x[3], strip), self.resolve(x[4], strip)
                if a and a[-1] == ("exit", "raise") and not ops(a):
                    out += b
                elif b and b[-1] == ("exit", "raise") and not ops(b):
                    out += a
                elif a == b:
                    out += a
                elif kinds(a) - {"raise"} or kinds(b) - {"raise"}:
                    out += (("vif", x[1], x[2], a, b),)
                else:
                    self.mismatch(x[2], x[1], a, b)
                    out += a if len(ops(a)) > len(ops(b)) else b
            else:
                out += (x,)
        return out

    def mismatch(self, s, ct, a, b):
        x, y = ops(a), ops(b)
        if not x and not y:
            return
        only = [o for o in x if o not in y] or [o for o in y if o not in x] or x or y
        self.flag(s, "%s runs under the condition '%s', which can differ between ranks" % (only[0], ct), "%s/%s" % (self.f.qual, only[0]))

    def join(self, e1, v, e0):
        for k in set(e1) | set(self.env):
            a, b = e1.get(k, False), self.env.get(k, False)
            self.env[k] = a or b

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return ()
        if isinstance(s, ast.Expr):
            self.val(s.value)
            return self.tr(s.value)
        if isinstance(s, ast.Assign):
            v = self.val(s.value)
            t = self.tr(s.value)
            for x in s.targets:
                self.assign(x, v, s.value)
            return t
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return ()
            v = self.val(s.value)
            t = self.tr(s.value)
            self.assign(s.target, v, s.value)
            c = self.P.ann_classes(s.annotation)
            if c and isinstance(s.target, ast.Name):
                self.types[s.target.id] = c
            return t
        if isinstance(s, ast.AugAssign):
            v = self.val(s.value) or self.val(s.target)
            t = self.tr(s.value)
            self.assign(s.target, v, None)
            return t
        if isinstance(s, ast.Return):
            t = ()
            if s.value is not None:
                v = self.val(s.value)
                t = self.tr(s.value)
                if (v or (self.pc and not self.noneish(s.value))) and not self.f.ret:
                    self.f.ret = True
                    self.P.why[self.f.qual, "ret"] = (s.lineno, v, self.pc)
                    self.P.changed = True
            if self.pc and not self.f.ret and s.value is not None:
                self.f.ret = True
                self.P.changed = True
            return t + (("exit", "return"),)
        if isinstance(s, ast.Raise):
            return (("exit", "raise"),)
        if isinstance(s, ast.Break):
            return (("exit", "break"),)
        if isinstance(s, ast.Continue):
            return (("exit", "continue"),)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            t = ()
            for it in s.items:
                v = self.val(it.context_expr)
                t += self.tr(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, it.context_expr)
            return t + self.block(s.body)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.val(s.iter)
            t = self.tr(s.iter)
            return t + self.loop(s, v, s.iter, s.target)
        if isinstance(s, ast.While):
            return self.loop(s, None, s.test, None)
        if isinstance(s, ast.Try):
            b = self.block(s.body)
            b += self.block(s.orelse)
            for h in s.handlers:
                if h.name:
                    self.env[h.name] = True
                self.pc += 1
                e0 = dict(self.env)
                hb = self.block(h.body)
                self.pc -= 1
                self.join(e0, True, e0)
                sure = hb and norm(hb)[-1][:2] == ("exit", "raise") and not ops(hb)
                if not sure and (ops(b) or ops(hb)):
                    self.flag(s, "an exception on one rank is swallowed around %s: the others wait for it" % (ops(b) + ops(hb))[0], "%s/try-%s" % (self.f.qual, (ops(b) + ops(hb))[0]))
            return b + self.block(s.finalbody)
        if isinstance(s, ast.Assert):
            self.val(s.test)
            return self.tr(s.test)
        if isinstance(s, ast.Delete):
            return ()
        if isinstance(s, ast.Match):
            v = self.val(s.subject)
            ts = []
            if v:
                self.pc += 1
            for c in s.cases:
                ts.append(self.block(c.body))
            if v:
                self.pc -= 1
                if len(set(ts)) > 1:
                    self.mismatch(s, ast.unparse(s.subject), ts[0], next(t for t in ts if t != ts[0]))
                return ts[0]
            out = ()
            for k, t in reversed(list(enumerate(ts))):
                out = simp("%s case %d" % (ast.unparse(s.subject), k), t, out)
            return out
        return ()

    def loop(self, s, v, head, target):
        isfor = target is not None
        q = self.quiet
        self.quiet = True
        while True:
            e0 = dict(self.env)
            self.round(s, v, head, target)
            self.join(e0, False, e0)
            if self.env == e0:
                break
        self.quiet = q
        e0 = dict(self.env)
        vv, t = self.round(s, v, head, target)
        self.join(e0, False, e0)
        th = () if isfor else self.tr(head)
        body = self.resolve(norm(t), "continue")
        left = [x for x in allvifs(body)]
        if (vv or left) and ops(body) + ops(th):
            why = ast.unparse(head) if vv else left[0][1]
            self.flag(s, "%s runs in a loop whose number of rounds can differ between ranks (%s)" % ((ops(body) + ops(th))[0], why), "%s/loop-%s" % (self.f.qual, (ops(body) + ops(th))[0]))
        out = ()
        if th or ops(body):
            out += (("loop", th + plain(body)),)
        ret = any("return" in kinds((x,)) for x in left)
        uret = not ret and "return" in kinds(body)
        if vv and "return" in kinds(body):
            ret = True
        if ret:
            out += (("vif", left[0][1] if left else ast.unparse(head), s, (("exit", "return"),), ()),)
        elif uret:
            out += (("if", "return inside a loop", (("exit", "return"),), ()),)
        return out + self.block(s.orelse)

    def round(self, s, v, head, target):
        if target is not None:
            v = v or (ORDER if self.strset(head) else False)
            self.assign(target, v, None, it=head)
            vv = v
        else:
            vv = self.val(head)
        if vv:
            self.pc += 1
        t = self.block(s.body)
        if vv:
            self.pc -= 1
        return vv, t

    # --------------------------------------------------------- assignments
    def assign(self, x, v, rhs, it=None):
        v = v or self.pc > 0
        if isinstance(x, ast.Name):
            self.env[x.id] = v
            self.types.pop(x.id, None)
            if rhs is not None:
                if self.is_comm(rhs):
                    self.comms.add(x.id)
                tt = self.typ(rhs)
                if tt:
                    self.types[x.id] = tt
        elif isinstance(x, (ast.Tuple, ast.List)):
            # enumerate/zip: the parts of each element
            parts = None
            if it is not None and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip"):
                vs = [self.val(a) for a in it.args]
                parts = ([any(vs)] + vs) if it.func.id == "enumerate" else vs
            elif isinstance(rhs, (ast.Tuple, ast.List)) and len(rhs.elts) == len(x.elts):
                for a, b in zip(x.elts, rhs.elts):
                    self.assign(a, self.val(b), b)
                return
            for i, e in enumerate(x.elts):
                self.assign(e, parts[i] if parts and i < len(parts) else v, None)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v, None)
        elif isinstance(x, ast.Attribute):
            self.setattr_(x, v)
        elif isinstance(x, ast.Subscript):
            b = x.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if v or self.val(x.slice):
                if isinstance(b, ast.Name):
                    self.env[b.id] = True
                elif isinstance(b, ast.Attribute):
                    self.setattr_(b, True)

    def owners(self, e):
        return {self.P.rootname(t) for t in self.typ(e.value)} or {"?"}

    def setattr_(self, x, v):
        if v and x.attr not in CONFIG_ATTRS:
            own = self.owners(x)
            if self.f in self.P.handlers and x.attr not in self.P.hattr:
                self.P.hattr.add(x.attr)
                self.P.changed = True
            if own == {"?"} and self.val(x.value):
                return              # a part of a rank's own data: reading it back is varying anyway
            for o in own:
                if (o, x.attr) not in self.P.attrV:
                    self.P.attrV[o, x.attr] = "%s:%d" % (self.f.qual, x.lineno)
                    self.P.attrnames.add(x.attr)
                    self.P.changed = True

    def attrv(self, x):
        if x.attr not in self.P.attrnames:
            return False
        os_ = self.owners(x)
        if os_ == {"?"}:
            return ("?", x.attr) in self.P.attrV or x.attr in self.P.hattr
        return any((o, x.attr) in self.P.attrV for o in os_)

    # ------------------------------------------------------- type guesses
    def typ(self, e):
        """package class names an expression may have"""
        if isinstance(e, ast.Name):
            if e.id in ("self", "cls") and self.f.cls:
                return {self.f.cls.name}
            return self.types.get(e.id, set())
        if isinstance(e, ast.Attribute):
            return self.P.atypes.get(e.attr, set())
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm in self.P.clsname:
                return {nm}
            out = set()
            for g in self.P.meths.get(nm, []) if isinstance(f, ast.Attribute) else self.P.byname.get(nm, []):
                out |= self.P.ann_classes(g.node.returns)
            return out
        if isinstance(e, ast.IfExp):
            return self.typ(e.body) | self.typ(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.typ(x) for x in e.values])
        if isinstance(e, ast.Subscript):
            return self.typ(e.value)
        return set()

    def is_comm(self, e):
        if isinstance(e, ast.Name):
            return e.id in self.comms or e.id.startswith("comm") or e.id == "COMM_WORLD"
        if isinstance(e, ast.Attribute):
            return e.attr.startswith("comm") or e.attr.startswith("COMM_") or e.attr.startswith("_comm")
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return e.func.attr in ("get_default_comm", "Dup", "Split", "Get_parent") or self.is_comm(e.func) and e.func.attr.startswith("comm")
        return False

    def ext(self, e):
        """dotted external name of an expression, or None"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            im = self.f.mod.imports.get(e.id)
            if im and e.id not in self.env:
                base = im[0] + ("." + im[1] if im[1] else "")
                return ".".join([base] + parts[::-1])
        return None

    def callees(self, call):
        """('op',name) | ('fns',[...]) | ('user',name) | ('c', modname) | None"""
        f = call.func
        P = self.P
        if isinstance(f, ast.Name):
            g = self.f
            while g is not None:
                if f.id in g.nested:
                    return ("fns", [g.nested[f.id]])
                g = g.outer
            if f.id in self.env:
                ts = self.types.get(f.id)
                if ts:
                    fns = [m for t in ts for c in P.clsname[t] for m in P.method(c, "__call__")]
                    if fns:
                        return ("fns", fns)
                return self.user(call, f.id)
            if f.id in self.f.mod.funcs:
                return ("fns", [self.f.mod.funcs[f.id]])
            if f.id in self.f.mod.classes:
                return ("fns", self.ctor(self.f.mod.classes[f.id]))
            im = self.f.mod.imports.get(f.id)
            if im:
                return self.imported(im)
            return None
        if isinstance(f, ast.Attribute):
            x = self.ext(f)
            if x and not x.startswith("lambdapic"):
                if f.attr in COLL and ("COMM" in x):
                    return ("op", f.attr)
                if x == "h5py.File" and any(k.arg == "driver" for k in call.keywords):
                    return ("op", "h5py.File")
                return None
            if x:
                mod, _, nm = x.rpartition(".")
                r = self.imported((mod, nm))
                cn = mod.rpartition(".")[2]
                if r is None and cn in P.clsname:
                    fns = [m for c in P.clsname[cn] for m in P.method(c, nm)]
                    return ("fns", fns) if fns else None
                return r
            b = f.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and self.f.cls:
                for u in P.family(self.f.cls)[1:]:
                    if f.attr in u.methods:
                        return ("fns", [u.methods[f.attr]])
                return None
            if self.is_comm(b) and f.attr in COLL:
                return ("op", f.attr)
            ts = self.typ(b)
            if ts:
                fns = []
                for t in ts:
                    for c in P.clsname.get(t, []):
                        fns += [m for m in P.method(c, f.attr) if m not in fns]
                if fns:
                    return ("fns", fns)
            if f.attr in P.meths and not (isinstance(b, ast.Name) and b.id in ("np", "plt", "logger")) and f.attr not in ("append", "get", "update", "pop", "items", "keys", "copy", "add"):
                return ("fns", P.meths[f.attr])
            if f.attr in COLL and f.attr[0].isupper() or f.attr in ("allreduce", "allgather", "bcast"):
                return ("op", f.attr)
            ty = P.atypes.get(f.attr)
            if ty:
                fns = [m for t in ty for c in P.clsname[t] for m in P.method(c, "__call__")]
                if fns:
                    return ("fns", fns)
            if f.attr in ("append", "get", "update", "pop", "items", "keys", "copy", "add", "join", "format", "split"):
                return None
            return self.user(call, f.attr) if isinstance(b, ast.Name) and b.id == "self" else None
        if isinstance(f, ast.Subscript):
            ts = self.typ(f.value)
            fns = [m for t in ts for c in P.clsname[t] for m in P.method(c, "__call__")]
            if fns:
                return ("fns", fns)
            return self.user(call, "item")
        return None

    def user(self, call, name):
        """a function given by the user: it may communicate when it receives the simulation"""
        for a in list(call.args) + [k.value for k in call.keywords]:
            if isinstance(a, ast.Starred):
                return ("user", name)
            if isinstance(a, ast.Name) and (a.id in ("sim", "simulation") or (a.id == "self" and self.f.cls and self.f.cls.name.startswith("Simulation"))):
                return ("user", name)
            if isinstance(a, ast.Attribute) and a.attr in ("sim", "simulation"):
                return ("user", name)
        return None

    def ctor(self, c):
        out = []
        for nm in ("__init__", "__post_init__"):
            for u in self.P.family(c):
                if nm in u.methods:
                    out.append(u.methods[nm])
                    break
        return out

    def imported(self, im, depth=0):
        mod, nm = im
        P = self.P
        if mod in P.cmods:
            return ("c", mod)
        if nm and mod + "." + nm in P.cmods:
            return ("c", mod + "." + nm)
        m = P.mods.get(mod)
        if m is None:
            return None
        if nm in m.funcs:
            return ("fns", [m.funcs[nm]])
        if nm in m.classes:
            return ("fns", self.ctor(m.classes[nm]))
        if nm in m.imports and depth < 6:
            return self.imported(m.imports[nm], depth + 1)
        if nm is None:
            return None
        return None

    # -------------------------------------------------------------- values
    def noneish(self, e):
        return isinstance(e, ast.Constant) and e.value is None and False

    def val(self, e):
        """True when the value can differ between ranks"""
        if e is None or isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.funcref(e)
            return r
        if isinstance(e, ast.Attribute):
            if e.attr in CONFIG_ATTRS:
                return False
            if e.attr in LOCAL_ATTRS:
                return True
            b = self.val(e.value)
            if e.attr in ("size", "Get_size") and self.is_comm(e.value):
                return False
            if self.attrv(e):
                return True
            ts = self.typ(e.value)
            if ts:
                # an object every rank has its own of: its contents differ; of any other object each attribute is known
                if any(is_local(t) for t in ts):
                    return True
            elif b:
                return True
            for f in self.P.meths.get(e.attr, []):
                if f.ret:
                    if f.prop or isinstance(e.value, ast.Name) and e.value.id == "self":
                        return True
            return False
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return self.val(e.body)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            v = False
            for g in e.generators:
                iv = self.elements(g.iter)
                if iv == ORDER and isinstance(e, (ast.SetComp, ast.DictComp)):
                    iv = False
                v = v or iv
                self.pc, p = 0, self.pc
                self.assign(g.target, iv, None, it=g.iter)
                self.pc = p
                for c in g.ifs:
                    v = self.val(c) or v
            if isinstance(e, ast.DictComp):
                v = self.val(e.key) or self.val(e.value) or v
            else:
                v = self.val(e.elt) or v
            self.env = save
            return v
        if isinstance(e, ast.IfExp):
            t = self.val(e.test)
            a, b = self.val(e.body), self.val(e.orelse)
            return t or a or b
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and self.identity_only(e.left):
            # whether such an attribute is None depends on how it was assigned, not on its contents
            return False
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and self.val(e.comparators[0]) == ORDER:
            return self.val(e.left)
        r = False
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.Starred) and self.strset(c.value):
                r = r or (False if isinstance(e, ast.Set) else ORDER)
            if isinstance(c, ast.expr):
                r = self.val(c) or r
            elif isinstance(c, ast.FormattedValue):
                r = self.val(c.value) or r
        return r

    def strset(self, e):
        """a set of strings: every process iterates over it in an order of its own"""
        if isinstance(e, ast.Set):
            return any(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, ast.JoinedStr) for x in e.elts)
        if isinstance(e, ast.SetComp):
            return isinstance(e.elt, ast.JoinedStr) or any(self.strings(g.iter) and isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id for g in e.generators)
        if isinstance(e, ast.Name):
            return e.id in self.ssets()
        if isinstance(e, ast.Attribute):
            return e.attr in self.P.strsets
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            return self.strset(e.left) or self.strset(e.right)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset") and e.args:
                return self.strings(e.args[0])
            if isinstance(e.func, ast.Attribute) and e.func.attr in SETOPS:
                return self.strset(e.func.value)
        if isinstance(e, ast.IfExp):
            return self.strset(e.body) or self.strset(e.orelse)
        return False

    def strings(self, e):
        if isinstance(e, (ast.List, ast.Tuple)):
            return any(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, ast.JoinedStr) for x in e.elts)
        if isinstance(e, ast.GeneratorExp):
            return isinstance(e.elt, ast.JoinedStr) or any(self.strings(g.iter) for g in e.generators)
        return self.strset(e)

    def ssets(self):
        """local names that hold a set of strings, wherever they are assigned in the function"""
        if self._ss is None:
            self._ss = set()
            n0 = -1
            while len(self._ss) != n0:
                n0 = len(self._ss)
                for n in ast.walk(self.f.node):
                    if isinstance(n, ast.Assign) and self.strset(n.value):
                        self._ss |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr not in self.P.strsets:
                                self.P.strsets.add(t.attr)
                                self.P.changed = True
                    elif isinstance(n, ast.AnnAssign) and n.value is not None and (self.strset(n.value) or ast.unparse(n.annotation).replace(" ", "") in ("set[str]", "Set[str]")):
                        if isinstance(n.target, ast.Name):
                            self._ss.add(n.target.id)
                        elif isinstance(n.target, ast.Attribute) and n.target.attr not in self.P.strsets:
                            self.P.strsets.add(n.target.attr)
                            self.P.changed = True
        return self._ss

    def elements(self, e):
        """the value of going through e in order"""
        return self.val(e) or (ORDER if self.strset(e) else False)

    def identity_only(self, e):
        return False

    def funcref(self, e):
        f = self.f.mod.funcs.get(e.id)
        if f:
            return f.ret
        im = self.f.mod.imports.get(e.id)
        if im:
            r = self.imported(im)
            if r and r[0] == "fns":
                return any(g.ret and g.cls is None for g in r[1])
        return False

    def call(self, e):
        f = e.func
        av = [self.val(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kv = {k.arg: self.val(k.value) for k in e.keywords}
        anyv = any(av) or any(kv.values())
        attr = f.attr if isinstance(f, ast.Attribute) else None
        r = self.callees(e)
        if r and r[0] == "op":
            if not self.final:
                self.f.sites.append(("op", r[1]))
            if self.final and r[1] in SYNC | ASYM and (kv.get("root") or False):
                self.flag(e, "the root of %s can differ between ranks" % r[1], "%s/root-%s" % (self.f.qual, r[1]))
            if r[1] in ("Bcast",) and e.args:
                self.clear(e.args[0])
            if r[1] in ("Allreduce", "Allgather", "Allgatherv") and len(e.args) > 1:
                self.clear(e.args[1])
            if r[1] in ASYM:
                for a in e.args[1:2]:
                    if r[1][0].isupper():
                        self.taint(a)
                return True
            return False
        if r and r[0] == "c":
            if ".core.mpi." in r[1]:
                if not self.final:
                    self.f.sites.append(("op", r[1].rsplit(".", 1)[1]))
                return False      # a handle (or nothing) on every rank alike
            return anyv
        if r and r[0] == "user":
            if not self.final:
                self.f.sites.append(("user", r[1]))
            b = self.env.get(f.id, False) if isinstance(f, ast.Name) else (self.attrv(f) if isinstance(f, ast.Attribute) else False)
            return b
        if r and r[0] == "fns":
            if not self.final:
                self.f.sites.append(("fns", r[1]))
            res = False
            for g in r[1]:
                self.bind(g, e, av, kv)
                res = res or g.ret
                if g.name in ("__init__", "__post_init__"):
                    res = res or is_local(g.cls.name)
            return res
        # external
        bv = self.val(f.value) if isinstance(f, ast.Attribute) else (self.env.get(f.id, False) if isinstance(f, ast.Name) else self.val(f))
        x = self.ext(f) if isinstance(f, ast.Attribute) else None
        if isinstance(f, ast.Name):
            im = self.f.mod.imports.get(f.id)
            if im and f.id not in self.env:
                x = im[0] + ("." + im[1] if im[1] else "")
        if x:
            p = x.split(".")
            if p[0] in SOURCES_MOD and not x.startswith("time.sleep") or (p[0] == "os" and p[-1] in SOURCES_OS):
                return True
        if attr in SOURCES_METH or attr in RECV:
            if attr in ("Recv", "recv", "Irecv", "irecv") and e.args:
                self.taint(e.args[0])
            return True
        if attr in ("Get_size",):
            return False
        if isinstance(f, ast.Attribute) and (anyv or self.pc) and attr in ("append", "extend", "add", "update", "insert", "pop", "remove", "setdefault", "fill", "clear"):
            self.taint(f.value)
        if isinstance(f, ast.Name) and f.id not in self.env:
            if f.id in UNORDERED and all(v in (False, ORDER) for v in av):
                return any(v not in (False, ORDER) for v in kv.values())
            if f.id in ("list", "tuple", "iter", "enumerate", "zip", "map", "filter", "next") and not (anyv or bv) and any(self.strset(a) for a in e.args):
                return ORDER
        if attr == "join" and not (anyv or bv) and any(self.strset(a) for a in e.args):
            return ORDER
        if attr == "sort" and isinstance(f.value, ast.Name) and self.env.get(f.value.id) == ORDER:
            self.env[f.value.id] = False
        vs = list(av) + list(kv.values()) + [bv]
        if all(v in (False, ORDER) for v in vs):
            return ORDER if ORDER in vs else False
        return anyv or bv

    def taint(self, e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name) and e.id not in IMMUTABLE:
            self.env[e.id] = True
        elif isinstance(e, ast.Attribute):
            self.setattr_(e, True)

    def clear(self, e):
        if isinstance(e, ast.Name):
            self.env[e.id] = False

    def bind(self, g, e, av, kv):
        ps = list(g.params)
        if g.method and not g.static and ps:
            base = e.func.value if isinstance(e.func, ast.Attribute) else None
            if base is not None and g.name not in ("__init__", "__post_init__"):
                if not (isinstance(base, ast.Name) and base.id in self.P.clsname):
                    self.setp(g, ps[0], self.val(base) if not isinstance(base, ast.Call) or True else False)
                    ps = ps[1:]
            else:
                ps = ps[1:]
        for i, (a, v) in enumerate(zip(e.args, av)):
            if isinstance(a, ast.Starred):
                for p in ps[i:]:
                    self.setp(g, p, v)
                break
            if i < len(ps):
                self.setp(g, ps[i], v)
        for k, v in kv.items():
            if k is None:
                for p in ps:
                    self.setp(g, p, v)
            elif k in ps or k in g.kwonly:
                self.setp(g, k, v)

    def setp(self, g, p, v):
        if v and not g.tp.get(p):
            g.tp[p] = True
            self.P.why[g.qual, p] = "%s" % (self.f.qual)
            self.P.changed = True

    # -------------------------------------------------------------- traces
    def tr(self, e):
        """collective operations an expression performs, in order of evaluation"""
        if e is None or isinstance(e, (ast.Constant, ast.Name, ast.Lambda)) or not self.final:
            return ()
        if isinstance(e, ast.BoolOp):
            out = self.tr(e.values[0])
            for i in range(1, len(e.values)):
                t = self.tr(e.values[i])
                if t:
                    pre = e.values[:i]
                    if any(self.val(x) for x in pre):
                        self.mismatch(e, ast.unparse(pre[0] if len(pre) == 1 else e), t, ())
                        out += t
                    else:
                        out += simp(" and ".join(ast.unparse(x) for x in pre), t, ())
            return out
        if isinstance(e, ast.IfExp):
            out = self.tr(e.test)
            a, b = self.tr(e.body), self.tr(e.orelse)
            if self.val(e.test):
                if a != b:
                    self.mismatch(e, ast.unparse(e.test), a, b)
                return out + (a or b)
            return out + simp(ast.unparse(e.test), a, b)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = self.tr(e.generators[0].iter)
            inner = ()
            v = False
            for i, g in enumerate(e.generators):
                v = v or self.val(g.iter) or any(self.val(c) for c in g.ifs)
                if i:
                    inner += self.tr(g.iter)
                for c in g.ifs:
                    inner += self.tr(c)
            inner += self.tr(e.key) + self.tr(e.value) if isinstance(e, ast.DictComp) else self.tr(e.elt)
            if inner:
                if v:
                    self.flag(e, "%s runs in a loop whose number of rounds can differ between ranks" % ops(inner)[0], "%s/loop-%s" % (self.f.qual, ops(inner)[0]))
                out += (("loop", inner),)
            return out
        if isinstance(e, ast.Call):
            out = ()
            if isinstance(e.func, ast.Attribute):
                out += self.tr(e.func.value)
            for a in e.args:
                out += self.tr(a.value if isinstance(a, ast.Starred) else a)
            for k in e.keywords:
                out += self.tr(k.value)
            r = self.callees(e)
            if not r:
                return out
            if r[0] == "op":
                root = next((ast.unparse(k.value) for k in e.keywords if k.arg == "root"), "0")
                return out + (("op", r[1]) + ((root,) if r[1] in ASYM or r[1] in ("bcast", "Bcast") else ()),)
            if r[0] == "c":
                if ".core.mpi." in r[1]:
                    nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id
                    return out + (("op", nm),)
                return out
            if r[0] == "user":
                return out + (("user", "call"),)
            ts = []
            for g in r[1]:
                t = self.P.trace_of(g)
                if t not in ts:
                    ts.append(t)
            if ts == [()] or not ts:
                return out
            if len(ts) == 1:
                return out + ts[0]
            return out + (("any", tuple(sorted(ts, key=repr))),)
        out = ()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out += self.tr(c)
        return out


def allvifs(t):
    out = []
    for x in t:
        if x[0] == "vif":
            out.append(x)
        elif x[0] == "if":
            out += allvifs(x[2]) + allvifs(x[3])
    return out


def plain(t):
    """a loop body for comparisons: without nodes"""
    out = ()
    for x in t:
        if x[0] == "vif":
            out += simp(x[1], plain(x[3]), plain(x[4]))
        elif x[0] == "if":
            out += simp(x[1], plain(x[2]), plain(x[3]))
        else:
            out += (x,)
    return out


def kinds(t):
    out = set()
    for x in t:
        if x[0] == "exit":
            out.add(x[1])
        elif x[0] in ("if",):
            out |= kinds(x[2]) | kinds(x[3])
        elif x[0] == "vif":
            out |= kinds(x[3]) | kinds(x[4])
    return out
