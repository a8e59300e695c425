"""Completion of non-blocking messages posted from python code (typestate over the syntax tree, all paths)."""
import ast

POST = {"isend", "Isend", "issend", "Issend", "ibsend", "Ibsend", "irsend", "Irsend", "irecv", "Irecv"}
WAIT1 = {"wait", "Wait"}
WAITALL = {"waitall", "Waitall", "wait_all"}


class St:
    __slots__ = ("pend", "cond")

    def __init__(self, pend=frozenset(), cond=frozenset()):
        self.pend, self.cond = pend, cond

    def key(self):
        return (self.pend, self.cond)


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


class Req:
    """one function; starts with `pend` requests pending (used to see what a helper does with its parameters)"""

    def __init__(self, fn, find, depth=0):
        self.fn = fn                    # spmd.Fn
        self.find = find                # name -> [spmd.Fn] of package functions
        self.depth = depth
        self.bad = {}
        self.nposts = set()
        self.alias = {}
        self.returned = False

    def flag(self, kind, line, msg):
        self.bad.setdefault((kind, line), msg)

    def run(self, pend=frozenset()):
        self.out = []
        end = self.block(self.fn.node.body, [St(pend)])
        for s in end + self.out:
            for line, h, b in s.pend:
                self.flag("not-completed", line, "the request of this message is not waited for on every path")
        return end + self.out

    def uniq(self, sts):
        d = {}
        for s in sts:
            d[s.key()] = s
        r = list(d.values())
        if len(r) > 400:
            r = r[:400]
        return r

    def block(self, stmts, sts):
        for s in stmts:
            if not sts:
                return sts
            sts = self.uniq(self.stmt(s, sts))
        return sts

    # -------------------------------------------------------- expressions
    def ispost(self, e):
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in POST:
                return True
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
            if self.depth < 2:
                for g in self.find(nm):
                    if poster(g, self.find, self.depth + 1):
                        return True
        return False

    def posts(self, e, sts, holder):
        """requests posted inside expression e now belong to `holder`"""
        for n in ast.walk(e):
            if self.ispost(n):
                b = root(n.args[0]) if n.args else None
                self.nposts.add(n.lineno)
                sts = [St(s.pend | {(n.lineno, holder, b)}, s.cond) for s in sts]
        return sts

    def effects(self, e, sts):
        """waits and hand-overs inside an expression statement or right-hand side"""
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if isinstance(f, ast.Attribute) and nm in WAIT1:
                h = root(f.value)
                if h is None and self.ispost(f.value):
                    h = "<direct>"
                h = self.alias.get(h, h)
                sts = [self.clear(s, h) for s in sts]
            elif nm in WAITALL:
                for a in n.args:
                    h = root(a)
                    h = self.alias.get(h, h)
                    sts = [self.clear(s, h) for s in sts]
            elif isinstance(f, ast.Attribute) and nm in ("append", "extend", "add", "insert"):
                tgt = root(f.value)
                for a in n.args:
                    for m in ast.walk(a):
                        if isinstance(m, ast.Name):
                            sts = [self.move(s, m.id, tgt) for s in sts]
            elif self.depth < 2:
                for i, a in enumerate(n.args):
                    h = root(a) if isinstance(a, ast.Name) else None
                    if h and any(h == p[1] for s in sts for p in s.pend):
                        for g in self.find(nm):
                            ps = list(g.params)
                            if g.method and not g.static and isinstance(f, ast.Attribute):
                                ps = ps[1:]
                            if i < len(ps):
                                r = Req(g, self.find, self.depth + 1)
                                end = r.run(frozenset({(0, ps[i], None)}))
                                if end and not any(p[0] == 0 for s in end for p in s.pend):
                                    sts = [self.clear(s, h) for s in sts]
        return sts

    def clear(self, s, h):
        return St(frozenset(p for p in s.pend if p[1] != h), s.cond)

    def move(self, s, a, b):
        return St(frozenset((p[0], b, p[2]) if p[1] == a else p for p in s.pend), s.cond)

    def forget(self, s, names):
        if not s.cond or not names:
            return s
        c = frozenset(x for x in s.cond if not (names & x[2]))
        return St(s.pend, c)

    # --------------------------------------------------------- statements
    def stmt(self, s, sts):
        if isinstance(s, ast.Expr):
            e = s.value
            direct = isinstance(e, ast.Call) and self.ispost(e)
            if direct:
                self.nposts.add(e.lineno)
                self.flag("dropped", e.lineno, "the request of this message is thrown away")
                return sts
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "add", "insert"):
                sts = self.posts(e, sts, root(e.func.value))
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in WAIT1 and self.ispost(e.func.value):
                self.nposts.add(e.lineno)
                return sts
            return self.effects(e, sts)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return sts
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            names = {root(t) for t in tg} - {None}
            for t in tg:
                if isinstance(t, ast.Subscript) or isinstance(s, ast.AugAssign):
                    r = root(t)
                    for st in sts:
                        for line, h, b in st.pend:
                            if b == r and r is not None:
                                self.flag("written-in-flight", line, "the buffer of this message is written before it completed")
            sts = self.effects(s.value, sts)
            t = tg[0]
            holder = root(t)
            if isinstance(t, ast.Name) and not isinstance(s, ast.AugAssign):
                # rebinding a name that still holds a pending request loses it
                used = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                for st in sts:
                    for line, h, b in st.pend:
                        if h == t.id and t.id not in used:
                            self.flag("lost", line, "the only reference to the pending request of this message is overwritten")
                if isinstance(s.value, (ast.Name, ast.List, ast.Tuple, ast.BinOp)):
                    for u in used:
                        if u != t.id:
                            sts = [self.move(x, u, t.id) for x in sts]
                sts = [self.forget(x, names) for x in sts]
            elif isinstance(t, ast.Attribute) and holder:
                # kept in an object: completed by whoever owns it
                for u in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    sts = [self.clear(x, u) for x in sts]
                if any(self.ispost(n) for n in ast.walk(s.value)):
                    return sts
            elif isinstance(t, ast.Subscript) or isinstance(s, ast.AugAssign):
                for u in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}:
                    sts = [self.move(x, u, holder) for x in sts]
            return self.posts(s.value, sts, holder)
        if isinstance(s, ast.Return):
            if s.value is not None:
                sts = self.effects(s.value, sts)
                used = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                if any(self.ispost(n) for n in ast.walk(s.value)):
                    self.returned = True
                for x in sts:
                    if any(p[1] in used for p in x.pend):
                        self.returned = True
                for u in used:
                    sts = [self.clear(x, u) for x in sts]
            self.out += sts
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, ast.Break):
            self.brk += sts
            return []
        if isinstance(s, ast.Continue):
            self.cont += sts
            return []
        if isinstance(s, ast.If):
            sts = self.effects(s.test, sts)
            txt = ast.unparse(s.test)
            names = frozenset(n.id for n in ast.walk(s.test) if isinstance(n, ast.Name))
            t, f = [], []
            for x in sts:
                known = {c[1] for c in x.cond if c[0] == txt}
                # "if requests:" is false only when nothing is pending in it
                if known != {False}:
                    t.append(St(x.pend, x.cond | {(txt, True, names)}))
                if known != {True}:
                    if isinstance(s.test, ast.Name) and any(p[1] == s.test.id for p in x.pend):
                        continue
                    f.append(St(x.pend, x.cond | {(txt, False, names)}))
            return self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            sts = self.effects(s.iter, sts)
            over = root(s.iter) if not isinstance(s.iter, ast.Call) else None
            if isinstance(s.iter, ast.Call):
                for a in s.iter.args:
                    over = over or root(a)
            over = self.alias.get(over, over)
            holds = any(p[1] == over for x in sts for p in x.pend) if over else False
            sv = dict(self.alias)
            if holds:
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        self.alias[n.id] = over
            r = self.loop(s.body, sts, skip=None if not holds else over)
            self.alias = sv
            return self.block(s.orelse, r) if s.orelse else r
        if isinstance(s, ast.While):
            sts = self.effects(s.test, sts)
            t = s.test
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "len" and t.args:
                t = t.args[0]
            h = t.id if isinstance(t, ast.Name) and any(p[1] == t.id for x in sts for p in x.pend) else None
            return self.loop(s.body, sts, skip=h)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            r = self.block(s.body, sts)
            r = self.block(s.orelse, r)
            for h in s.handlers:
                r = r + self.block(h.body, sts)
            return self.block(s.finalbody, r)
        return sts

    def loop(self, body, sts, skip=None):
        b0, c0 = getattr(self, "brk", []), getattr(self, "cont", [])
        out = [x for x in sts if skip is None or not any(p[1] == skip for p in x.pend)]
        seen = {}
        todo = sts
        for _ in range(4):
            self.brk, self.cont = [], []
            nxt = self.block(body, todo) + self.cont
            # facts about conditions do not carry over to the next round
            nxt = [St(x.pend, x.cond & (todo[0].cond if todo else frozenset())) for x in nxt]
            out += self.brk
            out += nxt
            new = [x for x in self.uniq(nxt) if x.key() not in seen]
            for x in new:
                seen[x.key()] = x
            todo = new
            if not todo:
                break
        self.brk, self.cont = b0, c0
        return self.uniq(out)


def poster(g, find, depth):
    """a function that returns the request(s) it posts"""
    if depth > 2 or not any(isinstance(n, ast.Attribute) and n.attr in POST for n in ast.walk(g.node)):
        return False
    r = Req(g, find, depth)
    r.run()
    return r.returned
