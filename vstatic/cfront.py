"""C front end: clang's type-checked AST (JSON) -> IR."""
import glob
import json
import os
import re
import subprocess
import sys

from .ir import N, Func

HERE = os.path.dirname(os.path.abspath(__file__))


class FrontError(Exception):
    pass


_npapi = None


def numpy_api():
    """index in the numpy function table -> name (the table is how compiled code calls numpy)"""
    global _npapi
    if _npapi is None:
        import re
        _npapi = {}
        for f in include_flags():
            p = os.path.join(f[2:], "numpy", "__multiarray_api.h")
            if f.startswith("-I") and os.path.exists(p):
                txt = open(p).read().replace("\\\n", " ")
                for m in re.finditer(r"#define (PyArray_\w+)\s+\(\*\([^\n]*PyArray_API\[(\d+)\]\)", txt):
                    _npapi.setdefault(int(m.group(2)), m.group(1))
                break
    return _npapi


def include_flags():
    fl = ["-I" + os.path.join(HERE, "include")]
    for pat in ("/usr/include/python3.12", "/usr/include/python3*"):
        c = [p for p in sorted(glob.glob(pat)) if os.path.exists(p + "/Python.h")]
        if c:
            fl.append("-I" + c[0])
            break
    for pat in ("/opt/venv/lib/python3*/site-packages/numpy/_core/include",
                "/opt/venv/lib/python3*/site-packages/numpy/core/include"):
        c = glob.glob(pat)
        if c:
            fl.append("-I" + c[0])
            break
    c = glob.glob("/opt/venv/lib/python3*/site-packages/mpi4py/include")
    if c:
        fl.append("-I" + c[0])
    for p in ("/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"):
        if os.path.isdir(p):
            fl.append("-I" + p)
    return fl


_LINES = {}


def omp_clauses(loc):
    """clauses [(name, text of the arguments)] of the directive at loc"""
    f, line = loc
    if f not in _LINES:
        _LINES[f] = open(f, errors="replace").read().split("\n")
    ls = _LINES[f]
    t, i = "", line - 1
    while i < len(ls):
        t += ls[i]
        if not t.endswith("\\"):
            break
        t = t[:-1] + " "
        i += 1
    m = re.search(r"(?:#\s*pragma|_Pragma\s*\(\s*\")\s*omp\b(.*)", t)
    if not m:
        return []
    out = []
    for c in re.finditer(r"([a-z_]+)\s*(?:\(([^()]*(?:\([^()]*\)[^()]*)*)\))?", m.group(1).split("//")[0]):
        if c.group(2) is not None or c.group(1) in ("nowait",):
            out.append((c.group(1), (c.group(2) or "").strip()))
    return out


def clang_json(path, extra=()):
    cmd = ["clang", "-fopenmp", "-fsyntax-only", "-w", "-DNDEBUG", "-Xclang", "-ast-dump=json"] + include_flags() + list(extra) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontError("clang failed on %s:\n%s" % (path, p.stderr.decode()[:2000]))
    return p.stdout.decode("utf-8", "replace")


def split_decls(txt, roots):
    """yield JSON objects of the top-level declarations located below any of roots"""
    lines = txt.split("\n")
    cur_file = ""
    buf = None
    infile = None
    out = []
    fpat = re.compile(r'^\s*"file": "(.*)",?$')
    start = None
    n = len(lines)
    i = 0
    # top-level decl objects are at indentation 4
    while i < n:
        ln = lines[i]
        if ln == "    {":
            start = i
            loc_file = None
        m = fpat.match(ln) if '"file": "' in ln else None
        if m:
            # only loc / range .file (not includedFrom)
            cur = m.group(1)
            if not _in_included(lines, i):
                cur_file = cur
        if start is not None and (ln == "    }," or ln == "    }"):
            out.append((start, i))
            start = None
        i += 1
    return lines, out


def _in_included(lines, i):
    # "includedFrom": { "file": ... }
    return '"includedFrom"' in lines[i - 1]


def load_tu(path, root):
    txt = clang_json(path)
    lines = txt.split("\n")
    fpat = re.compile(r'^\s*"file": "(.*)",?$')
    res = []
    cur_file = ""
    start = None
    decl_file = None
    seen_loc = False
    macro_first = None
    root = os.path.realpath(root)
    for i, ln in enumerate(lines):
        if ln == "    {":
            start = i
            decl_file = None
        if '"file": "' in ln:
            m = fpat.match(ln)
            if m and '"includedFrom"' not in lines[i - 1]:
                cur_file = m.group(1)
        if start is not None and decl_file is None and ln.startswith('      "range":'):
            # loc printed before range: cur_file now is the decl's file
            decl_file = cur_file
        if start is not None and (ln == "    }," or ln == "    }"):
            f = decl_file or cur_file
            if os.path.realpath(f).startswith(root):
                s = "\n".join(lines[start:i]) + "\n    }"
                res.append((f, json.loads(s)))
            start = None
    return res


class Conv:
    def __init__(self, path):
        self.path = path
        self.line = 0
        self.file = path
        self.funcs = {}
        self.globals = {}
        self.enums = {}
        self.records = {}
        self.typedefs = {}
        self.enum_by_type = {}

    # ---- location tracking
    def upd(self, d):
        r = d.get("range", {}).get("begin", {})
        loc = d.get("loc") or {}
        for x in (loc, r):
            y = x.get("expansionLoc", x)
            if "line" in y:
                self.line = y["line"]
            if "line" in x.get("spellingLoc", {}):
                pass
        e = d.get("range", {}).get("end", {})
        return self.line

    def top(self, f, d):
        k = d.get("kind")
        self.file = f
        self.upd(d)
        if k == "FunctionDecl":
            body = None
            params = []
            for c in d.get("inner", []):
                if c.get("kind") == "ParmVarDecl":
                    self.upd(c)
                    params.append((c.get("name", ""), c.get("type", {}).get("qualType"), None))
                elif c.get("kind") == "CompoundStmt":
                    line = self.line
                    body = self.stmts(c)
            if body is not None:
                fn = Func(d["name"], params, body, f, line, "c", ret=d["type"]["qualType"],
                          static=d.get("storageClass") == "static")
                fn.ret = d["type"]["qualType"].split("(")[0].strip()
                self.funcs[d["name"]] = fn
        elif k == "EnumDecl":
            val = -1
            names = []
            for c in d.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v = None
                    for x in c.get("inner", []) or []:
                        v = self._constval(x)
                    val = v if v is not None else val + 1
                    self.enums[c["name"]] = val
                    names.append((c["name"], val))
            self.enum_by_type[d.get("name", "")] = names
        elif k == "VarDecl":
            init = None
            for c in d.get("inner", []):
                if c.get("kind", "").endswith("Attr"):
                    continue
                init = self.expr(c)
            self.globals[d["name"]] = N("decl", (d["name"], d["type"]["qualType"], init, True), (f, self.line))
        elif k == "RecordDecl":
            fields = [(c["name"], c["type"]["qualType"]) for c in d.get("inner", []) if c.get("kind") == "FieldDecl"]
            self.records[d.get("name", d.get("id"))] = fields
        elif k == "TypedefDecl":
            self.typedefs[d["name"]] = d["type"]["qualType"]

    def _constval(self, d):
        if d.get("kind") == "ConstantExpr" and "value" in d:
            return int(d["value"])
        if d.get("kind") == "IntegerLiteral":
            return int(d["value"])
        for x in d.get("inner", []) or []:
            v = self._constval(x)
            if v is not None:
                return v
        return None

    # ---- statements
    def stmts(self, d):
        """list of IR stmts of a statement node (CompoundStmt flattened)"""
        k = d.get("kind")
        if k == "CompoundStmt":
            out = []
            for c in d.get("inner", []):
                out.extend(self.stmts(c))
            return out
        s = self.stmt(d)
        if s is None:
            return []
        return s if isinstance(s, list) else [s]

    def stmt(self, d):
        k = d.get("kind")
        if not k:
            return None
        line = self.upd(d)
        loc = (self.file, line)
        inner = d.get("inner", [])
        if k == "DeclStmt":
            out = []
            for c in inner:
                if c.get("kind") == "VarDecl":
                    self.upd(c)
                    init = None
                    cleanup = None
                    for x in c.get("inner", []):
                        if x.get("kind", "").endswith("Attr"):
                            if x.get("kind") == "CleanupAttr":
                                cleanup = True
                            continue
                        init = self.expr(x)
                    out.append(N("decl", (c["name"], c["type"]["qualType"], init, c.get("storageClass") == "static", cleanup), loc))
                elif c.get("kind") == "EnumDecl":
                    self.top(self.file, c)
            return out
        if k == "IfStmt":
            parts = [x for x in inner]
            cond = self.expr(parts[0])
            then = self.stmts(parts[1])
            els = self.stmts(parts[2]) if len(parts) > 2 else []
            return N("if", (cond, then, els), loc)
        if k == "ForStmt":
            # init, condvar, cond, inc, body
            init = self.stmts(inner[0]) if inner[0].get("kind") else []
            cond = self.expr(inner[2]) if inner[2].get("kind") else None
            inc = self.expr(inner[3]) if inner[3].get("kind") else None
            body = self.stmts(inner[4]) if len(inner) > 4 else []
            return N("cfor", (init, cond, inc, body), loc)
        if k == "WhileStmt":
            cond = self.expr(inner[0])
            return N("while", (cond, self.stmts(inner[-1]), []), loc)
        if k == "DoStmt":
            return N("dowhile", (self.stmts(inner[0]), self.expr(inner[1])), loc)
        if k == "SwitchStmt":
            e = self.expr(inner[0])
            return N("switch", (e, self.cases(inner[-1])), loc)
        if k == "ReturnStmt":
            return N("return", (self.expr(inner[0]) if inner else None,), loc)
        if k == "BreakStmt":
            return N("break", (), loc)
        if k == "ContinueStmt":
            return N("continue", (), loc)
        if k == "NullStmt":
            return None
        if k == "CompoundStmt":
            return N("block", (self.stmts(d),), loc)
        if k == "LabelStmt":
            return [N("label", (d.get("name"), d.get("declId")), loc)] + [x for c in inner for x in self.stmts(c)]
        if k == "GotoStmt":
            return N("goto", (d.get("targetLabelDeclId"),), loc)
        if k.startswith("OMP") and k.endswith("Directive"):
            clauses = []
            body = []
            for c in inner:
                ck = c.get("kind", "")
                if ck.startswith("OMP") and ck.endswith("Clause"):
                    continue                  # the JSON tree leaves clauses empty: read below
                elif ck == "CapturedStmt":
                    body = self._captured(c)
                elif ck:
                    body = body + self.stmts(c)
            return N("omp", (k[3:-9], omp_clauses(loc), body), loc)
        if k == "CapturedStmt":
            return N("block", (self._captured(d),), loc)
        if k == "AttributedStmt":
            return [x for c in inner if not c.get("kind", "").endswith("Attr") for x in self.stmts(c)]
        if k in ("CaseStmt", "DefaultStmt"):
            raise FrontError("stray case at %s:%s" % loc)
        return N("expr", (self.expr(d),), loc)

    def _captured(self, c):
        for x in c.get("inner", []):
            if x.get("kind") == "CapturedDecl":
                out = []
                for y in x.get("inner", []):
                    yk = y.get("kind", "")
                    if yk.endswith("Decl") or yk.endswith("Attr"):
                        continue
                    out.extend(self.stmts(y))
                return out
        return []

    def cases(self, d):
        """[(labels, body)] with fallthrough explicit: bodies run on into the next unless ended by break"""
        out = []

        def add(c):
            k = c.get("kind")
            self.upd(c)
            if k == "CaseStmt":
                inner = c["inner"]
                lab = self.expr(inner[0])
                out.append(([lab], []))
                sub = inner[-1]
                add_sub(sub)
            elif k == "DefaultStmt":
                out.append((None, []))
                add_sub(c["inner"][-1])
            else:
                if not out:
                    return
                out[-1][1].extend(self.stmts(c))

        def add_sub(sub):
            if sub.get("kind") in ("CaseStmt", "DefaultStmt"):
                add(sub)
            else:
                out[-1][1].extend(self.stmts(sub) if sub.get("kind") != "CompoundStmt" else [N("block", (self.stmts(sub),), (self.file, self.line))])
        for c in d.get("inner", []):
            add(c)
        return out

    # ---- expressions
    def expr(self, d):
        k = d.get("kind")
        line = self.upd(d)
        loc = (self.file, line)
        inner = d.get("inner", [])
        ty = d.get("type", {}).get("qualType")
        if k in ("ImplicitCastExpr",):
            ck = d.get("castKind")
            x = self.expr(inner[0])
            if ck in ("FloatingToIntegral", "IntegralToFloating", "IntegralToBoolean", "FloatingToBoolean"):
                return N("cast", (ty, x), loc, ty)
            if ck in ("IntegralCast", "FloatingCast"):
                return N("icast", (ty, x), loc, ty)
            return x
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups", "OpaqueValueExpr", "FullExpr"):
            return self.expr(inner[0])
        if k in ("CStyleCastExpr",):
            ck = d.get("castKind")
            x = self.expr(inner[0])
            return N("cast", (ty, x), loc, ty)
        if k == "IntegerLiteral":
            return N("num", (int(d["value"]),), loc, ty)
        if k == "FloatingLiteral":
            return N("num", (float(d["value"]),), loc, ty)
        if k == "CharacterLiteral":
            return N("num", (int(d["value"]),), loc, ty)
        if k == "StringLiteral":
            s = d.get("value", '""')
            try:
                s = json.loads(s)
            except Exception:
                s = s.strip('"')
            return N("str", (s,), loc)
        if k == "DeclRefExpr":
            rd = d.get("referencedDecl", {})
            return N("name", (rd.get("name"),), loc, ty)
        if k == "BinaryOperator":
            op = d["opcode"]
            l, r = self.expr(inner[0]), self.expr(inner[1])
            if op == "=":
                return N("assign", (l, r), loc, ty)
            if op == "&&":
                return N("and", ([l, r],), loc, ty)
            if op == "||":
                return N("or", ([l, r],), loc, ty)
            if op in ("<", "<=", ">", ">=", "==", "!="):
                return N("cmp", (op, l, r), loc, ty)
            if op == ",":
                return N("comma", (l, r), loc, ty)
            return N("bin", (op, l, r), loc, ty)
        if k == "CompoundAssignOperator":
            return N("aug", (d["opcode"][:-1], self.expr(inner[0]), self.expr(inner[1])), loc, ty)
        if k == "UnaryOperator":
            op = d["opcode"]
            x = self.expr(inner[0])
            if op == "&":
                return N("addr", (x,), loc, ty)
            if op == "*":
                return N("deref", (x,), loc, ty)
            if op in ("++", "--"):
                return N("incdec", (op[0], x, bool(d.get("isPostfix"))), loc, ty)
            if op == "__extension__":
                return x
            return N("un", (op, x), loc, ty)
        if k == "ArraySubscriptExpr":
            return N("sub", (self.expr(inner[0]), self.expr(inner[1])), loc, ty)
        if k == "MemberExpr":
            return N("attr", (self.expr(inner[0]), d.get("name"), bool(d.get("isArrow"))), loc, ty)
        if k == "CallExpr":
            fn = self.expr(inner[0])
            return N("call", (fn, [self.expr(x) for x in inner[1:]], []), loc, ty)
        if k in ("ConditionalOperator",):
            return N("cond", (self.expr(inner[0]), self.expr(inner[1]), self.expr(inner[2])), loc, ty)
        if k == "BinaryConditionalOperator":
            return N("cond", (self.expr(inner[0]), self.expr(inner[0]), self.expr(inner[-1])), loc, ty)
        if k == "UnaryExprOrTypeTraitExpr":
            at = d.get("argType", {}).get("qualType")
            if at is None and inner:
                at = self.expr(inner[0]).ty
            return N("sizeof", (at,), loc, ty)
        if k == "InitListExpr":
            els = d.get("array_filler")
            xs = inner if inner else [x for x in (els or []) if x.get("kind") != "ImplicitValueInitExpr"]
            return N("init", ([self.expr(x) for x in xs if x.get("kind") != "ImplicitValueInitExpr"],), loc, ty)
        if k == "ImplicitValueInitExpr":
            return N("num", (0,), loc, ty)
        if k == "CompoundLiteralExpr":
            return self.expr(inner[0])
        if k == "StmtExpr":
            return N("stmtexpr", (self.stmts(inner[0]),), loc, ty)
        if k == "PredefinedExpr":
            return N("str", ("__func__",), loc)
        if k == "RecoveryExpr":
            raise FrontError("unparsed expression at %s:%s" % loc)
        if k == "DesignatedInitExpr":
            return self.expr(inner[-1])
        return N("opaque", (k,) + tuple([self.expr(x) for x in inner if x.get("kind", "").endswith(("Expr", "Operator", "Literal"))]), loc, ty)


class CUnit:
    def __init__(self, path, root):
        c = Conv(path)
        for f, d in load_tu(path, root):
            c.top(f, d)
        self.path = path
        self.funcs = c.funcs
        self.globals = c.globals
        self.enums = c.enums
        self.enum_types = c.enum_by_type
        self.records = c.records
        self.typedefs = c.typedefs
        for fn in self.funcs.values():
            fn.unit = self
        if not self.funcs:
            raise FrontError("no functions found in %s" % path)

    def methods(self):
        """exported python name -> C function name (from PyMethodDef tables)"""
        out = {}
        for g in self.globals.values():
            if g.a[1].startswith("PyMethodDef") and g.a[2] is not None:
                for row in g.a[2].a[0]:
                    if row.op == "init" and row.a[0] and row.a[0][0].op == "str":
                        fn = row.a[0][1]
                        while fn.op in ("cast", "icast", "addr"):
                            fn = fn.a[-1]
                        out[row.a[0][0].a[0]] = fn.a[0]
        return out
