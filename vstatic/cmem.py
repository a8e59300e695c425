"""Typestate analysis of the compiled extensions: ownership of references and buffers, the
interpreter lock, and completion of non-blocking messages.

The functions are followed path by path over the type-checked syntax tree, callees included.
Values are abstract: an object (with the number of references this code owns), a heap block
(allocated / released / handed over), interior memory of an array, null, or an unknown term
that only serves to recognise the same condition again.  Loops are followed for one arbitrary
element: all loops over the same range speak about the same element, so that a buffer
allocated for element i under a condition is matched with its release in a later loop."""
import re
from .cfront import numpy_api
from .ir import N, walk

NEWREF = {"PyObject_GetAttrString", "PyObject_GetAttr", "PyLong_FromLong", "PyLong_FromLongLong", "PyLong_FromSsize_t",
          "PyLong_FromUnsignedLong", "PyLong_FromSize_t", "PyFloat_FromDouble", "PyBool_FromLong", "PyTuple_New", "PyList_New",
          "PyDict_New", "PyUnicode_FromString", "PyUnicode_FromFormat", "PySequence_GetItem", "PySequence_Fast",
          "PySequence_List", "PySequence_Tuple", "PyObject_GetItem", "PyObject_GetIter", "PyIter_Next",
          "PyObject_CallMethod", "PyObject_CallObject", "PyObject_Call", "PyObject_CallFunction", "PyNumber_Long",
          "PyNumber_Index", "PyNumber_Float", "PyImport_ImportModule", "PyModule_Create2", "PyObject_CallNoArgs", "PyObject_CallOneArg",
          "PyMapping_GetItemString", "PyBytes_FromString",
          "PyArray_Zeros", "PyArray_Empty", "PyArray_New", "PyArray_SimpleNew", "PyArray_NewFromDescr", "PyArray_FromAny",
          "PyArray_CheckFromAny", "PyArray_FROM_OTF", "PyArray_FromArray", "PyArray_NewCopy", "PyArray_Arange"}
BORROW = {"PyList_GetItem", "PyTuple_GetItem", "PyDict_GetItem", "PyDict_GetItemString", "PyImport_AddModule", "PySequence_Fast_GET_ITEM"}
DECREF = {"Py_DECREF": 0, "Py_DecRef": 1, "Py_XDECREF": 1, "_Py_DECREF": 0, "Py_DECREF_SPECIALIZED": 0}
INCREF = {"Py_INCREF", "Py_IncRef", "Py_XINCREF"}
STEAL = {"PyList_SetItem": 2, "PyTuple_SetItem": 2, "PyModule_AddObject": 2, "PyList_SET_ITEM": 2, "PyTuple_SET_ITEM": 2}
ALLOC = {"malloc", "calloc", "aligned_alloc", "PyMem_RawMalloc", "PyMem_RawCalloc", "PyMem_Malloc", "PyMem_Calloc", "_mm_malloc", "strdup"}
FREE = {"free", "PyMem_RawFree", "PyMem_Free", "_mm_free", "cleanup_ptr"}
NOGIL = {"PyEval_SaveThread", "PyEval_RestoreThread", "PyGILState_Ensure", "PyGILState_Release", "PyArray_DATA", "PyArray_BYTES",
         "PyArray_DIM", "PyArray_DIMS", "PyArray_NDIM", "PyArray_STRIDES", "PyArray_STRIDE", "PyArray_SIZE",
         "PyMem_RawMalloc", "PyMem_RawCalloc", "PyMem_RawFree", "Py_IsInitialized"}
ACC = {"PyArray_DATA", "PyArray_BYTES"}
# only read objects that exist: harmless in the threads of a parallel region whose caller keeps the lock
READONLY = {"PyList_GetItem", "PyTuple_GetItem", "PyList_Size", "PyTuple_Size", "PyFloat_AsDouble", "PyList_GET_SIZE", "PyTuple_GET_SIZE", "Py_SIZE"}


class TooComplex(Exception):
    pass


class St:
    """one path"""
    __slots__ = ("env", "mem", "ver", "objs", "heaps", "memo", "gil", "req", "scopes", "omp", "loops", "weak", "null")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.ver = {}
        self.objs = {}      # oid -> (own, kind, loc, held, extra)
        self.heaps = {}     # hid -> (state, loc, fam)
        self.memo = {}
        self.gil = True
        self.req = {}       # request cell -> (what, loc, buffer value)
        self.scopes = []
        self.omp = 0
        self.loops = ()
        self.weak = frozenset()
        self.null = frozenset()

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.objs = dict(self.objs)
        s.heaps = dict(self.heaps)
        s.memo = dict(self.memo)
        s.gil = self.gil
        s.req = dict(self.req)
        s.scopes = [list(x) for x in self.scopes]
        s.omp = self.omp
        s.loops = self.loops
        s.weak = self.weak
        s.null = self.null
        return s

    def key(self):
        f = lambda d: tuple(sorted(d.items(), key=repr))
        return repr((f(self.env), f(self.mem), f(self.objs), f(self.heaps), f(self.memo), self.gil, f(self.req), self.scopes, self.omp, f(self.ver),
                     sorted(self.weak, key=repr), sorted(self.null)))


def is_ptr(ty):
    return bool(ty) and "*" in ty


def S(t):
    return ("s", t)


def txt(v):
    if v[0] == "s":
        return v[1]
    if v[0] == "n":
        return str(v[1])
    if v[0] == "null":
        return "0"
    return "%s:%s" % (v[0], "/".join(map(str, v[1:])) if v[0] != "adr" else repr(v[1]))


class Engine:
    LIMIT = 30000

    def __init__(self, unit, report):
        self.u = unit
        self.report = report       # report(rule, key, msg, loc)
        self.n = 0
        self.stack = []
        self.relmemo = {}
        self.calls = set()
        self.apicalls = 0
        self.nmsg = 0
        self.entry = None
        self.frames = 0
        self.paths = 0
        self.labels = {}

    # ------------------------------------------------------------ helpers
    def fresh(self, what="u"):
        self.n += 1
        return S("%s?%d" % (what, self.n))

    def bad(self, rule, what, msg, loc):
        self.report(rule, "%s/%s" % (self.entry, what), msg, loc)

    def fname(self, e):
        """callee name, None when computed"""
        while e.op in ("cast", "icast", "deref", "addr") :
            e = e.a[-1]
        if e.op == "name":
            return e.a[0]
        if e.op == "sub" and e.a[0].op == "name" and "API" in e.a[0].a[0] and e.a[1].op == "num":
            if e.a[0].a[0] == "PyArray_API":
                return numpy_api().get(e.a[1].a[0])
        return None

    def relevant_fn(self, name):
        if name is None:
            return True
        f = self.u.funcs.get(name)
        if f is not None:
            if name not in self.relmemo:
                self.relmemo[name] = False
                self.relmemo[name] = any(self.rel_node(n) for n in walk(f.body) if n.op != "return") or is_ptr(f.ret)
            return self.relmemo[name]
        return name in ALLOC or name in FREE or name == "realloc" or name.startswith(("Py", "_Py", "MPI_", "import_"))

    def rel_node(self, n):
        if n.op == "call":
            return self.relevant_fn(self.fname(n.a[0]))
        if n.op == "decl":
            return bool(n.a[4]) or ("PyObject" in n.a[1] or "PyArray" in n.a[1]) or (n.a[2] is not None and is_ptr(n.a[1]) and self.ptr_src(n.a[2]))
        if n.op in ("return", "goto", "label"):
            return True
        if n.op in ("assign",):
            t = n.ty or n.a[0].ty
            return is_ptr(t) and self.ptr_src(n.a[1])
        if n.op == "attr" and n.a[1] == "ob_item":
            return True
        return False

    def ptr_src(self, e):
        """a pointer value worth following (anything but plain address arithmetic on data)"""
        return True

    def relevant(self, body):
        """does a statement list have effects this analysis tracks (or leave it by break/continue)?"""
        if isinstance(body, N):
            body = [body]
        for s in body:
            if self.rel_stmt(s):
                return True
        return False

    def rel_stmt(self, s):
        k = id(s)
        if k in self.relmemo:
            return self.relmemo[k]
        r = False
        if s.op in ("break", "continue"):
            r = True
        elif s.op in ("cfor", "while", "dowhile"):
            for part in s.a:
                for n in walk(part):
                    if self.rel_node(n):
                        r = True
                        break
        else:
            for n in self.walk_noloop(s):
                if n.op in ("break", "continue") or self.rel_node(n):
                    r = True
                    break
            if not r:
                for n in walk(s):
                    if self.rel_node(n):
                        r = True
                        break
        self.relmemo[k] = r
        return r

    def walk_noloop(self, n):
        if isinstance(n, N):
            yield n
            if n.op in ("cfor", "while", "dowhile"):
                return
            for x in n.a:
                yield from self.walk_noloop(x)
        elif isinstance(n, (list, tuple)):
            for x in n:
                yield from self.walk_noloop(x)

    # ------------------------------------------------------------ objects / heaps
    def newobj(self, st, kind, loc, own=1, extra=()):
        self.n += 1
        oid = "o%d" % self.n
        st.objs[oid] = (own, kind, loc, 0, extra)
        return ("obj", oid)

    def newheap(self, st, loc, what):
        self.n += 1
        hid = "h%d" % self.n
        st.heaps[hid] = ("alloc", loc, tuple(l for l in st.loops), what)
        return ("heap", hid)

    def use(self, st, v, loc, what):
        """v is read through"""
        if v[0] == "heap":
            st.memo.setdefault("nul:" + v[1], True)
        if v[0] == "heap" and st.heaps.get(v[1], ("",))[0] == "freed":
            self.bad("buffers", "use-after-free/" + st.heaps[v[1]][3], "%s uses memory already released" % what, loc)
        if v[0] == "obj" and v[1] in st.objs:
            own, kind, l0, held, extra = st.objs[v[1]]
            if own == 0 and held == 0 and kind.startswith("new"):
                self.bad("references", "use-after-release/" + kind[4:], "%s uses an object whose only owned reference was given up" % what, loc)

    def free(self, st, v, loc, who="free"):
        if v[0] in ("null", "s", "n"):
            return
        if v[0] == "uninit":
            self.bad("buffers", "free-uninitialised", "%s of a pointer that was never set on this path" % who, loc)
            return
        if v[0] == "data":
            self.bad("buffers", "free-array-memory/" + str(v[2]), "%s releases memory that belongs to an array object" % who, loc)
            return
        if v[0] == "adr":
            if v[1][0] == "m" and v[1][2] == "0":
                return self.free(st, v[1][1], loc, who)
            self.bad("buffers", "free-interior", "%s of an address that was not allocated" % who, loc)
            return
        if v[0] == "obj":
            self.bad("buffers", "free-object", "%s of a Python object" % who, loc)
            return
        if v[0] != "heap":
            return
        state, l0, fam, what = st.heaps[v[1]]
        if v[1] in st.null:
            return
        if state == "freed":
            self.bad("buffers", "double-free/" + what, "memory allocated at line %s is released again" % (l0[1],), loc)
            return
        if v in st.weak:
            return
        cur = [l for l in st.loops if l[2] not in fam_ids(fam)]
        if cur and state == "alloc" and not self.indexed(st, v, cur):
            self.bad("buffers", "freed-every-iteration/" + what, "a block allocated once is released in every iteration of a loop", loc)
        for k, (w, l, b) in st.req.items():
            if b == v or (b[0] == "adr" and b[1][0] == "m" and b[1][1] == v):
                self.bad("completion", "freed-in-flight/" + what, "a message buffer is released before the %s that uses it completed" % w, loc)
            elif k[0] == v:
                self.bad("completion", "requests-freed/" + what, "the request of a pending %s is released before it completed" % w, loc)
        st.heaps[v[1]] = ("freed", l0, fam, what)

    def indexed(self, st, v, loops):
        """is v kept in a cell selected by the elements of all these loops?"""
        need = [l[0] for l in loops]
        for t, b in st.memo.items():
            if b and "==" in t:
                need = [n for n in need if n not in t]
        if not need:
            return True

        def chain(x, got, seen):
            if all(any(mentions(g, n) for g in got) for n in need):
                return True
            for (base, idx), val in st.mem.items():
                if val == x and base not in seen:
                    if chain(base, got + [idx], seen + (base,)):
                        return True
            return False
        return chain(v, [], ())

    def decref(self, st, v, loc, nullok):
        if v[0] == "null":
            if not nullok:
                self.bad("references", "decref-null", "reference count of a null pointer is decremented", loc)
            return
        if v[0] == "uninit":
            self.bad("references", "decref-uninitialised", "reference count through a pointer never set on this path", loc)
            return
        if v[0] != "obj":
            return
        own, kind, l0, held, extra = st.objs[v[1]]
        if v[1] in st.null:
            if not nullok:
                self.bad("references", "decref-null", "reference count of a null pointer is decremented", loc)
            return
        if own <= 0:
            self.bad("references", "over-release/" + kind.split(":")[-1], "a reference that is not owned here is released", loc)
            return
        cur = [l for l in st.loops if l[2] not in fam_ids(extra_loops(extra))]
        if cur and not self.indexed(st, v, cur):
            self.bad("references", "released-every-iteration/" + kind.split(":")[-1], "a reference taken once is released in every iteration of a loop", loc)
        st.objs[v[1]] = (own - 1, kind, l0, held, extra)
        self.maybe_dead(st, v, loc)

    def maybe_dead(self, st, v, loc):
        own, kind, l0, held, extra = st.objs[v[1]]
        if own or held or not kind.startswith("new"):
            return
        d = dict(x for x in extra if isinstance(x, tuple) and len(x) == 2)
        for it in d.get("items", ()):
            if it[0] == "obj":
                o = st.objs[it[1]]
                st.objs[it[1]] = (o[0], o[1], o[2], o[3] - 1, o[4])
                self.maybe_dead(st, it, loc)
        if "destructor" in d and d["destructor"] in self.u.funcs:
            st.objs[v[1]] = (1, kind, l0, held, tuple(x for x in extra if not (isinstance(x, tuple) and x[0] == "destructor")))
            self.pending.append((st, d["destructor"], v))

    # ------------------------------------------------------------ memory cells
    def norm_idx(self, st, v):
        return txt(v)

    def load(self, st, base, idx, loc, ty=None):
        self.use(st, base, loc, "a read")
        k = (base, idx)
        if k in st.mem:
            return st.mem[k]
        if base[0] == "data":
            return S("%s[%s]@%s" % (txt(base), idx, st.ver.get(base, 0)))
        if base[0] in ("heap", "arr") and base not in st.weak:
            ks = [i for (b, i) in st.mem if b == base]
            if not ks and not is_ptr(ty):
                return S("%s[%s]@%s" % (txt(base), idx, st.ver.get(base, 0)))
            if not ks and not ("?" in idx or "<it" in idx):
                return ("uninit",)
            if ty is not None and not is_ptr(ty):
                return S("%s[%s]@%s" % (txt(base), idx, st.ver.get(base, 0)))
            if idx.startswith(".") and not any(i == "*" for i in ks):
                return ("uninit",)
            # an index this analysis cannot relate to what was stored: give up on this block
            self.weaken(st, base)
            return self.fresh("w")
        return S("%s[%s]@%s" % (txt(base), idx, st.ver.get(base, 0)))

    def weaken(self, st, base):
        todo = [base]
        seen = set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for (bb, i), v in list(st.mem.items()):
                if bb == b and v[0] in ("heap", "obj"):
                    todo.append(v)
        seen.discard(base)
        st.weak = st.weak | frozenset(seen)
        st.weak = st.weak | frozenset([("idx", base)])
        for b in seen:
            if b[0] == "heap":
                h = st.heaps[b[1]]
                if h[0] == "alloc":
                    st.heaps[b[1]] = ("escaped",) + h[1:]

    def store(self, st, base, idx, v, loc):
        self.use(st, base, loc, "a write")
        if v[0] == "heap":
            st.memo.setdefault("nul:" + v[1], True)
        if v[0] in ("heap", "obj", "null", "adr", "data", "uninit"):
            if base[0] in ("s", "g"):
                self.escape(st, v)
            st.mem[(base, idx)] = v
        elif v[0] == "n" or base[0] in ("heap", "arr") and v[0] == "s" and idx.startswith("."):
            st.mem[(base, idx)] = v
        else:
            for k in [k for k in st.mem if k[0] == base and (k[1] == idx)]:
                del st.mem[k]
            self.n += 1
            st.ver[base] = self.n
            if base[0] in ("heap", "arr"):
                st.mem[(base, idx)] = S("c?%d" % self.n)

    def escape(self, st, v):
        seen = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "heap" and x[1] in st.heaps and st.heaps[x[1]][0] == "alloc":
                st.heaps[x[1]] = ("escaped",) + st.heaps[x[1]][1:]
            for (b, i), y in st.mem.items():
                if b == x and y[0] in ("heap",):
                    todo.append(y)

    # ------------------------------------------------------------ expressions
    # ev returns list of (state, value)
    def ev(self, st, e):
        op = e.op
        if op == "num":
            return [(st, ("n", e.a[0]) if isinstance(e.a[0], int) else S(repr(e.a[0])))]
        if op == "str":
            return [(st, ("str", e.a[0]))]
        if op in ("cast", "icast"):
            r = self.ev(st, e.a[1])
            if is_ptr(e.a[0]):
                r = [(s, ("null",) if v == ("n", 0) else v) for s, v in r]
            return r
        if op == "sizeof":
            return [(st, S("sizeof(%s)" % (e.a[0],)))]
        if op == "name":
            return [(st, self.rd(st, e.a[0]))]
        if op == "none":
            return [(st, ("null",))]
        if op in ("sub", "attr", "deref"):
            out = []
            for s, k in self.place(st, e):
                if k is None:
                    out.append((s, self.fresh("p")))
                elif k[0] == "v":
                    out.append((s, s.env.get(k[1], self.fresh("v"))))
                elif k[2] == ".ob_item":
                    if not s.gil:
                        self.bad("lock", "items-without-lock", "list items are read while the interpreter lock is released", e.loc)
                    out.append((s, ("items", k[1])))
                elif k[1][0] == "items":
                    out.append((s, self.newobj(s, "borrowed:item", e.loc, 0)))
                else:
                    out.append((s, self.load(s, k[1], k[2], e.loc, e.ty)))
            return out
        if op == "addr":
            out = []
            x = e.a[0]
            if x.op == "name" and x.a[0] not in self.cur and x.a[0] in ("_Py_NoneStruct", "_Py_TrueStruct", "_Py_FalseStruct"):
                return [(st, ("imm", x.a[0]))]
            if x.op == "name" and x.a[0] in self.u.funcs:
                return [(st, ("fn", x.a[0]))]
            for s, k in self.place(st, x):
                if k is None:
                    out.append((s, self.fresh("a")))
                elif k[0] == "m" and k[2] == "0":
                    out.append((s, k[1]))
                else:
                    out.append((s, ("adr", k)))
            return out
        if op in ("assign", "aug", "incdec"):
            return self.assign(st, e)
        if op in ("and", "or", "cmp") or (op == "un" and e.a[0] == "!"):
            out = []
            for s, b in self.cond(st, e):
                out.append((s, ("n", int(b))) if b is not None else (s, self.fresh("b")))
            return out
        if op == "cond":
            out = []
            for s, b in self.cond(st, e.a[0]):
                out += self.ev(s, e.a[1] if b else e.a[2])
            return out
        if op == "comma":
            out = []
            for s, _ in self.ev(st, e.a[0]):
                out += self.ev(s, e.a[1])
            return out
        if op == "bin":
            out = []
            for s, l in self.ev(st, e.a[1]):
                for s2, r in self.ev(s, e.a[2]):
                    out.append((s2, self.binop(s2, e.a[0], l, r)))
            return out
        if op == "un":
            out = []
            for s, v in self.ev(st, e.a[1]):
                if v[0] == "n":
                    out.append((s, ("n", -v[1] if e.a[0] == "-" else ~v[1] if e.a[0] == "~" else v[1])))
                else:
                    out.append((s, S("%s(%s)" % (e.a[0], txt(v)))))
            return out
        if op == "call":
            return self.call(st, e)
        if op == "stmtexpr":
            out = []
            for s, o, v in self.body(st, e.a[0]):
                out.append((s, self.fresh("e")))
            return out
        if op == "init":
            return [(st, ("init", e))]
        return [(st, self.fresh(op))]

    def binop(self, st, op, l, r):
        if l[0] == "n" and r[0] == "n":
            a, b = l[1], r[1]
            try:
                if op == "+":
                    return ("n", a + b)
                if op == "-":
                    return ("n", a - b)
                if op == "*":
                    return ("n", a * b)
                if op == "/":
                    return ("n", int(a / b))
                if op == "%":
                    return ("n", a - b * int(a / b))
            except Exception:
                pass
        if op in ("+", "-") and (l[0] in ("heap", "data") or l[0] == "s" and r[0] == "n" and False):
            return ("adr", ("m", l, txt(r) if op == "+" else "-" + txt(r)))
        if op == "+" and r[0] in ("heap", "data"):
            return ("adr", ("m", r, txt(l)))
        lt, rt = txt(l), txt(r)
        # element of a flattened (row, column) pair and back
        if op == "+":
            for x, y in ((lt, rt), (rt, lt)):
                m = re.match(r"^\((.*)\*(.*)\)$", x)
                ly = self.loopof(st, y)
                if m and ly:
                    for a, k in ((m.group(1), m.group(2)), (m.group(2), m.group(1))):
                        la = self.loopof(st, a)
                        if la and ly[1] == k:
                            return S(self.flat(la, ly))
        if op in ("/", "%") and lt.startswith("<"):
            f = re.match(r"^<0\.\.\((.*)\*(.*)\)>$", lt)
            if f:
                for a, k in ((f.group(1), f.group(2)), (f.group(2), f.group(1))):
                    if k == rt and (rt.lstrip("-").isdigit() or True):
                        return S("<0..%s>" % (a if op == "/" else k))
        if op in ("+", "*"):
            if l == ("n", 0) and op == "+":
                return r
            if r == ("n", 0) and op == "+":
                return l
            if l == ("n", 1) and op == "*":
                return r
            if r == ("n", 1) and op == "*":
                return l
            lt, rt = sorted((lt, rt), key=lambda t: (t.lstrip("-").isdigit(), t))
        return S("(%s%s%s)" % (lt, op, rt))

    def loopof(self, st, t):
        m = re.match(r"^<0\.\.(.*)>$", t)
        return (t, m.group(1)) if m and t.count("<") == t.count(">") else None

    def flat(self, la, ly):
        a, b = sorted((la[1], ly[1]), key=lambda t: (t.lstrip("-").isdigit(), t))
        return "<0..(%s*%s)>" % (a, b)

    def rd(self, st, name):
        k = self.cur.get(name)
        if k is not None:
            return st.env.get(k, ("uninit",)) if k in st.env or k in self.ptrvars else S("%s" % (k,))
        if name in self.u.enums:
            return ("n", self.u.enums[name])
        if name in self.u.funcs:
            return ("fn", name)
        if name in self.u.globals:
            g = self.u.globals[name]
            if "[" in g.a[1]:
                return ("g", name)
        return S("$" + name)

    def place(self, st, e):
        """[(state, ('v',key) | ('m',base,idx) | None)]"""
        op = e.op
        if op in ("cast", "icast"):
            return self.place(st, e.a[1])
        if op == "comma":
            out = []
            for s, _ in self.ev(st, e.a[0]):
                out += self.place(s, e.a[1])
            return out
        if op == "name":
            k = self.cur.get(e.a[0])
            if k is not None:
                return [(st, ("v", k))]
            return [(st, ("m", ("g", e.a[0]), "0"))]
        if op == "sub":
            out = []
            for s, b in self.ev(st, e.a[0]):
                for s2, i in self.ev(s, e.a[1]):
                    if b[0] == "adr" and b[1][0] == "m":
                        out.append((s2, ("m", b[1][1], txt(self.binop(s2, "+", S(b[1][2]), i)))))
                    elif b[0] == "adr" and b[1][0] == "v":
                        out.append((s2, b[1]))
                    else:
                        self.use(s2, b, e.loc, "an access")
                        out.append((s2, ("m", b, txt(i))))
            return out
        if op == "deref":
            out = []
            for s, b in self.ev(st, e.a[0]):
                if b[0] == "adr":
                    out.append((s, b[1]))
                else:
                    out.append((s, ("m", b, "0")))
            return out
        if op == "attr":
            out = []
            if len(e.a) > 2 and e.a[2]:
                for s, b in self.ev(st, e.a[0]):
                    if b[0] == "adr" and b[1][0] == "m":
                        out.append((s, ("m", b[1][1], b[1][2] + "." + e.a[1])))
                    elif b[0] == "adr":
                        out.append((s, ("m", ("arr", b[1][1]), "." + e.a[1])))
                    else:
                        out.append((s, ("m", b, "." + e.a[1])))
                return out
            for s, k in self.place(st, e.a[0]):
                if k is None:
                    out.append((s, None))
                elif k[0] == "v":
                    out.append((s, ("m", ("arr", k[1]), "." + e.a[1])))
                else:
                    out.append((s, ("m", k[1], (k[2] if k[2] != "0" or k[1][0] == "g" else "") + "." + e.a[1])))
            return out
        return [(s, None) for s, _ in self.ev(st, e)]

    def put(self, st, k, v, loc):
        if k is None:
            if v[0] == "heap":
                self.escape(st, v)
            return
        if k[0] == "v":
            st.env[k[1]] = v
            return
        self.store(st, k[1], k[2], v, loc)

    def assign(self, st, e):
        out = []
        if e.op == "assign":
            for s, v in self.ev(st, e.a[1]):
                for s2, k in self.place(s, e.a[0]):
                    self.put(s2, k, v, e.loc)
                    out.append((s2, v))
            return out
        if e.op == "aug":
            for s, v in self.ev(st, e.a[2]):
                for s2, k in self.place(s, e.a[1]):
                    old = s2.env.get(k[1], self.fresh("v")) if k and k[0] == "v" else self.fresh("m")
                    nv = self.binop(s2, e.a[0], old, v)
                    self.put(s2, k, nv, e.loc)
                    out.append((s2, nv))
            return out
        for s, k in self.place(st, e.a[1]):
            old = s.env.get(k[1], self.fresh("v")) if k and k[0] == "v" else self.fresh("m")
            nv = self.binop(s, "+" if e.a[0] == "+" else "-", old, ("n", 1))
            self.put(s, k, nv, e.loc)
            out.append((s, old if e.a[2] else nv))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, st, e):
        """[(state, bool)]"""
        op = e.op
        if op in ("cast", "icast"):
            return self.cond(st, e.a[1])
        if op == "un" and e.a[0] == "!":
            return [(s, not b) for s, b in self.cond(st, e.a[1])]
        if op == "and":
            out = []
            todo = [(st, 0)]
            while todo:
                s, i = todo.pop()
                if i == len(e.a[0]):
                    out.append((s, True))
                    continue
                for s2, b in self.cond(s, e.a[0][i]):
                    if b:
                        todo.append((s2, i + 1))
                    else:
                        out.append((s2, False))
            return out
        if op == "or":
            out = []
            todo = [(st, 0)]
            while todo:
                s, i = todo.pop()
                if i == len(e.a[0]):
                    out.append((s, False))
                    continue
                for s2, b in self.cond(s, e.a[0][i]):
                    if b:
                        out.append((s2, True))
                    else:
                        todo.append((s2, i + 1))
            return out
        if op == "cmp":
            out = []
            for s, l in self.ev(st, e.a[1]):
                for s2, r in self.ev(s, e.a[2]):
                    out += self.cmp(s2, e.a[0], l, r, e.loc)
            return out
        if op == "bool":
            return [(st, bool(e.a[0]))]
        out = []
        for s, v in self.ev(st, e):
            out += self.truth(s, v, e.loc)
        return out

    def truth(self, st, v, loc):
        if v[0] == "n":
            return [(st, v[1] != 0)]
        if v[0] == "null":
            return [(st, False)]
        if v[0] in ("data", "adr", "imm", "fn", "str", "arr", "g"):
            return [(st, True)]
        if v[0] == "heap":
            if v[1] in st.null:
                return [(st, False)]
            if st.heaps[v[1]][0] != "alloc" or v in st.weak:
                return [(st, True)]
            t = "nul:" + v[1]
            if t in st.memo:
                return [(st, True)]
            a, b = st.copy(), st
            b.memo[t] = True
            a.null = a.null | {v[1]}
            a.heaps[v[1]] = ("null",) + a.heaps[v[1]][1:]
            return [(b, True), (a, False)]
        if v[0] == "obj":
            if v[1] in st.null:
                return [(st, False)]
            t = "nul:" + v[1]
            if t in st.memo or st.objs[v[1]][1] == "new:PyCapsule_New":
                return [(st, True)]
            a, b = st.copy(), st
            b.memo[t] = True
            a.null = a.null | {v[1]}
            o = a.objs[v[1]]
            a.objs[v[1]] = (0, "null:" + o[1], o[2], o[3], ())
            return [(b, True), (a, False)]
        return self.cmp(st, "!=", v, ("n", 0), loc)

    def cmp(self, st, op, l, r, loc):
        nul = ("null",), ("n", 0)
        if op in ("==", "!="):
            for x, y in ((l, r), (r, l)):
                if y in nul and x[0] in ("heap", "obj", "data", "adr", "imm", "fn", "str", "null"):
                    return [(s, b if op == "!=" else not b) for s, b in self.truth(st, x, loc)]
            if l == r and l[0] not in ("uninit",):
                return [(st, op == "==")]
        if l[0] == "n" and r[0] == "n":
            a, b = l[1], r[1]
            return [(st, {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])]
        neg = False
        lt, rt = txt(l), txt(r)
        if op == ">":
            op, lt, rt = "<", rt, lt
        elif op == ">=":
            op, neg = "<", True
        elif op == "<=":
            op, lt, rt, neg = "<", rt, lt, True
        elif op == "!=":
            op, neg = "==", True
        if op == "==" and lt > rt:
            lt, rt = rt, lt
        # the sign of a multiple
        for _ in range(4):
            x = rt if lt == "0" else lt if rt == "0" else ""
            m = re.match(r"^\((.*)\*(\d+)\)$", x)
            if not m or int(m.group(2)) <= 0:
                break
            if lt == "0":
                rt = m.group(1)
            else:
                lt = m.group(1)
        # integers against a bound: x > -1 is x >= 0, x < 1 is x <= 0
        if op == "<" and lt == "-1":
            op, lt, rt, neg = "<", rt, "0", not neg
        if op == "<" and rt == "1":
            lt, rt, neg = "0", lt, not neg
        t = "%s%s%s" % (lt, op, rt)
        # element index below its own bound
        m = re.match(r"^<0\.\.(.*)>$", lt)
        if op == "<" and m and m.group(1) == rt:
            return [(st, not neg)]
        if t in st.memo:
            b = st.memo[t]
            return [(st, b != neg)]
        # incompatible known facts (integers): x==0 / x<0 / 0<x
        if op == "<":
            other = "%s<%s" % (rt, lt)
            eq = "%s==%s" % tuple(sorted((lt, rt)))
            if st.memo.get(other) is True or st.memo.get(eq) is True:
                return [(st, neg)]
            if st.memo.get(other) is False and st.memo.get(eq) is False:
                return [(st, not neg)]
        elif op == "==":
            for o in ("%s<%s" % (lt, rt), "%s<%s" % (rt, lt)):
                if st.memo.get(o) is True:
                    return [(st, neg)]
            if st.memo.get("%s<%s" % (lt, rt)) is False and st.memo.get("%s<%s" % (rt, lt)) is False:
                return [(st, not neg)]
        a = st.copy()
        st.memo[t] = True
        a.memo[t] = False
        return [(st, not neg), (a, neg)]

    # ------------------------------------------------------------ calls
    def args(self, st, xs):
        res = [(st, [])]
        for x in xs:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(s, x)]
        return res

    def call(self, st, e):
        name = self.fname(e.a[0])
        loc = e.loc
        if name in self.u.funcs and not self.relevant_fn(name):
            # numeric helper: it may write through its pointer arguments
            out = []
            for s, vs in self.args(st, e.a[1]):
                for v in vs:
                    self.touch(s, v)
                    self.use(s, v, loc, "a call")
                out.append((s, self.fresh(name)))
            return out
        out = []
        for s, vs in self.args(st, e.a[1]):
            out += self.apply(s, name, vs, loc, e)
        return out

    def touch(self, st, v):
        self.n += 1
        if v[0] in ("heap", "data", "arr", "g"):
            st.ver[v] = self.n
            for k in [k for k in st.mem if k[0] == v and st.mem[k][0] in ("n", "s")]:
                del st.mem[k]
        elif v[0] == "adr" and v[1][0] == "m":
            self.touch(st, v[1][1])
        elif v[0] == "adr" and v[1][0] == "v":
            st.env[v[1][1]] = S("t?%d" % self.n)

    def apply(self, st, name, vs, loc, e):
        if name in self.u.funcs:
            return self.inline(st, name, vs, loc)
        if name is not None and name.startswith(("Py", "_Py", "import_")):
            self.apicalls += 1
            if name not in NOGIL and not name.startswith("PyMem_Raw"):
                if not st.gil:
                    self.bad("lock", "%s-without-lock" % name, "%s is called while the interpreter lock is released" % name, loc)
                elif st.omp and name not in READONLY:
                    self.bad("lock", "%s-in-parallel" % name, "%s is called from a parallel region" % name, loc)
        for i, v in enumerate(vs):
            if name in DECREF or name in FREE:
                break
            if v[0] in ("obj", "heap"):
                self.use(st, v, loc, "call of %s" % name)
        if name == "PyEval_SaveThread":
            if not st.gil:
                self.bad("lock", "released-twice", "the interpreter lock is released while it is not held", loc)
            if st.omp:
                self.bad("lock", "released-in-parallel", "the interpreter lock is released from a parallel region", loc)
            st.gil = False
            return [(st, S("ts"))]
        if name == "PyEval_RestoreThread":
            if st.gil:
                self.bad("lock", "acquired-twice", "the interpreter lock is acquired while it is already held", loc)
            st.gil = True
            return [(st, ("n", 0))]
        if name == "PyGILState_Ensure":
            old = st.gil
            st.gil = True
            return [(st, S("gs%d" % old))]
        if name == "PyGILState_Release":
            st.gil = vs[0] == S("gs1")
            return [(st, ("n", 0))]
        if name in ALLOC:
            return [(st, self.newheap(st, loc, self.site(e)))]
        if name == "realloc":
            if vs[0][0] == "heap":
                st.heaps[vs[0][1]] = ("freed",) + st.heaps[vs[0][1]][1:]
            return [(st, self.newheap(st, loc, self.site(e)))]
        if name in FREE:
            self.free(st, vs[0], loc)
            return [(st, ("n", 0))]
        if name in DECREF:
            self.decref(st, vs[0], loc, DECREF[name])
            return self.flush(st, ("n", 0))
        if name in INCREF or name in ("Py_NewRef", "Py_XNewRef", "_Py_NewRef", "_Py_XNewRef"):
            v = vs[0]
            if v[0] == "obj":
                own, kind, l0, held, extra = st.objs[v[1]]
                st.objs[v[1]] = (own + 1, kind, l0, held, extra)
            return [(st, v)]
        if name in STEAL:
            v = vs[STEAL[name]]
            if v[0] == "obj":
                own, kind, l0, held, extra = st.objs[v[1]]
                if own <= 0:
                    self.bad("references", "stolen-borrowed/" + name, "%s takes over a reference that is not owned here" % name, loc)
                else:
                    st.objs[v[1]] = (own - 1, kind, l0, held + 1, extra)
            return [(st, ("n", 0))]
        if name == "PyTuple_Pack":
            items = tuple(vs[1:])
            for v in items:
                if v[0] == "obj":
                    o = st.objs[v[1]]
                    st.objs[v[1]] = (o[0], o[1], o[2], o[3] + 1, o[4])
            return [(st, self.newobj(st, "new:PyTuple_Pack", loc, 1, (("items", items), ("loops", st.loops))))]
        if name in ("Py_BuildValue", "_Py_BuildValue_SizeT"):
            fmt = vs[0][1] if vs[0][0] == "str" else ""
            items = []
            k = 1
            for ch in fmt:
                if ch in "()[]{}, :#":
                    continue
                v = vs[k] if k < len(vs) else ("n", 0)
                k += 1
                if v[0] == "obj" and ch in "NOS":
                    o = st.objs[v[1]]
                    if ch == "N":
                        if o[0] <= 0:
                            self.bad("references", "stolen-borrowed/Py_BuildValue", "Py_BuildValue takes over a reference that is not owned here", loc)
                        o = (max(0, o[0] - 1),) + o[1:]
                    st.objs[v[1]] = (o[0], o[1], o[2], o[3] + 1, o[4])
                    items.append(v)
            return [(st, self.newobj(st, "new:Py_BuildValue", loc, 1, (("items", tuple(items)), ("loops", st.loops))))]
        if name == "PyCapsule_New":
            d = vs[2][1] if vs[2][0] == "fn" else None
            ex = (("ptr", vs[0]), ("name", vs[1]), ("loops", st.loops)) + ((("destructor", d),) if d else ())
            return [(st, self.newobj(st, "new:PyCapsule_New", loc, 1, ex))]
        if name in ("PyCapsule_GetPointer",):
            v = vs[0]
            if v[0] == "obj":
                d = dict(x for x in st.objs[v[1]][4] if len(x) == 2)
                if "ptr" in d:
                    if d["name"] != vs[1]:
                        return [(st, ("null",))]
                    return [(st, d["ptr"])]
            return [(st, S("capsule(%s)" % txt(v)))]
        if name in ("PyArg_ParseTuple", "_PyArg_ParseTuple_SizeT"):
            return self.parse(st, vs, loc)
        if name in NEWREF:
            what = name
            if len(vs) > 1 and vs[1][0] == "str" and "Attr" in name:
                what = "%s(%s)" % (name, vs[1][1])
            return [(st, self.newobj(st, "new:" + what, loc, 1, (("loops", st.loops),)))]
        if name in BORROW:
            return [(st, self.newobj(st, "borrowed:" + name, loc, 0))]
        if name in ACC:
            v = vs[0]
            w = v[1] if v[0] == "obj" else txt(v)
            k = st.objs[v[1]][1].split(":")[-1] if v[0] == "obj" else "array"
            return [(st, ("data", w, k))]
        if name and name.startswith("MPI_"):
            return self.mpi(st, name, vs, loc)
        if name in ("memset", "memcpy", "memmove"):
            self.touch(st, vs[0])
            if name == "memset" and len(vs) > 1 and vs[1] == ("n", 0) and vs[0][0] == "heap":
                st.mem[(vs[0], "*")] = ("null",)
            return [(st, vs[0])]
        for v in vs:
            if name is None or not (name.startswith(("Py", "_Py", "omp_", "__builtin")) or name in MATH):
                self.touch(st, v)
                if v[0] == "heap" and name not in PUREC:
                    pass
        return [(st, self.fresh(name or "call"))]

    def site(self, e):
        """stable name of an allocation: the variable it is stored to"""
        return self.target or "block"

    def parse(self, st, vs, loc):
        fmt = vs[1][1] if vs[1][0] == "str" else ""
        bad = st.copy()
        codes = [ch for ch in re.sub(r"[:;].*", "", fmt) if ch not in "|$()"]
        items = None
        if vs[0][0] == "obj":
            d = dict(x for x in st.objs[vs[0][1]][4] if len(x) == 2)
            items = d.get("items")
        for i, ch in enumerate(codes):
            if 2 + i >= len(vs):
                self.bad("references", "parse-format", "more format units than targets", loc)
                break
            t = vs[2 + i]
            if ch == "O":
                v = items[i] if items and i < len(items) else self.newobj(st, "borrowed:arg", loc, 0)
            else:
                v = S("arg%s%d" % (ch, i))
            if t[0] == "adr":
                self.put(st, t[1], v, loc)
        if items is not None:
            return [(st, ("n", 1))]
        return [(st, ("n", 1)), (bad, ("n", 0))]

    def mpi(self, st, name, vs, loc):
        self.nmsg += name in ("MPI_Isend", "MPI_Irecv")
        if name in ("MPI_Isend", "MPI_Irecv", "MPI_Issend", "MPI_Ibsend"):
            r = vs[-1]
            k = (r[1][1], r[1][2]) if r[0] == "adr" and r[1][0] == "m" else (("var", r[1][1]), "0") if r[0] == "adr" else (r, "0")
            if k in st.req:
                self.bad("completion", "request-overwritten/" + name, "the request of a pending %s is overwritten" % st.req[k][0], loc)
            if k[0][0] == "var" and st.loops:
                pass
            b = vs[0]
            st.req[k] = (name, loc, b)
            self.n += 1
            st.mem[k] = S("req")
            return [(st, ("n", 0))]
        if name in ("MPI_Wait", "MPI_Waitall"):
            r = vs[0] if name == "MPI_Wait" else vs[1]
            if name == "MPI_Wait":
                k = (r[1][1], r[1][2]) if r[0] == "adr" and r[1][0] == "m" else (("var", r[1][1]), "0") if r[0] == "adr" else (r, "0")
                if st.req.pop(k, None) is None and any(q[0] == k[0] for q in st.req):
                    # another element of the same array: cannot be told apart when the index is not an element of the posting loop
                    if k[1] not in [q[1] for q in st.req if q[0] == k[0]] and not k[1].startswith("<"):
                        for q in [q for q in st.req if q[0] == k[0]]:
                            del st.req[q]
            else:
                base = r[1][1] if r[0] == "adr" and r[1][0] == "m" else r
                n = txt(vs[0])
                for q in [q for q in st.req if q[0] == base]:
                    m = re.match(r"^<0\.\.(.*)>$", q[1])
                    if m and m.group(1) != n and n.isdigit() and m.group(1).isdigit() and int(n) < int(m.group(1)):
                        continue
                    if m and m.group(1) != n and self.smaller(n, m.group(1)):
                        continue
                    del st.req[q]
            return [(st, ("n", 0))]
        for v in vs:
            if v[0] == "adr" and v[1][0] == "v":
                self.touch(st, v)
        return [(st, self.fresh(name))]

    def smaller(self, n, bound):
        """n is recognisably less than bound (a factor or an amount is missing)"""
        if n == bound:
            return False
        m = re.match(r"^\((.*)\*(.*)\)$", bound)
        if m and n in (m.group(1), m.group(2)):
            return True
        m = re.match(r"^\((.*)-(\d+)\)$", n)
        return bool(m and m.group(1) == bound)

    def inline(self, st, name, vs, loc):
        f = self.u.funcs[name]
        if name in [x[0] for x in self.stack] or len(self.stack) > 12:
            for v in vs:
                self.touch(st, v)
            return [(st, self.fresh(name))]
        self.calls.add(name)
        self.stack.append((name, loc))
        saved, savedp = self.cur, self.ptrvars
        self.frames += 1
        fr = self.frames
        self.cur = Scope(fr)
        self.ptrvars = set()
        for (p, ty, _), v in zip(f.params, vs):
            k = self.cur.add(p)
            st.env[k] = v
        st.scopes.append([])
        res = []
        for s, o, v in self.body(st, f.body):
            if o in ("go",):
                v = self.fresh(name)
            s = self.leave(s, f.loc if hasattr(f, "loc") else (f.file, f.line))
            for k in [k for k in s.env if isinstance(k, str) and k.startswith("%d." % fr)]:
                del s.env[k]
            res.append((s, v if v is not None else ("n", 0)))
        self.cur, self.ptrvars = saved, savedp
        self.stack.pop()
        out = []
        for s, v in dedup2(res):
            out += self.flush(s, v)
        return out

    def leave(self, st, loc):
        """end of a scope: cleanup attributes"""
        for k, l in reversed(st.scopes.pop()):
            v = st.env.get(k, ("uninit",))
            self.free(st, v, l, "automatic cleanup")
            st.env[k] = ("null",)
        return st

    def flush(self, st, v):
        """run destructors of objects that died"""
        out = [(st, v)]
        while self.pending:
            s0, d, obj = self.pending.pop()
            nxt = []
            for s, vv in out:
                if obj[1] in s.objs:
                    saved = self.cur, self.ptrvars
                    for s2, _ in self.inline(s, d, [obj], s.objs[obj[1]][2]):
                        o = s2.objs[obj[1]]
                        s2.objs[obj[1]] = (0, "dead:" + o[1], o[2], 0, ())
                        nxt.append((s2, vv))
                    self.cur, self.ptrvars = saved
            out = nxt or out
        return out

    # ------------------------------------------------------------ statements
    # returns [(state, outcome, value)], outcome in go/ret/brk/cont/('goto',id)
    def body(self, st, stmts):
        cur = [(st, 0)]
        out = []
        seen = set()
        index = {s.a[1]: i for i, s in enumerate(stmts) if s.op == "label"}
        pos = 0
        pend = {0: [st]}
        n = len(stmts)
        steps = 0
        while pend:
            pos = min(pend)
            sts = dedup(pend.pop(pos))
            steps += 1
            if len(sts) > self.LIMIT or steps > 50000:
                raise TooComplex("too many paths in %s" % (self.stack[-1][0] if self.stack else "?"))
            if pos == n:
                out += [(s, "go", None) for s in sts]
                continue
            for s in sts:
                for s2, o, v in self.stmt(s, stmts[pos]):
                    if o == "go":
                        pend.setdefault(pos + 1, []).append(s2)
                    elif isinstance(o, tuple) and o[1] in index:
                        t = index[o[1]]
                        if t > pos:
                            pend.setdefault(t, []).append(s2)
                        else:
                            raise TooComplex("backward goto")
                    else:
                        out.append((s2, o, v))
        return out

    def scoped(self, st, stmts):
        st.scopes.append([])
        res = []
        for s, o, v in self.body(st, stmts):
            self.leave(s, None)
            res.append((s, o, v))
        return res

    def stmt(self, st, n):
        op = n.op
        self.target = None
        if op in ("cfor", "while", "dowhile", "if", "switch", "omp", "expr", "block") and not self.rel_stmt(n):
            self.havoc(st, n)
            return [(st, "go", None)]
        if op == "expr":
            x = n.a[0]
            self.target = self.tname(x.a[0]) if x.op == "assign" else None
            res = []
            for s, v in self.ev(st, x):
                if x.op == "call" and v[0] == "obj" and s.objs.get(v[1], (0,))[0] > 0 and s.objs[v[1]][1].startswith("new") and self.fname(x.a[0]) not in INCREF:
                    self.bad("references", "discarded/" + s.objs[v[1]][1].split(":")[-1], "a new reference is discarded without being released", n.loc)
                    o = s.objs[v[1]]
                    s.objs[v[1]] = (0, "dead:" + o[1]) + o[2:]
                res.append((s, "go", None))
            return res
        if op == "decl":
            name, ty, init, static, clean = n.a
            k = self.cur.add(name)
            if static:
                st.env[k] = ("s", "static:" + name)
                return [(st, "go", None)]
            if "[" in ty:
                st.env[k] = ("arr", k)
                if init is not None and init.op == "init":
                    if is_ptr(ty.split("[")[0]) and all(self.zero(x) for x in init.a[0]):
                        st.mem[(("arr", k), "*")] = ("null",)
                    for s, vs in self.args(st, init.a[0])[:1]:
                        st = s
                return [(st, "go", None)]
            if is_ptr(ty):
                self.ptrvars.add(k)
            if init is None:
                st.env.pop(k, None)
                if not is_ptr(ty):
                    st.env[k] = S("%s" % k)
                if clean:
                    st.scopes[-1].append((k, n.loc))
                    st.env[k] = ("uninit",)
                return [(st, "go", None)]
            self.target = name
            res = []
            for s, v in self.ev(st, init):
                if is_ptr(ty) and v == ("n", 0):
                    v = ("null",)
                s.env[k] = v
                if v[0] == "init":
                    s.env[k] = ("arr", k)
                if clean:
                    s.scopes[-1].append((k, n.loc))
                res.append((s, "go", None))
            return res
        if op == "if":
            res = []
            for s, b in self.cond(st, n.a[0]):
                br = n.a[1] if b else n.a[2]
                if br:
                    res += self.scoped(s, br)
                else:
                    res.append((s, "go", None))
            return res
        if op == "block":
            return self.scoped(st, n.a[0])
        if op == "omp":
            st.omp += 1
            for c in n.a[1]:
                pass
            res = []
            for s, o, v in self.scoped(st, n.a[2]):
                s.omp -= 1
                if o == "ret":
                    self.bad("lock", "return-in-parallel", "return from inside a parallel region", n.loc)
                res.append((s, o, v))
            return res
        if op == "return":
            if n.a[0] is None:
                return [(st, "ret", ("n", 0))]
            self.target = "result"
            return [(s, "ret", v) for s, v in self.ev(st, n.a[0])]
        if op == "break":
            return [(st, "brk", None)]
        if op == "continue":
            return [(st, "cont", None)]
        if op == "goto":
            return [(st, ("goto", n.a[0]), None)]
        if op in ("label", "pass"):
            return [(st, "go", None)]
        if op == "cfor":
            return self.loop(st, n.a[0], n.a[1], n.a[2], n.a[3], n)
        if op == "while":
            b = n.a[1]
            if b and b[-1].op == "expr" and b[-1].a[0].op in ("incdec", "aug") and not any(x.op == "continue" for y in b for x in self.walk_noloop(y)):
                v = b[-1].a[0].a[1]
                if v.op == "name" and v.a[0] not in self.assigned(b[:-1]):
                    return self.loop(st, [], n.a[0], b[-1].a[0], b[:-1], n)
            return self.loop(st, [], n.a[0], None, b, n)
        if op == "dowhile":
            res = []
            for s, o, v in self.scoped(st, n.a[0]):
                if o in ("brk", "cont"):
                    o = "go"
                res.append((s, o, v))
            return res
        if op == "switch":
            res = []
            for s, _ in self.ev(st, n.a[0]):
                for labels, b in n.a[1]:
                    for s2, o, v in self.scoped(s.copy(), b):
                        res.append((s2, "go" if o == "brk" else o, v))
                res.append((s, "go", None))
            return res
        raise TooComplex("statement %s" % op)

    def zero(self, x):
        while x.op in ("cast", "icast"):
            x = x.a[1]
        return x.op == "num" and x.a[0] == 0

    def tname(self, t):
        while t.op in ("sub", "deref", "cast"):
            t = t.a[0] if t.op != "cast" else t.a[1]
        if t.op == "attr":
            return t.a[1]
        return t.a[0] if t.op == "name" else None

    def havoc(self, st, n):
        """numeric code: what it may assign becomes unknown"""
        shadow = {x.a[0] for x in walk(n) if x.op == "decl"}
        if n.op == "expr" and n.a[0].op in ("assign", "aug", "incdec"):
            self.assign(st, n.a[0])
            return
        for x in walk(n):
            t = None
            if x.op == "assign":
                t = x.a[0]
            elif x.op in ("aug", "incdec"):
                t = x.a[1]
            elif x.op == "call":
                for y in x.a[1]:
                    while y.op in ("cast", "icast"):
                        y = y.a[1]
                    if y.op == "addr" and y.a[0].op == "name":
                        k = self.cur.get(y.a[0].a[0])
                        if k is not None and y.a[0].a[0] not in shadow:
                            st.env[k] = self.fresh("h")
                    elif y.op == "addr" or y.op in ("name", "sub", "attr", "deref") and is_ptr(y.ty or "*"):
                        v = self.peek(st, y, shadow)
                        if v is not None:
                            self.use(st, v, x.loc, "a call")
                            self.touch(st, v)
            elif x.op == "name" and x.a[0] not in shadow and self.cur.get(x.a[0]) is not None:
                v = st.env.get(self.cur.get(x.a[0]))
                if v is not None and v[0] == "heap":
                    self.use(st, v, x.loc or n.loc, "a read")
            if t is None:
                continue
            while t.op in ("cast", "icast"):
                t = t.a[1]
            if t.op == "name":
                if t.a[0] not in shadow and self.cur.get(t.a[0]) is not None:
                    k = self.cur.get(t.a[0])
                    if k not in self.ptrvars:
                        st.env[k] = self.fresh("h")
                continue
            if t.op in ("sub", "deref", "attr"):
                v = self.peek(st, t.a[0], shadow)
                if v is not None:
                    self.touch(st, v)

    def peek(self, st, e, shadow):
        """value of a pointer expression in numeric code (nothing is recorded)"""
        b = e
        while b.op in ("sub", "attr", "deref", "cast", "icast", "addr"):
            b = b.a[1] if b.op in ("cast", "icast") else b.a[0]
        if b.op != "name" or b.a[0] in shadow:
            return None
        if any(x.op == "call" for x in walk(e)):
            e = b
        old, self.report = self.report, lambda *a: None
        try:
            return self.ev(st.copy(), e)[0][1]
        finally:
            self.report = old

    def assigned(self, n):
        out = set()
        for x in walk(n):
            t = x.a[0] if x.op == "assign" else x.a[1] if x.op in ("aug", "incdec") else None
            if t is not None:
                while t.op in ("cast", "icast"):
                    t = t.a[1]
                if t.op == "name":
                    out.add(t.a[0])
        return out

    def loop(self, st, init, cnd, inc, body, n):
        st.scopes.append([])
        sts = [s for s, o, v in self.body(st, init)]
        res = []
        for s in sts:
            res += self.loop1(s, init, cnd, inc, body, n)
        for s, o, v in res:
            self.leave(s, None)
        return res

    def loop1(self, st, init, cnd, inc, body, n):
        # recognise for (i = a; i < b; i++)
        var, bound = None, None
        c = cnd
        while c is not None and c.op in ("cast", "icast"):
            c = c.a[1]
        if c is not None and c.op == "cmp" and inc is not None:
            iv = self.assigned(inc)
            for l, r, op in ((c.a[1], c.a[2], c.a[0]), (c.a[2], c.a[1], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c.a[0], c.a[0]))):
                while l.op in ("cast", "icast"):
                    l = l.a[1]
                if l.op == "name" and l.a[0] in iv:
                    var, bound, rel = l.a[0], r, op
                    break
        names = {x for x in self.assigned(body)}
        out = []
        sym = None
        if var is not None:
            k = self.cur.get(var)
            start = st.env.get(k, self.fresh("st"))
            (st, b), = self.ev(st, bound)[:1]
            step = self.stepof(inc, var)
            if step == 1 and rel in ("<", "!=", "<="):
                if rel == "<=":
                    b = self.binop(st, "+", b, ("n", 1))
                    m = re.match(r"^\(\((.*)-1\)\+1\)$", txt(b))
                    if m:
                        b = S(m.group(1))
                sym = "<%s..%s>" % (txt(start), txt(b))
            elif step == -1 and rel in (">=", ">", "!="):
                # counting down over [b, start]
                lo = b if rel == ">=" else self.binop(st, "+", b, ("n", 1))
                hi = self.binop(st, "+", start, ("n", 1))
                m = re.match(r"^\(\((.*)-1\)\+1\)$", txt(hi))
                if m:
                    hi = S(m.group(1))
                sym = "<%s..%s>" % (txt(lo), txt(hi))
                start, b = lo, hi
            else:
                self.n += 1
                sym = "<%s..%s/%d>" % (txt(start), txt(b), self.n)
            # empty?
            empty = []
            if start[0] == "n" and b[0] == "n":
                run, skip = ([st], []) if b[1] > start[1] else ([], [st])
            else:
                run, skip = [], []
                for s, v in self.cmp(st, "<", start, b, n.loc):
                    (run if v else skip).append(s)
            # a range 0..a*b is empty exactly when a is (b constant)
            out += [(s, "go", None) for s in skip]
        else:
            self.n += 1
            sym = "<it%d>" % self.n
            s2 = st.copy()
            out.append((s2, "go", None))
            run = [st]
            if cnd is not None:
                rr = []
                for s, b in self.cond(st, cnd):
                    if b:
                        rr.append(s)
                    else:
                        out.append((s, "go", None))
                run = rr
        for s in run:
            if var is not None:
                s.env[self.cur.get(var)] = S(sym)
            for nm in names:
                k = self.cur.get(nm)
                if k is not None and nm != var and k not in self.ptrvars and s.env.get(k, ("s",))[0] in ("n", "s"):
                    s.env[k] = self.fresh("lv")
            self.n += 1
            mark = self.n
            nmem = {k: v for k, v in s.mem.items()}
            s.loops = s.loops + ((sym, None, mark),)
            oh = dict(s.heaps)
            oo = dict(s.objs)
            for s2, o, v in self.scoped(s, body):
                if o in ("go", "cont", "brk"):
                    if o != "brk":
                        self.carried(s2, mark, sym, oo, oh, n.loc, nmem)
                    s2.loops = s2.loops[:-1]
                    for nm in names:
                        k = self.cur.get(nm)
                        if k is not None and k not in self.ptrvars and s2.env.get(k, ("s",))[0] in ("n", "s"):
                            s2.env[k] = self.fresh("lv")
                    if var is not None:
                        s2.env[self.cur.get(var)] = self.fresh(var)
                    out.append((s2, "go", None))
                else:
                    s2.loops = s2.loops[:-1]
                    out.append((s2, o, v))
        return out

    def stepof(self, inc, var):
        for x in walk(inc):
            if x.op == "incdec" and x.a[1].op == "name" and x.a[1].a[0] == var:
                return 1 if x.a[0] == "+" else -1
            if x.op == "aug" and x.a[1].op == "name" and x.a[1].a[0] == var:
                y = x.a[2]
                while y.op in ("cast", "icast"):
                    y = y.a[1]
                if y.op == "num" and y.a[0] == 1:
                    return 1 if x.a[0] == "+" else -1
        return None

    def carried(self, st, mark, sym, oo, oh, loc, nmem):
        """end of an iteration: what it created must be reachable through this element"""
        lp = [l for l in st.loops if l[2] == mark]
        for hid, h in st.heaps.items():
            if h[0] == "alloc" and mark in fam_ids(h[2]) and hid not in oh and ("heap", hid) not in st.weak:
                if not self.reach(st, ("heap", hid), sym):
                    self.bad("buffers", "leak-per-iteration/" + h[3], "memory allocated in a loop iteration is lost at its end", h[1])
                    st.heaps[hid] = ("lost",) + h[1:]
        for oid, o in st.objs.items():
            if o[0] > 0 and oid not in oo and o[1].startswith("new") and not self.reach(st, ("obj", oid), sym):
                self.bad("references", "leak-per-iteration/" + o[1].split(":")[-1], "a reference taken in a loop iteration is not released", o[2])
                st.objs[oid] = (0, "lost:" + o[1]) + o[2:]

    def reach(self, st, v, sym, seen=()):
        for (base, idx), val in st.mem.items():
            if val == v:
                if not re.match(r"^-?\d+$", idx) and not (idx.startswith(".") and "<" not in idx):
                    return True
                if base[0] == "heap" and base not in seen and self.reach(st, base, sym, seen + (base,)):
                    return True
        return False

    # ------------------------------------------------------------ entries
    def run_entry(self, name, cont=()):
        """analyse exported function `name`; returns final states with their values"""
        f = self.u.funcs[name]
        self.entry = name
        self.cur = Scope(0)
        self.ptrvars = set()
        self.pending = []
        self.target = None
        self.stack = []
        st = St()
        vs = []
        for p, ty, _ in f.params:
            vs.append(self.newobj(st, "borrowed:" + p, (f.file, f.line), 0) if ty and "PyObject" in ty else S("param:" + p))
        res = self.inline(st, name, vs, (f.file, f.line))
        self.paths += len(res)
        return res

    def finish(self, name, res, keep):
        """obligations at the return of an exported function; keep(st, v) -> True when the returned object goes on"""
        f = self.u.funcs[name]
        loc = (f.file, f.line)
        for st, v in res:
            if not st.gil:
                self.bad("lock", "return-without-lock", "the function returns without re-acquiring the interpreter lock", loc)
            if v[0] == "obj":
                o = st.objs[v[1]]
                if v[1] not in st.null:
                    if o[0] <= 0:
                        self.bad("references", "returned-borrowed/" + o[1].split(":")[-1], "a reference that is not owned is returned to the caller", loc)
                    else:
                        st.objs[v[1]] = (o[0] - 1, o[1], o[2], o[3] + 1, o[4])
            held = set()
            if v[0] == "obj":
                held = self.owned_by(st, v)
            for oid, o in st.objs.items():
                if o[0] > 0 and o[1].startswith("new"):
                    self.bad("references", "leak/" + o[1].split(":", 1)[-1], "a reference taken at line %s is still owned when the function returns" % (o[2][1],), o[2])
                elif o[0] > 0 and o[1].startswith("borrowed"):
                    self.bad("references", "leak/" + o[1].split(":", 1)[-1], "a reference was added to a borrowed object and never released", o[2])
            for hid, h in st.heaps.items():
                if h[0] == "alloc" and ("heap", hid) not in held and ("heap", hid) not in st.weak:
                    self.bad("buffers", "leak/" + h[3], "memory allocated at line %s is not released when the function returns" % (h[1][1],), h[1])
            if not held:
                for k, (w, l, b) in st.req.items():
                    self.bad("completion", "not-completed/" + w, "a %s is never completed on a path to the function's return" % w, l)

    def owned_by(self, st, v):
        seen = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "obj":
                for e in st.objs[x[1]][4]:
                    if len(e) == 2 and e[0] == "ptr":
                        todo.append(e[1])
                    if len(e) == 2 and e[0] == "items":
                        todo += list(e[1])
            for (b, i), y in st.mem.items():
                if b == x and y[0] in ("heap", "obj"):
                    todo.append(y)
        seen.discard(v)
        return {x for x in seen if x[0] == "heap"}


MATH = {"sqrt", "floor", "exp", "fabs", "pow", "isnan", "isinf", "fmin", "fmax"}
PUREC = {"printf", "fprintf"}


def mentions(idx, sym):
    """is the loop element `sym` part of the index (also after flattening a (row, column) pair)?"""
    if sym in idx:
        return True
    m = re.match(r"^<0\.\.(.*)>$", sym)
    if m:
        for f in re.findall(r"<0\.\.\((.*)\)>", idx):
            if m.group(1) in f:
                return True
    return False


def fam_ids(loops):
    return {l[2] for l in loops}


def extra_loops(extra):
    for x in extra:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "loops":
            return x[1]
    return ()


class Scope:
    """names of one call frame (declarations shadow by order of appearance)"""

    def __init__(self, fr):
        self.fr = fr
        self.names = {}

    def add(self, n):
        self.names[n] = "%d.%s" % (self.fr, n)
        return self.names[n]

    def get(self, n):
        return self.names.get(n)

    def __contains__(self, n):
        return n in self.names


def dedup(sts):
    if len(sts) < 2:
        return sts
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedup2(res):
    if len(res) < 2:
        return res
    seen, out = set(), []
    for s, v in res:
        k = (s.key(), repr(v))
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    return out
