"""Common intermediate representation for the C and Python sources.

A node is N(op, args, loc).  Expressions:
  num(v) str(s) name(id) none bool(b)
  bin(op,l,r)  un(op,x)  cmp(op,l,r)  and(list) or(list)  cond(c,a,b)
  sub(base, idx)           idx may be tuple()/slice()
  attr(base,name)          C: s.f and p->f
  call(fn, args, kwargs)
  addr(x) deref(x) cast(type,x)
  tuple(items) list(items) dict(keys,vals) slice(a,b,c) star(x)
  assign(target,value)  aug(op,target,value)  incdec(op,target,post)   (C expressions)
  comp(kind, elt, [(target, iter, ifs)])  lambda(params, body)  fstr(parts)
  init(items)              C initialiser list
Statements:
  expr(e) set(targets,value) augset(op,target,value) decl(name,type,init,static)
  if(c,then,else) for(target,iter,body,orelse) cfor(init,cond,inc,body)
  while(cond,body,orelse) dowhile(body,cond)
  switch(e,[(labels|None, body)])   return(e|None) break continue pass
  omp(directive, clauses, body)   block(body)
  with(items, body) try(body, handlers, orelse, final) raise(e) assert(e)
  def(Function) class(..) del(targets) global(names) import(...)
"""


class N:
    __slots__ = ("op", "a", "loc", "ty")

    def __init__(self, op, a=(), loc=None, ty=None):
        self.op = op
        self.a = a
        self.loc = loc
        self.ty = ty

    def __repr__(self):
        return "%s%r" % (self.op, tuple(self.a))


class Func:
    def __init__(self, name, params, body, file, line, lang, **kw):
        self.name = name
        self.params = params      # list of (name, type|None, default N|None)
        self.body = body
        self.file = file
        self.line = line
        self.lang = lang
        self.ret = kw.get("ret")
        self.decorators = kw.get("decorators", [])
        self.cls = kw.get("cls")
        self.vararg = kw.get("vararg")
        self.kwarg = kw.get("kwarg")
        self.kwonly = kw.get("kwonly", [])
        self.static = kw.get("static", False)
        self.node = kw.get("node")
        self.module = kw.get("module")

    @property
    def qual(self):
        return (self.cls + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<Func %s %s:%s>" % (self.qual, self.file, self.line)


def walk(n):
    """all nodes below n (lists/tuples traversed)"""
    if isinstance(n, N):
        yield n
        for x in n.a:
            yield from walk(x)
    elif isinstance(n, (list, tuple)):
        for x in n:
            yield from walk(x)
    elif isinstance(n, Func):
        yield from walk(n.body)
