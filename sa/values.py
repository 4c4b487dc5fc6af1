"""Abstract object model used by the abstract interpreter."""


class Unsupported(Exception):
    """The analysis has no transfer function for a construct."""


class Truncated(Exception):
    """A partition exceeded the loop / step bound and is abandoned (reported in evidence)."""


class AbsRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Obj:
    birth = None      # run serial in which the object was created (None = import time)
    phase = None


class ListVal(Obj):
    def __init__(self, items, birth=None):
        self.items = list(items)
        self.birth = birth

    def __repr__(self):
        return "L%r" % (self.items,)


class SetVal(Obj):
    """Python set; elements may be symbolic and possibly equal (lazy)."""
    def __init__(self, items, birth=None):
        self.items = list(items)
        self.birth = birth


class DictVal(Obj):
    def __init__(self, pairs=(), birth=None):
        self.pairs = [list(p) for p in pairs]
        self.birth = birth

    def __repr__(self):
        return "D%r" % (self.pairs,)


class AttrDict(DictVal):
    """`x.__dict__` / `vars(x)`: a live view of an object's attributes."""
    def __init__(self, owner, field):
        self.owner, self.field = owner, field

    mapping = property(lambda self: getattr(self.owner, self.field))
    birth = property(lambda self: self.owner.birth)
    pairs = property(lambda self: [[k, v] for k, v in self.mapping.items()])


class ClassVal(Obj):
    nt_fields = None
    meta = None

    def __init__(self, name, bases, ns, module=None, qualname=None):
        self.name, self.bases, self.ns, self.module = name, list(bases), ns, module
        self.qualname = qualname or name
        self.mro = c3(self)

    def __repr__(self):
        return "<class %s>" % self.name

    def lookup(self, attr):
        for c in self.mro:
            if attr in c.ns:
                return c.ns[attr], c
        return None, None

    def has(self, attr):
        return any(attr in c.ns for c in self.mro)

    def fields(self):
        return next(c.nt_fields for c in self.mro if c.nt_fields is not None)

    def is_sub(self, other):
        return other in self.mro

    def is_sub_name(self, name):
        return any(c.name == name for c in self.mro)


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO for %s" % cls.name)
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class InstVal(Obj):
    def __init__(self, cls, birth=None):
        self.cls = cls
        self.attrs = {}
        self.birth = birth

    def __repr__(self):
        return "<%s inst>" % self.cls.name


class FuncVal(Obj):
    def __init__(self, node, env, module, name, qualname, defaults=(), kwdefaults=None):
        self.node, self.env, self.module = node, env, module
        self.name, self.qualname = name, qualname
        self.defaults, self.kwdefaults = list(defaults), kwdefaults or {}
        self.flags = {}
        self.wrapped = None
        self.is_gen = False

    def __repr__(self):
        return "<func %s>" % self.qualname

    def clone(self):
        f = FuncVal(self.node, self.env, self.module, self.name, self.qualname, self.defaults, self.kwdefaults)
        f.flags = dict(self.flags)
        f.wrapped = self.wrapped
        f.is_gen = self.is_gen
        return f


class BuiltinVal(Obj):
    """fn(interp, args, kwargs) -> value"""
    def __init__(self, name, fn, typename=None):
        self.name, self.fn, self.typename = name, fn, typename
        self.flags = {}

    def __repr__(self):
        return "<builtin %s>" % self.name


class BoundVal(Obj):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class StaticVal(Obj):
    def __init__(self, f):
        self.f = f


class ClassMethodVal(Obj):
    def __init__(self, f):
        self.f = f


class PropertyVal(Obj):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SuperVal(Obj):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ModuleVal(Obj):
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {}
        self.opaque = False

    def __repr__(self):
        return "<module %s>" % self.name


class OpaqueVal(Obj):
    """An object of a library the analysis does not model."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


END = object()         # an exhausted iterator


class ViewVal(ListVal):
    """keys() / items() of a dictionary: list-like, with the set operators"""


class LazyVal(Obj):
    """An iterator of abstract values, consumed on demand.  One created while modules load remembers what it
    produced, so that every analysed transaction starts from the same position."""
    ret = None
    source = None

    def __init__(self, gen, birth=None):
        self.gen, self.birth = iter(gen), birth
        self.pos = 0
        self.buf = [] if birth is None else None
        self.done = False

    def pull(self, ip):
        return next(self.gen, END)

    def next(self, ip):
        if self.buf is not None and self.pos < len(self.buf):
            v = self.buf[self.pos]
        else:
            v = END if self.done else self.pull(ip)
            if v is END:
                self.done = True
            elif self.buf is not None:
                self.buf.append(v)
        if v is not END:
            ip.mutate(self, v)
            self.pos += 1
        return v


class GenVal(LazyVal):
    """A running generator function: its frame is a Python generator over the interpreter's own statement walk."""
    def __init__(self, gen, func, birth=None):
        LazyVal.__init__(self, gen, birth)
        self.func = func
        self.tries, self.handled = [], []
        self.started = self.running = False

    def resume(self, ip, step):
        r = ip.run
        if self.running:
            ip.raise_("ValueError", "generator already executing")
        if ip.depth > 60:
            raise Truncated("recursion")
        saved, depth, ncur = ip.lineno, ip.depth, len(ip.cur)
        if r is not None:
            nt, nh = len(r.try_stack), len(r.handled)
            r.try_stack.extend(self.tries)
            r.handled.extend(self.handled)
        ip.cur.append((self.func.module, self.func.qualname))
        ip.depth += 1
        self.started = self.running = True
        try:
            return step()
        except StopIteration as e:
            self.done = True
            self.ret = e.value
            return END
        except BaseException:
            self.done = True
            raise
        finally:
            self.running = False
            ip.depth, ip.lineno = depth, saved
            del ip.cur[ncur:]
            if r is not None:
                self.tries, self.handled = r.try_stack[nt:], r.handled[nh:]
                del r.try_stack[nt:]
                del r.handled[nh:]

    def pull(self, ip):
        return self.resume(ip, lambda: next(self.gen))

    def send(self, ip, v):
        if self.done or self.buf is not None and self.pos < len(self.buf):
            return self.next(ip)
        ip.mutate(self, v)
        if not self.started:
            return self.pull(ip)
        return self.resume(ip, lambda: self.gen.send(v))

    def throw(self, ip, e):
        if self.done or not self.started:
            self.done = True
            raise e
        ip.mutate(self, None)
        return self.resume(ip, lambda: self.gen.throw(e))

    def close(self, ip):
        if self.done or not self.started:
            self.done = True
            return
        x = InstVal(ip.builtins["GeneratorExit"])
        x.attrs["args"] = ()
        try:
            self.throw(ip, AbsRaise(x, ip.where()))
        except AbsRaise as e:
            if e.exc.cls.name not in ("GeneratorExit", "StopIteration"):
                raise


class NTup(tuple):
    """named tuple"""
    def __new__(cls, items, klass):
        o = tuple.__new__(cls, items)
        o.cls = klass
        return o


class EnumInt(int):
    """member of an enumeration that is also an int"""
    def __new__(cls, v, name, klass):
        o = int.__new__(cls, v)
        o.ename, o.cls = name, klass
        return o


class EnumStr(str):
    def __new__(cls, v, name, klass):
        o = str.__new__(cls, v)
        o.ename, o.cls = name, klass
        return o


class DbVal(Obj):
    def __init__(self, prefix=()):
        self.prefix = tuple(prefix)


class DbObj(Obj):
    """VarDB / DictDB / ArrayDB handle."""
    def __init__(self, kind, name, prefix, vtype, depth=1, keys=()):
        self.kind, self.name, self.prefix, self.vtype, self.depth, self.keys = \
            kind, name, tuple(prefix), vtype, depth, tuple(keys)


class ProxyVal(Obj):
    """interface SCORE"""
    def __init__(self, addr, cls):
        self.addr, self.cls, self.value = addr, cls, 0


class Env:
    __slots__ = ("vars", "parent", "module", "kind", "globals_", "nonlocals", "func")

    def __init__(self, parent, module, kind="func", func=None):
        self.vars, self.parent, self.module, self.kind = {}, parent, module, kind
        self.globals_, self.nonlocals = set(), set()
        self.func = func
