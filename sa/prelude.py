"""Standard-library helpers, as abstract-interpreter source and transfer functions: iterators, context managers,
named tuples, data classes, enumerations, operators, caches."""
import ast

from .terms import *
from .values import *

SRC = {
    "itertools": '''
def chain(*its):
    for it in its:
        yield from it
def _from_iterable(its):
    for it in its:
        yield from it
def islice(it, *a):
    s = slice(*a)
    start = s[1] or 0
    stop = s[2]
    step = s[3] or 1
    i = 0
    nxt = start
    if stop is not None and start >= stop:
        return
    for x in it:
        if i == nxt:
            yield x
            nxt += step
        i += 1
        if stop is not None and i >= stop:
            return
def count(start=0, step=1):
    while True:
        yield start
        start += step
def cycle(it):
    saved = list(it)
    while saved:
        for x in saved:
            yield x
def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x
def accumulate(it, func=None, *, initial=None):
    it = iter(it)
    total = initial
    if initial is None:
        for total in it:
            break
        else:
            return
    yield total
    for x in it:
        total = total + x if func is None else func(total, x)
        yield total
def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x
def dropwhile(f, it):
    it = iter(it)
    for x in it:
        if not f(x):
            yield x
            break
    yield from it
def filterfalse(f, it):
    for x in it:
        if not (x if f is None else f(x)):
            yield x
def starmap(f, it):
    for a in it:
        yield f(*a)
def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d
def pairwise(it):
    first = True
    for x in it:
        if not first:
            yield (prev, x)
        first = False
        prev = x
def batched(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield tuple(b)
            b = []
    if b:
        yield tuple(b)
def zip_longest(*its, fillvalue=None):
    seqs = [list(x) for x in its]
    n = max([len(x) for x in seqs], default=0)
    for i in range(n):
        yield tuple([s[i] if i < len(s) else fillvalue for s in seqs])
def product(*its, repeat=1):
    pools = [tuple(x) for x in its] * repeat
    res = [()]
    for p in pools:
        res = [x + (y,) for x in res for y in p]
    yield from res
def _pick(pool, r, used, ordered, repeat):
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        if ordered:
            if i in used:
                continue
        elif used and (i < used[-1] or i == used[-1] and not repeat):
            continue
        for rest in _pick(pool, r - 1, used + [i], ordered, repeat):
            yield (pool[i],) + rest
def permutations(it, r=None):
    pool = tuple(it)
    yield from _pick(pool, len(pool) if r is None else r, [], True, False)
def combinations(it, r):
    yield from _pick(tuple(it), r, [], False, False)
def combinations_with_replacement(it, r):
    yield from _pick(tuple(it), r, [], False, True)
def groupby(it, key=None):
    grp, cur, first = [], None, True
    for x in it:
        k = x if key is None else key(x)
        if first or k != cur:
            if not first:
                yield cur, iter(grp)
            grp, cur, first = [], k, False
        grp.append(x)
    if not first:
        yield cur, iter(grp)
def tee(it, n=2):
    saved = list(it)
    return tuple([iter(saved) for _ in range(n)])
''',
    "contextlib": '''
class _Manager:
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return next(self.gen)
    def __exit__(self, typ, value, tb):
        if typ is None:
            for _ in self.gen:
                raise RuntimeError("generator didn't stop")
            return False
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")
    def __call__(self, f):
        def wrapped(*a, **k):
            with self:
                return f(*a, **k)
        return wrapped
def contextmanager(f):
    def helper(*a, **k):
        return _Manager(f(*a, **k))
    return helper
class suppress:
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return None
    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self.excs)
class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, typ, value, tb):
        return False
class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, typ, value, tb):
        self.thing.close()
class ContextDecorator:
    pass
class AbstractContextManager:
    def __enter__(self):
        return self
    def __exit__(self, typ, value, tb):
        return None
class ExitStack:
    def __init__(self):
        self.stack = []
    def __enter__(self):
        return self
    def enter_context(self, cm):
        v = cm.__enter__()
        self.stack.append(cm.__exit__)
        return v
    def callback(self, f, *a, **k):
        def run(typ, value, tb):
            f(*a, **k)
        self.stack.append(run)
        return f
    def push(self, x):
        self.stack.append(x.__exit__ if hasattr(x, '__exit__') else x)
        return x
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, typ, value, tb):
        done = False
        while self.stack:
            if self.stack.pop()(typ, value, tb):
                typ = value = tb = None
                done = True
        return done
''',
    "operator": '''
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def floordiv(a, b): return a // b
def truediv(a, b): return a / b
def mod(a, b): return a % b
def pow(a, b): return a ** b
def lshift(a, b): return a << b
def rshift(a, b): return a >> b
def and_(a, b): return a & b
def or_(a, b): return a | b
def xor(a, b): return a ^ b
def neg(a): return -a
def not_(a): return not a
def truth(a): return bool(a)
def eq(a, b): return a == b
def ne(a, b): return a != b
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def setitem(a, b, c): a[b] = c
def delitem(a, b): del a[b]
def index(a): return a
def concat(a, b): return a + b
def iadd(a, b):
    a += b
    return a
def itemgetter(*ks):
    if len(ks) == 1:
        return lambda o: o[ks[0]]
    return lambda o: tuple([o[k] for k in ks])
def _attr(o, path):
    for p in path.split('.'):
        o = getattr(o, p)
    return o
def attrgetter(*ns):
    if len(ns) == 1:
        return lambda o: _attr(o, ns[0])
    return lambda o: tuple([_attr(o, n) for n in ns])
def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)
''',
    "collections": '''
class defaultdict:
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        self.data = dict(*a, **k)
    def __getitem__(self, k):
        if k not in self.data:
            if self.default_factory is None:
                raise KeyError(k)
            self.data[k] = self.default_factory()
        return self.data[k]
    def __setitem__(self, k, v): self.data[k] = v
    def __delitem__(self, k): del self.data[k]
    def __contains__(self, k): return k in self.data
    def __iter__(self): return iter(self.data)
    def __len__(self): return len(self.data)
    def __eq__(self, o): return self.data == (o.data if isinstance(o, defaultdict) else o)
    def get(self, k, d=None): return self.data.get(k, d)
    def keys(self): return self.data.keys()
    def values(self): return self.data.values()
    def items(self): return self.data.items()
    def pop(self, *a): return self.data.pop(*a)
    def setdefault(self, *a): return self.data.setdefault(*a)
    def update(self, *a, **k): self.data.update(*a, **k)
    def clear(self): self.data.clear()
class Counter(defaultdict):
    def __init__(self, it=()):
        self.default_factory = int
        self.data = {}
        for x in it:
            self.data[x] = self.data.get(x, 0) + 1
    def __getitem__(self, k): return self.data.get(k, 0)
class deque:
    def __init__(self, it=(), maxlen=None):
        self.maxlen = maxlen
        self.data = []
        for x in it:
            self.append(x)
    def append(self, x):
        self.data.append(x)
        if self.maxlen is not None and len(self.data) > self.maxlen:
            self.data.pop(0)
    def appendleft(self, x):
        self.data.insert(0, x)
        if self.maxlen is not None and len(self.data) > self.maxlen:
            self.data.pop()
    def extend(self, it):
        for x in it:
            self.append(x)
    def pop(self): return self.data.pop()
    def popleft(self): return self.data.pop(0)
    def clear(self): self.data.clear()
    def __len__(self): return len(self.data)
    def __iter__(self): return iter(self.data)
    def __getitem__(self, i): return self.data[i]
    def __setitem__(self, i, v): self.data[i] = v
    def __contains__(self, x): return x in self.data
    def __eq__(self, o): return isinstance(o, deque) and self.data == o.data
class ChainMap:
    def __init__(self, *maps): self.maps = list(maps) or [{}]
    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)
    def __contains__(self, k): return any([k in m for m in self.maps])
    def get(self, k, d=None): return self[k] if k in self else d
''',
    "dataclasses": '''
class Field:
    def __init__(self, default, default_factory, init, repr, compare):
        self.default, self.default_factory, self.init, self.compare = default, default_factory, init, compare
class _Missing:
    pass
MISSING = _Missing()
class FrozenInstanceError(AttributeError):
    pass
def field(*, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
    return Field(default, default_factory, init, repr, compare)
def _fields(cls):
    out = {}
    for c in reversed(cls.__mro__):
        if '__own_fields__' in c.__dict__:
            for n, f in c.__own_fields__:
                out[n] = f
    return out
def _build(cls, frozen, eq, order, init):
    own = []
    for n in cls.__dict__.get('__annotations__', {}):
        d = cls.__dict__.get(n, MISSING)
        if isinstance(d, Field):
            f = d
            if f.default is not MISSING:
                setattr(cls, n, f.default)
        else:
            f = Field(d, MISSING, True, True, True)
        own.append((n, f))
    cls.__own_fields__ = own
    fields = list(_fields(cls).items())
    names = [n for n, f in fields]
    def __init__(self, *args, **kw):
        given = dict(kw)
        pos = [n for n, f in fields if f.init]
        if len(args) > len(pos):
            raise TypeError('too many arguments')
        for n, v in zip(pos, args):
            if n in given:
                raise TypeError('multiple values for ' + n)
            given[n] = v
        for n, f in fields:
            if n in given:
                v = given.pop(n)
            elif f.default is not MISSING:
                v = f.default
            elif f.default_factory is not MISSING:
                v = f.default_factory()
            else:
                raise TypeError('missing argument ' + n)
            object.__setattr__(self, n, v)
        if given:
            raise TypeError('unexpected argument')
        if hasattr(self, '__post_init__'):
            self.__post_init__()
    def __eq__(self, o):
        if type(o) is not type(self):
            return NotImplemented
        return all([getattr(self, n) == getattr(o, n) for n, f in fields if f.compare])
    def key(o):
        return tuple([getattr(o, n) for n, f in fields if f.compare])
    def __lt__(self, o):
        return key(self) < key(o)
    def __le__(self, o):
        return key(self) <= key(o)
    def __gt__(self, o):
        return key(self) > key(o)
    def __ge__(self, o):
        return key(self) >= key(o)
    def __setattr__(self, n, v):
        raise FrozenInstanceError(n)
    if init and '__init__' not in cls.__dict__:
        cls.__init__ = __init__
    if eq and '__eq__' not in cls.__dict__:
        cls.__eq__ = __eq__
    if order:
        cls.__lt__, cls.__le__, cls.__gt__, cls.__ge__ = __lt__, __le__, __gt__, __ge__
    if frozen:
        cls.__setattr__ = __setattr__
    cls.__match_args__ = tuple(names)
    return cls
def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, **kw):
    if cls is None:
        return lambda c: _build(c, frozen, eq, order, init)
    return _build(cls, frozen, eq, order, init)
def fields(x):
    return tuple([f for n, f in _fields(x if isinstance(x, type) else type(x)).items()])
def asdict(x):
    return {n: getattr(x, n) for n in _fields(type(x))}
def astuple(x):
    return tuple([getattr(x, n) for n in _fields(type(x))])
def replace(x, **kw):
    d = asdict(x)
    d.update(kw)
    return type(x)(**d)
''',
    "functools": '''
def total_ordering(cls):
    if '__lt__' in cls.__dict__:
        if '__gt__' not in cls.__dict__: cls.__gt__ = lambda a, b: not (a < b or a == b)
        if '__le__' not in cls.__dict__: cls.__le__ = lambda a, b: a < b or a == b
        if '__ge__' not in cls.__dict__: cls.__ge__ = lambda a, b: not a < b
    return cls
def cmp_to_key(f):
    class K:
        def __init__(self, o): self.o = o
        def __lt__(self, other): return f(self.o, other.o) < 0
        def __gt__(self, other): return f(self.o, other.o) > 0
        def __eq__(self, other): return f(self.o, other.o) == 0
    return K
''',
}


def interpreted(ip, name):
    if name not in ip.prelude_ns:
        m = ModuleVal("<%s>" % name)
        env = Env(None, m, "module")
        env.vars = m.ns
        saved = ip.run, ip.lineno
        ip.run = None
        try:
            ip.exec_block(ast.parse(SRC[name]).body, env)
        finally:
            ip.run, ip.lineno = saved
        ip.prelude_ns[name] = {k: v for k, v in m.ns.items() if not k.startswith("_")}
        if name == "itertools":
            m.ns["chain"].flags["from_iterable"] = m.ns["_from_iterable"]
    return ip.prelude_ns[name]


def extend(ip, m):
    if m.name in SRC:
        m.ns.update(interpreted(ip, m.name))
    if m.name == "functools":
        for n in ("lru_cache", "cache"):
            m.ns[n] = BuiltinVal(n, lambda ip_, a, k: memo(a[0]) if a and isinstance(a[0], FuncVal)
                                 else BuiltinVal("lru_cache()", lambda i2, b, kk: memo(b[0])))
    elif m.name == "collections":
        m.ns["namedtuple"] = BuiltinVal("namedtuple", namedtuple)
        m.ns["OrderedDict"] = ip.builtins["dict"]
        abc_ = ModuleVal("collections.abc")
        abc_.opaque = True
        m.ns["abc"] = abc_
    elif m.name == "typing":
        m.ns["NamedTuple"] = named_base(ip)
        m.ns["Generic"] = ip.builtins["object"]
        m.ns["Protocol"] = ip.builtins["object"]
        m.ns["cast"] = BuiltinVal("cast", lambda ip_, a, k: a[1])
        m.ns["overload"] = BuiltinVal("overload", lambda ip_, a, k: a[0])
        m.ns["final"] = BuiltinVal("final", lambda ip_, a, k: a[0])
        m.ns["NewType"] = BuiltinVal("NewType", lambda ip_, a, k: BuiltinVal("newtype", lambda i2, b, kk: b[0]))
    elif m.name == "enum":
        m.ns.update(enum_classes(ip))


# ------------------------------------------------------------------ caches
def memo(f):
    """functools.lru_cache: the result stays in the process's memory.  A result (or its selection) that depends on
    more than the arguments is recorded as kept memory."""
    def call(ip, a, k):
        r = ip.run
        if r is None:
            return ip.call(f, a, k)
        nr, ne, nf = len(r.reads), len(r.effects), len(r.facts.order)
        v = ip.call(f, a, k)
        own = set()
        for x in list(a) + list(k.values()):
            leaves(ip.term_of(x) if not isinstance(x, (InstVal, LazyVal)) else None, own)
        dep = set()
        leaves(ip.term_of(v), dep)
        for lit, _ in r.facts.order[nf:]:
            leaves(lit, dep)
        if len(r.reads) > nr or len(r.effects) > ne or not dep <= own:
            ip.effect("pymut", obj=b, what=("cached result", ip.term_of(v)), scope="module")
        return v
    b = BuiltinVal(f.name, call)
    b.method = True
    b.wrapped = f
    b.flags["cache_clear"] = BuiltinVal("cache_clear", lambda ip, a, k: None)
    b.flags["__wrapped__"] = f
    return b


def leaves(t, acc):
    """symbols and other argument-free terms a term is made of"""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x.id in seen or x.op == "const":
            continue
        seen.add(x.id)
        subs = [y for y in x.args if isinstance(y, (Term, tuple))]
        if x.op == "sym" or not subs:
            acc.add(x.id)
        todo.extend(subs)


# ------------------------------------------------------------------ named tuples
def nt_class(ip, name, fields, defaults, ns=None, module=None):
    c = ClassVal(name, [ip.builtins["object"]], ns or {}, module)
    c.nt_fields = list(fields)
    c.birth = ip.birth()

    def make(ip_, klass, a, k):
        vals, k = list(a), dict(k)
        if len(vals) > len(fields):
            ip_.raise_("TypeError", "too many arguments")
        for f in fields[len(vals):]:
            if f in k:
                vals.append(k.pop(f))
            elif f in defaults:
                vals.append(defaults[f])
            else:
                ip_.raise_("TypeError", "missing argument " + f)
        if k:
            ip_.raise_("TypeError", "unexpected keyword")
        return NTup(vals, klass)

    def meth(n, fn):
        b = BuiltinVal(n, fn)
        b.method = True
        c.ns[n] = b
    c.ns["_fields"] = tuple(fields)
    c.ns["__match_args__"] = tuple(fields)
    meth("_asdict", lambda ip_, a, k: DictVal(zip(fields, a[0]), ip_.birth()))

    def replace(ip_, a, k):
        if set(k) - set(fields):
            ip_.raise_("ValueError", "unexpected field")
        return NTup([k.get(f, v) for f, v in zip(fields, a[0])], a[0].cls)
    meth("_replace", replace)
    c.ns["_make"] = ClassMethodVal(BuiltinVal("_make", lambda ip_, a, k: make(ip_, a[0], ip_.iterate(a[1]), {})))
    c.nt_make = make
    return c


def namedtuple(ip, a, k):
    f = N(a[1])
    f = f.replace(",", " ").split() if isinstance(f, str) else [N(x) for x in ip.iterate(f)]
    d = list(ip.iterate(k["defaults"])) if k.get("defaults") is not None else []
    return nt_class(ip, N(a[0]), f, dict(zip(f[len(f) - len(d):], d)))


def named_base(ip):
    if "NamedTuple" not in ip.prelude_ns:
        c = ClassVal("NamedTuple", [ip.builtins["object"]], {})

        def build(ip_, cls):
            ann = cls.ns.get("__annotations__")
            names = [N(k) for k, _ in ann.pairs] if ann is not None else []
            d = {n: cls.ns.pop(n) for n in names if n in cls.ns}
            own = {k: v for k, v in cls.ns.items()}
            new = nt_class(ip_, cls.name, names, d, own, cls.module)
            return new
        c.on_subclass = build
        c.factory = lambda ip_, a, k: nt_class(ip_, N(a[0]), [N(ip_.iterate(x)[0]) for x in ip_.iterate(a[1])], {})
        ip.prelude_ns["NamedTuple"] = c
    return ip.prelude_ns["NamedTuple"]


# ------------------------------------------------------------------ enumerations
def enum_classes(ip):
    if "enum" in ip.prelude_ns:
        return ip.prelude_ns["enum"]
    obj = ip.builtins["object"]
    base = ClassVal("Enum", [obj], {})
    autov = InstVal(ClassVal("auto", [obj], {}))

    def build(ip_, cls):
        kind = next((t for b in cls.mro for t, n in (("int", "IntEnum"), ("int", "IntFlag"), ("str", "StrEnum"))
                     if b.name == n), getattr(cls, "plain", None))
        members, last = [], 0
        for k, v in list(cls.ns.items()):
            if k.startswith("_") or isinstance(v, (FuncVal, BuiltinVal, PropertyVal, StaticVal, ClassMethodVal, ClassVal)):
                continue
            if v is autov:
                v = k.lower() if kind == "str" else last + 1
            if isinstance(N(v), int):
                last = N(v)
            same = next((m for _, m in members if ip_.same_now(value(m), v)), None)
            if same is not None:
                cls.ns[k] = same
                continue
            if kind == "int":
                m = EnumInt(N(v), k, cls)
            elif kind == "str":
                m = EnumStr(N(v), k, cls)
            else:
                m = InstVal(cls, ip_.birth())
                m.attrs.update({"name": k, "value": v, "_name_": k, "_value_": v})
                init, _ = cls.lookup("__init__")
                if isinstance(init, FuncVal):
                    ip_.call(init, [m] + (list(v) if isinstance(v, tuple) else [v]))
            cls.ns[k] = m
            members.append((k, m))
        cls.ns["__members__"] = DictVal(members)

        def lookup(ip2, a, kw):
            for _, m in members:
                if m is a[0]:
                    return m
            for _, m in members:
                if ip2.truth(ip2.eq_vals(value(m), a[0])):
                    return m
            ip2.raise_("ValueError", "not a member")
        if members:
            cls.factory = lookup
        return cls

    def value(m):
        return m.attrs["value"] if isinstance(m, InstVal) else (int(m) if isinstance(m, int) else str.__str__(m))
    base.on_subclass = build
    out = {"Enum": base, "auto": BuiltinVal("auto", lambda ip_, a, k: autov),
           "unique": BuiltinVal("unique", lambda ip_, a, k: a[0])}
    for n in ("IntEnum", "IntFlag", "Flag", "StrEnum"):
        out[n] = ClassVal(n, [base], {})
        out[n].on_subclass = build
    ip.prelude_ns["enum"] = out
    return out
