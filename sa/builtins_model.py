"""Transfer functions for Python builtins and the few standard-library helpers contracts use."""
import ast
import codecs

from .terms import *
from .values import *

EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "SystemExit": "BaseException",
    "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "EOFError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "MemoryError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception", "SyntaxError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "JSONDecodeError": "ValueError", "Warning": "Exception", "PermissionError": "OSError",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError", "NotADirectoryError": "OSError",
    "IsADirectoryError": "OSError", "TimeoutError": "OSError",
}


OBJECT_METHODS = {}      # methods of `object` that only an explicit object.m(...) or super().m(...) reaches


def exc_repr(ip, e):
    a = e.attrs.get("args", ())
    if e.attrs.get("implicit"):
        return mk("exctext", (e.cls.name, ip.term_of(tuple(a))), "str", True)
    if len(a) >= 1:
        return ip.to_str(a[0])
    return ""


def make(ip):
    B = {}
    obj = ClassVal("object", [], {})
    B["object"] = obj

    def fn(name):
        def deco(f):
            B[name] = BuiltinVal(name, f)
            return f
        return deco

    for name, parent in EXC_TREE.items():
        B[name] = ClassVal(name, [B[parent]] if parent else [obj], {})
    B["IOError"] = B["EnvironmentError"] = B["OSError"]

    def exc_init(ip_, a, k):
        a[0].attrs["args"] = tuple(a[1:])

    bi = BuiltinVal("BaseException.__init__", exc_init)
    bi.method = True
    B["BaseException"].ns["__init__"] = bi
    bs = BuiltinVal("BaseException.__str__", lambda ip_, a, k: exc_repr(ip_, a[0]))
    bs.method = True
    B["BaseException"].ns["__str__"] = bs

    def typ(name, f):
        B[name] = BuiltinVal(name, f, typename=name)

    # ---- type constructors
    def f_int(ip, a, k):
        if not a:
            return 0
        x = N(a[0])
        if isinstance(x, (int, float, str, bytes)) and all(isinstance(y, int) for y in a[1:]):
            try:
                return int(x, *a[1:])
            except (ValueError, TypeError) as e:
                ip.raise_(type(e).__name__, str(e))
        if isinstance(x, Term):
            if x.ty == "int":
                return x
            if x.ty == "bool":
                return mk("int_of", (x,), "int", True)
            ip.may_raise("int", "ValueError", x)
            return mk("int_of", (x,) + tuple(T(y) for y in a[1:]), "int", True)
        ip.raise_("TypeError", "int()")
    typ("int", f_int)

    def f_bool(ip, a, k):
        if not a:
            return False
        x = N(a[0])
        if isinstance(x, Term):
            return ip.truth_lit(x)
        return ip.truth(x)
    typ("bool", f_bool)

    def f_str(ip, a, k):
        if not a:
            return ""
        x = N(a[0])
        if isinstance(x, InstVal) and x.cls.has("__str__"):
            return ip.call(ip.getattr(x, "__str__"), [])
        if len(a) > 1 or k:
            if isinstance(x, bytes):
                return x.decode(N(a[1]) if len(a) > 1 else N(k.get("encoding", "utf-8")))
            if isinstance(x, Term):
                return decode(ip, x, a[1:], k)
        return ip.to_str(x)
    typ("str", f_str)

    def f_bytes(ip, a, k):
        if not a:
            return b""
        x = N(a[0])
        if isinstance(x, bytes):
            return x
        if isinstance(x, int) and x < 10 ** 6:
            return bytes(x)
        if isinstance(x, str) and (len(a) > 1 or k):
            return x.encode(N(a[1]) if len(a) > 1 else N(k.get("encoding", "utf-8")))
        if isinstance(x, Term) and (len(a) > 1 or k):
            return encode(ip, x, a[1:], k)
        if isinstance(x, (ListVal, LazyVal, range, tuple)):
            x = ListVal(ip.iterate(x))
            if all(isinstance(N(y), int) for y in x.items):
                try:
                    return bytes([N(y) for y in x.items])
                except ValueError as e:
                    ip.raise_("ValueError", str(e))
            a = [x]
        if isinstance(x, Term) and x.ty == "bytes":
            return x
        return mk("bytes_of", tuple(ip.term_of(y) for y in a), "bytes", True)
    typ("bytes", f_bytes)
    typ("bytearray", f_bytes)
    typ("memoryview", f_bytes)

    def f_float(ip, a, k):
        x = N(a[0]) if a else 0.0
        if isinstance(x, (int, float, str)):
            return float(x)
        return mk("float_of", (ip.term_of(x),), "float", True)
    typ("float", f_float)

    def f_list(ip, a, k):
        ip.set_order(N(a[0]) if a else None)
        return ListVal(ip.iterate(a[0]) if a else [], ip.birth())
    typ("list", f_list)
    typ("tuple", lambda ip, a, k: (ip.set_order(N(a[0])), tuple(ip.iterate(a[0])))[1] if a else ())

    def f_set(ip, a, k):
        return ip.new_set(ip.iterate(a[0]) if a else [])
    typ("set", f_set)
    typ("frozenset", f_set)

    def f_dict(ip, a, k):
        d = DictVal((), ip.birth())
        if a:
            src = a[0]
            if isinstance(src, DictVal):
                for kk, v in src.pairs:
                    ip.dict_set(d, kk, v)
            else:
                for p in ip.iterate(src):
                    kk, v = ip.iterate(p, want=2)
                    ip.dict_set(d, kk, v)
        for kk, v in k.items():
            ip.dict_set(d, kk, v)
        return d
    typ("dict", f_dict)

    tcls = ClassVal("type", [obj], {})

    def f_type(ip, a, k):
        if len(a) == 1:
            x = N(a[0])
            if isinstance(x, (NTup, EnumInt, EnumStr)):
                return x.cls
            if isinstance(x, InstVal):
                return x.cls
            if isinstance(x, ClassVal):
                return tcls
            if isinstance(x, Term):
                m = {"int": "int", "bool": "bool", "str": "str", "bytes": "bytes", "float": "float"}
                if x.ty in m:
                    return B[m[x.ty]]
                if x.ty == "addr":
                    return ip.icon["Address"]
                return mk("typeof", (x,), "any", True)
            for n, t in (("bool", bool), ("int", int), ("str", str), ("bytes", bytes), ("float", float), ("tuple", tuple)):
                if type(x) is t:
                    return B[n]
            for n, t in (("list", ListVal), ("dict", DictVal), ("set", SetVal)):
                if isinstance(x, t):
                    return B[n]
            return OpaqueVal("type")
        name, bases, ns = a
        c = ClassVal(name, list(bases), {kk: v for kk, v in ns.pairs}, None)
        c.birth = ip.birth()
        return c
    tcls.factory = f_type
    B["type"] = tcls

    def f_range(ip, a, k):
        a = [N(x) for x in a]
        if all(isinstance(x, int) for x in a):
            try:
                return range(*a)
            except (ValueError, TypeError) as e:
                ip.raise_(type(e).__name__)
        # symbolic bound: partition on small lengths
        if len(a) == 1:
            n = ip.choose_len(a[0], neg=True)
            return range(n)
        if len(a) == 2 and isinstance(a[0], int):
            n = ip.choose_len(sub(a[1], a[0]), neg=True)
            return range(a[0], a[0] + n)
        ip.unsupported("symbolic range")
    typ("range", f_range)

    # ---- functions
    @fn("len")
    def f_len(ip, a, k):
        x = N(a[0])
        if isinstance(x, (str, bytes, tuple, range)):
            return len(x)
        if isinstance(x, ListVal):
            return len(x.items)
        if isinstance(x, SetVal):
            return ip.set_len(x)
        if isinstance(x, DictVal):
            return len(x.pairs)
        if isinstance(x, DbObj) and x.kind == "array":
            return ip.icon_mod.arr_len(ip, x)
        if isinstance(x, InstVal) and x.cls.has("__len__"):
            return ip.call(ip.getattr(x, "__len__"), [])
        if isinstance(x, Term):
            ip.assume_nonnull(x, "TypeError")
            return mk("len", (x,), "int", True)
        ip.raise_("TypeError", "len")

    @fn("isinstance")
    def f_isinstance(ip, a, k):
        x, t = N(a[0]), a[1]
        ts = list(t) if isinstance(t, tuple) else [t]
        lits = []
        for c in ts:
            r = isinst(ip, x, c)
            if r is True:
                return True
            if isinstance(r, Term):
                lits.append(r)
        if len(lits) == 1:
            return lits[0]
        for l in lits:
            if ip.choose(l):
                return True
        return False

    @fn("issubclass")
    def f_issubclass(ip, a, k):
        ts = list(a[1]) if isinstance(a[1], tuple) else [a[1]]
        x = a[0]
        if isinstance(x, BuiltinVal) and x.typename:
            names = {x.typename, "object"} | ({"int"} if x.typename == "bool" else set())
        elif isinstance(x, ClassVal):
            names = None
        elif x is None or isinstance(x, (Term, Obj) + SCALARS) and not isinstance(x, OpaqueVal):
            ip.raise_("TypeError", "issubclass() arg 1 must be a class")
        else:
            ip.unsupported("issubclass")
        return any((x.is_sub(c) or c.name == "object") if names is None and isinstance(c, ClassVal) else
                   (names is not None and (getattr(c, "typename", None) or getattr(c, "name", "")) in names) for c in ts)

    @fn("callable")
    def f_callable(ip, a, k):
        return isinstance(a[0], (FuncVal, BuiltinVal, BoundVal, ClassVal)) or \
            (isinstance(a[0], InstVal) and a[0].cls.has("__call__"))

    @fn("hasattr")
    def f_hasattr(ip, a, k):
        try:
            ip.getattr(a[0], a[1])
            return True
        except AbsRaise as e:
            if e.exc.cls.name == "AttributeError":
                return False
            raise

    @fn("getattr")
    def f_getattr(ip, a, k):
        if len(a) == 2:
            return ip.getattr(a[0], a[1])
        try:
            return ip.getattr(a[0], a[1])
        except AbsRaise as e:
            if e.exc.cls.name == "AttributeError":
                return a[2]
            raise

    @fn("setattr")
    def f_setattr(ip, a, k):
        ip.setattr(a[0], a[1], a[2])

    @fn("dir")
    def f_dir(ip, a, k):
        o = a[0]
        if isinstance(o, InstVal):
            names = set(o.attrs)
            o = o.cls
        else:
            names = set()
        if isinstance(o, ClassVal):
            for c in o.mro:
                names.update(x for x in c.ns if isinstance(x, str))
        return ListVal(sorted(names), ip.birth())

    @fn("vars")
    def f_vars(ip, a, k):
        return ip.getattr(a[0], "__dict__")

    @fn("map")
    def f_map(ip, a, k):
        f, seqs = a[0], [ip.pyiter(s) for s in a[1:]]
        return ip.lazy((ip.call(f, list(x)) for x in zip(*seqs)), *a[1:])

    @fn("filter")
    def f_filter(ip, a, k):
        f, it = a[0], ip.pyiter(a[1])
        return ip.lazy((x for x in it if ip.truth(x if f is None else ip.call(f, [x]))), a[1])

    @fn("zip")
    def f_zip(ip, a, k):
        its = [ip.pyiter(s) for s in a]

        def strict():
            while True:
                row = [next(i, END) for i in its]
                if all(x is END for x in row):
                    return
                if any(x is END for x in row):
                    ip.raise_("ValueError", "zip")
                yield tuple(row)
        return ip.lazy(strict() if k.get("strict") else (tuple(x) for x in zip(*its)), *a)

    @fn("enumerate")
    def f_enumerate(ip, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        it = ip.pyiter(a[0])
        return ip.lazy(((add(start, i), x) for i, x in enumerate(it)), a[0])

    @fn("reversed")
    def f_reversed(ip, a, k):
        x = N(a[0])
        if isinstance(x, InstVal) and x.cls.has("__reversed__"):
            return ip.call(ip.getattr(x, "__reversed__"), [])
        if isinstance(x, (LazyVal, SetVal)):
            ip.raise_("TypeError", "not reversible")
        if isinstance(x, InstVal) and x.cls.has("__len__") and x.cls.has("__getitem__"):
            n = N(ip.call(ip.getattr(x, "__len__"), []))
            n = ip.choose_len(n) if isinstance(n, Term) else n
            return ip.lazy(ip.getitem(x, i) for i in range(n - 1, -1, -1))
        return ip.lazy(reversed(ip.iterate(x)), x)

    @fn("any")
    def f_any(ip, a, k):
        return any(ip.truth(x) for x in ip.pyiter(a[0]))

    @fn("all")
    def f_all(ip, a, k):
        return all(ip.truth(x) for x in ip.pyiter(a[0]))

    @fn("sum")
    def f_sum(ip, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in ip.iterate(a[0]):
            r = ip.binop(ast.Add(), r, x)
        return r

    def minmax(ip, a, k, lo):
        items = ip.iterate(a[0]) if len(a) == 1 else list(a)
        key = k.get("key")
        if not items:
            if "default" in k:
                return k["default"]
            ip.raise_("ValueError", "empty")
        best = items[0]
        for x in items[1:]:
            p, q = (x, best) if key is None else (ip.call(key, [x]), ip.call(key, [best]))
            c = ip.compare(ast.Lt() if lo else ast.Gt(), p, q)
            if ip.merge and isinstance(c, Term) and isinstance(best, SCALARS + (Term,)):
                best = ite(c, x, best)
            elif ip.truth(c):
                best = x
        return best

    B["min"] = BuiltinVal("min", lambda ip, a, k: minmax(ip, a, k, True))
    B["max"] = BuiltinVal("max", lambda ip, a, k: minmax(ip, a, k, False))

    @fn("abs")
    def f_abs(ip, a, k):
        x = N(a[0])
        if isinstance(x, (int, float)):
            return abs(x)
        return x if ip.truth(ge(x, 0)) else neg(x)

    @fn("pow")
    def f_pow(ip, a, k):
        if len(a) == 2:
            return ip.binop(ast.Pow(), a[0], a[1])
        a = [N(x) for x in a]
        if all(isinstance(x, int) for x in a) and a[2]:
            return pow(*a)
        return mk("powmod", tuple(T(x) for x in a), "int", True)

    @fn("divmod")
    def f_divmod(ip, a, k):
        return (ip.binop(ast.FloorDiv(), a[0], a[1]), ip.binop(ast.Mod(), a[0], a[1]))

    @fn("round")
    def f_round(ip, a, k):
        x = N(a[0])
        if isinstance(x, int):
            return x
        if isinstance(x, float):
            return round(x, *a[1:])
        return mk("round", (ip.term_of(x),), "any", True)

    @fn("sorted")
    def f_sorted(ip, a, k):
        items = ip.iterate(a[0])
        key = k.get("key")
        desc = ip.truth(k.get("reverse", False))
        ks = [N(x) if key is None else N(ip.call(key, [x])) for x in items]
        if all(not isinstance(x, (Term, Obj)) and not (isinstance(x, tuple) and any(
                isinstance(N(y), (Term, Obj, tuple)) for y in x)) for x in ks):
            try:
                idx = sorted(range(len(items)), key=lambda i: tuple(N(y) for y in ks[i]) if isinstance(ks[i], tuple) else ks[i],
                             reverse=desc)
            except TypeError as e:
                ip.raise_("TypeError", str(e))
            return ListVal([items[i] for i in idx], ip.birth())
        if len(items) <= 1:
            return ListVal(items, ip.birth())
        if ip.run is None or ip.merge or len(items) > 5:
            ip.unsupported("sort of symbolic values")
        out = []                       # stable insertion, one partition per order
        for i in range(len(items)):
            j = len(out)
            while j > 0 and ip.truth(ip.compare(ast.Gt() if desc else ast.Lt(), ks[i], ks[out[j - 1]])):
                j -= 1
            out.insert(j, i)
        return ListVal([items[i] for i in out], ip.birth())

    @fn("iter")
    def f_iter(ip, a, k):
        x = N(a[0])
        if len(a) > 1:
            def until():
                while True:
                    v = ip.call(x, [])
                    if ip.truth(ip.eq_vals(v, a[1])):
                        return
                    yield v
            return ip.lazy(until())
        if isinstance(x, LazyVal):
            return x
        if isinstance(x, InstVal) and x.cls.has("__iter__"):
            return ip.call(ip.getattr(x, "__iter__"), [])
        return ip.lazy(ip.pyiter(x), x)

    @fn("next")
    def f_next(ip, a, k):
        it = a[0]
        if isinstance(it, InstVal) and it.cls.has("__next__"):
            try:
                return ip.call(ip.getattr(it, "__next__"), [])
            except AbsRaise as e:
                if e.exc.cls.name == "StopIteration" and len(a) > 1:
                    return a[1]
                raise
        if isinstance(it, LazyVal):
            ip.set_order(it)
            v = it.next(ip)
            if v is not END:
                return v
            if len(a) > 1:
                return a[1]
            ip.raise_("StopIteration", it.ret)
        if isinstance(it, OpaqueVal):
            return OpaqueVal("next(%s)" % it.name)
        ip.raise_("TypeError", "not an iterator")

    @fn("print")
    def f_print(ip, a, k):
        return None

    @fn("repr")
    def f_repr(ip, a, k):
        x = N(a[0])
        if isinstance(x, InstVal) and x.cls.has("__repr__"):
            return ip.call(ip.getattr(x, "__repr__"), [])
        if isinstance(x, SCALARS):
            return repr(x)
        return mk("repr", (ip.term_of(x),), "str", True)

    @fn("format")
    def f_format(ip, a, k):
        a = [N(x) for x in a]
        if all(isinstance(x, SCALARS) for x in a):
            try:
                return format(*a)
            except (TypeError, ValueError) as e:
                ip.raise_(type(e).__name__, str(e))
        return mk("fmt", tuple(ip.term_of(x) for x in a), "str", True)

    B["hex"] = BuiltinVal("hex", lambda ip, a, k: hex(a[0]) if isinstance(N(a[0]), int) else mk("hex", (T(a[0]),), "str", True))
    B["bin"] = BuiltinVal("bin", lambda ip, a, k: bin(a[0]) if isinstance(N(a[0]), int) else mk("bin", (T(a[0]),), "str", True))
    B["chr"] = BuiltinVal("chr", lambda ip, a, k: chr(a[0]) if isinstance(N(a[0]), int) else mk("chr", (T(a[0]),), "str", True))
    B["ord"] = BuiltinVal("ord", lambda ip, a, k: ord(a[0]) if isinstance(N(a[0]), (str, bytes)) else mk("ord", (T(a[0]),), "int", True))
    B["id"] = BuiltinVal("id", lambda ip, a, k: mk("id", (ip.term_of(a[0]),), "int", True))
    B["hash"] = BuiltinVal("hash", lambda ip, a, k: mk("hash", (ip.term_of(a[0]),), "int", True))
    for name in ("open", "eval", "exec", "input", "globals", "locals", "compile", "__import__"):
        def op(ip, a, k, name=name):
            ip.effect("forbidden", name=name)
            return OpaqueVal(name)
        B[name] = BuiltinVal(name, op)

    @fn("ascii")
    def f_ascii(ip, a, k):
        return ascii(a[0]) if isinstance(N(a[0]), SCALARS) else mk("repr", (ip.term_of(a[0]),), "str", True)

    @fn("delattr")
    def f_delattr(ip, a, k):
        ip.delattr(a[0], a[1])

    @fn("slice")
    def f_slice(ip, a, k):
        return ("__slice__",) + ((None,) + tuple(a) + (None,) if len(a) == 1 else tuple(a) + (None,) * (3 - len(a)))

    B["staticmethod"] = BuiltinVal("staticmethod", lambda ip, a, k: StaticVal(a[0]))
    B["classmethod"] = BuiltinVal("classmethod", lambda ip, a, k: ClassMethodVal(a[0]))
    B["property"] = BuiltinVal("property", lambda ip, a, k: PropertyVal(*((a + [k[x] for x in ("fget", "fset") if x in k])[:2])))
    B["super"] = BuiltinVal("super", lambda ip, a, k: SuperVal(a[0], a[1]))
    B["NotImplemented"] = OpaqueVal("NotImplemented")
    B["Ellipsis"] = OpaqueVal("Ellipsis")
    B["__name__"] = "__module__"
    B["__debug__"] = True
    sa_ = BuiltinVal("object.__setattr__", lambda ip, a, k: ip.setattr(a[0], a[1], a[2], raw=True))
    ga_ = BuiltinVal("object.__getattribute__", lambda ip, a, k: ip.inst_getattr(a[0], a[1], default_lookup=False))
    OBJECT_METHODS.update({"__setattr__": sa_, "__getattribute__": ga_,
                           "__new__": BuiltinVal("object.__new__", lambda ip, a, k: InstVal(a[0], ip.birth())),
                           "__repr__": BuiltinVal("object.__repr__", lambda ip, a, k: mk("repr", (ip.term_of(a[0]),), "str", True)),
                           "__eq__": BuiltinVal("object.__eq__", lambda ip, a, k: a[0] is a[1]),
                           "__delattr__": BuiltinVal("object.__delattr__", lambda ip, a, k: ip.delattr(a[0], a[1], raw=True)),
                           "__init_subclass__": BuiltinVal("object.__init_subclass__", lambda ip, a, k: None)})
    ni = BuiltinVal("object.__init__", lambda ip, a, k: None)
    ni.method = True
    obj.ns["__init__"] = ni
    return B


def isinst(ip, x, c):
    if isinstance(x, (NTup, EnumInt, EnumStr)) and isinstance(c, ClassVal):
        return x.cls.is_sub(c)
    if isinstance(c, tuple):
        return any(ip.truth(isinst(ip, x, y)) for y in c)
    if isinstance(c, ClassVal):
        if isinstance(x, InstVal):
            return x.cls.is_sub(c)
        if isinstance(x, ClassVal):
            return c.name in ("type", "object")
        if c.name == "Address":
            if isinstance(x, Term):
                if x.ty == "addr":
                    return notl(eq(x, None))
                if x.ty in ("int", "bool", "str", "bytes"):
                    return False
                return mk("isinstance", (x, "Address"), "bool", True)
            return False
        if isinstance(x, DbObj):
            return {"var": "VarDB", "dict": "DictDB", "array": "ArrayDB"}[x.kind] == c.name
        if isinstance(x, ProxyVal):
            return x.cls.is_sub(c)
        if c.name == "object":
            return True
        return False
    if isinstance(c, BuiltinVal) and c.typename:
        n = c.typename
        if isinstance(x, Term):
            if x.ty == n or (x.ty == "bool" and n == "int"):
                if x.nonnull:
                    return True
                return notl(eq(x, None))
            if x.ty in ("int", "bool", "str", "bytes", "addr", "float"):
                return False
            return mk("isinstance", (x, n), "bool", True)
        nat = {"int": int, "str": str, "bytes": bytes, "bool": bool, "float": float, "tuple": tuple}
        if n in nat:
            return isinstance(x, nat[n])
        if n == "list":
            return isinstance(x, ListVal)
        if n == "dict":
            return isinstance(x, DictVal)
        if n in ("set", "frozenset"):
            return isinstance(x, SetVal)
        return False
    if isinstance(c, OpaqueVal):
        return mk("isinstance", (ip.term_of(x), c.name), "bool", True)
    return False


def codec(ip, a, k):
    """canonical name of the codec"""
    enc = N(a[0]) if a else N(k.get("encoding", "utf-8"))
    if not isinstance(enc, str):
        raise Unsupported("codec that is not a constant")
    try:
        return codecs.lookup(enc).name
    except LookupError:
        ip.raise_("LookupError", "unknown encoding: " + enc)


def decode(ip, x, a, k):
    enc = codec(ip, a, k)
    errors = N(a[1]) if len(a) > 1 else N(k.get("errors", "strict"))
    ip.assume_nonnull(x)
    if isinstance(x, Term) and x.op == "encode" and x.args[1] == enc:
        return N(x.args[0])
    if errors != "strict":
        # never fails; another function of the bytes
        return mk("decode", (T(x), "%s/%s" % (enc, errors)), "str", True)
    ip.may_raise("decode", "UnicodeDecodeError", x)
    return mk("decode", (T(x), enc), "str", True)


def encode(ip, x, a, k):
    enc = codec(ip, a, k)
    return mk("encode", (T(x), enc), "bytes", True)


PURE_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "join", "format", "hex", "zfill",
            "capitalize", "ljust", "rjust", "casefold", "swapcase"}
BOOL_STR = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isnumeric", "isspace", "isdecimal"}


def value_getattr(ip, o, name):
    """attributes of native values, containers and symbolic terms"""
    o = N(o)
    if isinstance(o, LazyVal):
        return BuiltinVal("iterator." + name, lambda ip_, a, k: iter_method(ip_, o, name, a, k))
    if isinstance(o, ListVal):
        return BuiltinVal("list." + name, lambda ip_, a, k: list_method(ip_, o, name, a, k))
    if isinstance(o, DictVal):
        return BuiltinVal("dict." + name, lambda ip_, a, k: dict_method(ip_, o, name, a, k))
    if isinstance(o, SetVal):
        return BuiltinVal("set." + name, lambda ip_, a, k: set_method(ip_, o, name, a, k))
    if isinstance(o, (DbObj, DbVal, ProxyVal)):
        return ip.icon_mod.icon_getattr(ip, o, name)
    if isinstance(o, (str, bytes)):
        if not hasattr(o, name):
            ip.raise_("AttributeError", name)
        return BuiltinVal("str." + name, lambda ip_, a, k: str_method(ip_, o, name, a, k))
    if isinstance(o, (bool, int, float)):
        if not hasattr(o, name):
            ip.raise_("AttributeError", name)

        def im(ip_, a, k):
            if all(isinstance(N(x), SCALARS) for x in a):
                try:
                    return getattr(o, name)(*[N(x) for x in a], **{q: N(v) for q, v in k.items()})
                except (TypeError, ValueError, OverflowError) as e:
                    ip_.raise_(type(e).__name__)
            return mk("m:" + name, (T(o),) + tuple(ip_.term_of(x) for x in a), "any")
        return BuiltinVal("int." + name, im)
    if isinstance(o, tuple):
        def tm(ip_, a, k):
            l = ListVal(o)
            return list_method(ip_, l, name, a, k)
        return BuiltinVal("tuple." + name, tm)
    if isinstance(o, range):
        return getattr(o, name)
    if isinstance(o, Term):
        return term_getattr(ip, o, name)
    ip.unsupported("attribute %s of %r" % (name, o))


def term_getattr(ip, o, name):
    ip.assume_nonnull(o)
    r = ip.icon_mod.term_attr(ip, o, name)
    if r is not NotImplemented:
        return r

    def meth(ip_, a, k):
        if name == "split" and len(a) >= 1 and isinstance(N(a[0]), (str, bytes)):
            ip_.may_raise("split", "AttributeError", o)
            return ip_.split_model(o, N(a[0]))
        if name == "decode":
            return decode(ip_, o, a, k)
        if name == "encode":
            return encode(ip_, o, a, k)
        if name == "join":
            return join(ip_, o, a[0])
        if name in ("get",) and o.ty == "any":
            lit = mk("jhas", (o, T(a[0])), "bool", True)
            ip_.may_raise("get", "AttributeError", o)
            if ip_.choose(lit):
                return mk("jget", (o, T(a[0])), "any")
            return a[1] if len(a) > 1 else None
        if name in ("keys", "items", "values") and o.ty == "any":
            ip_.may_raise(name, "AttributeError", o)
            return mk("m:" + name, (o,), "any", True)
        if name in BOOL_STR:
            return mk("m:" + name, (o,) + tuple(ip_.term_of(x) for x in a), "bool", True)
        ty = o.ty if name in PURE_STR and o.ty in ("str", "bytes") else "any"
        if name in ("strip", "lower", "upper", "replace"):
            ip_.may_raise(name, "AttributeError", o) if o.ty == "any" else None
            ty = "bytes" if o.ty == "bytes" else "str"
            if name == "strip" and not a:
                if o.op == "strip":
                    return o
                return mk("strip", (o,), ty, True)
        if name == "bit_length":
            ty = "int"
            if ip_.run is not None and o.ty == "int" and not ip_.merge:
                n = o if ip_.choose(ge(o, 0)) else neg(o)
                lo, hi = 0, 512           # 2^(k-1) <= n < 2^k
                if ip_.choose(lt(n, 1 << hi)):
                    while lo < hi:
                        mid = (lo + hi) // 2
                        if ip_.choose(lt(n, 1 << mid)):
                            hi = mid
                        else:
                            lo = mid + 1
                    return lo
        if name == "hex":
            ty = "str"
        return mk("m:" + name, (o,) + tuple(ip_.term_of(x) for x in a) + tuple(
            mk("kw", (q, ip_.term_of(v))) for q, v in sorted(k.items())), ty, name in PURE_STR)
    return BuiltinVal("term." + name, meth)


def join(ip, sep, seq):
    items = [N(x) for x in ip.iterate(seq)]
    parts = []
    for i, x in enumerate(items):
        if i:
            parts.append(sep)
        parts.append(x)
    ip.set_order(seq)
    for x in parts:
        if not isinstance(x, (str, bytes, Term)):
            ip.raise_("TypeError", "join")
    if not parts:
        return b"" if isinstance(sep, bytes) else ""
    return ip.concat(parts)


def str_method(ip, o, name, a, k):
    a = [N(x) for x in a]
    k = {q: N(v) for q, v in k.items()}
    if name == "join":
        return join(ip, o, a[0])
    if name == "format":
        if all(isinstance(x, SCALARS) for x in a) and all(isinstance(x, SCALARS) for x in k.values()):
            return o.format(*a, **k)
        return mk("fstr", (T(o),) + tuple(ip.term_of(x) for x in a) +
                  tuple(mk("kw", (q, ip.term_of(v))) for q, v in sorted(k.items())), "str", True)
    if all(isinstance(x, SCALARS) or (isinstance(x, tuple) and all(isinstance(y, SCALARS) for y in x)) for x in a) \
            and all(isinstance(x, SCALARS) for x in k.values()):
        try:
            r = getattr(o, name)(*a, **k)
        except Exception as e:
            ip.raise_(type(e).__name__ if type(e).__name__ in ip.builtins else "ValueError", str(e))
        if isinstance(r, list):
            return ListVal(r, ip.birth())
        return r
    return mk("m:" + name, (T(o),) + tuple(ip.term_of(x) for x in a), "any", True)


def iter_method(ip, o, name, a, k):
    if name == "__iter__":
        return o
    if name == "__next__":
        return ip.call(ip.builtins["next"], [o])
    if isinstance(o, GenVal):
        if name == "close":
            return o.close(ip)
        if name == "send":
            v = o.send(ip, a[0])
        elif name == "throw":
            e = a[0] if len(a) == 1 or a[1] is None else a[1]
            if isinstance(e, ClassVal):
                e = ip.call(e, [])
            v = o.throw(ip, AbsRaise(e, ip.where()))
        else:
            ip.raise_("AttributeError", "generator." + name)
        if v is END:
            ip.raise_("StopIteration", o.ret)
        return v
    ip.raise_("AttributeError", "iterator." + name)


def list_method(ip, o, name, a, k):
    if name == "append":
        ip.mutate(o, a[0])
        o.items.append(a[0])
    elif name == "extend":
        ip.mutate(o, a[0])
        o.items.extend(ip.iterate(a[0]))
    elif name == "insert":
        ip.mutate(o, a[1])
        o.items.insert(a[0], a[1])
    elif name == "pop":
        ip.mutate(o)
        if not o.items:
            ip.raise_("IndexError")
        a = [N(x) for x in a]
        if any(isinstance(x, Term) for x in a):
            for i in range(len(o.items)):
                if ip.choose(eq0(sub(a[0], i))):
                    return o.items.pop(i)
            ip.raise_("IndexError")
        try:
            return o.items.pop(*a)
        except IndexError:
            ip.raise_("IndexError")
    elif name == "clear":
        ip.mutate(o)
        o.items.clear()
    elif name == "copy":
        return ListVal(o.items, ip.birth())
    elif name == "reverse":
        ip.mutate(o)
        o.items.reverse()
    elif name == "index":
        for i, x in enumerate(o.items):
            if ip.truth(ip.eq_vals(x, a[0])):
                return i
        ip.raise_("ValueError")
    elif name == "count":
        n = 0
        for x in o.items:
            l = N(ip.eq_vals(x, a[0]))
            n = add(n, ite(l, 1, 0) if isinstance(l, Term) else int(bool(l)))
        return n
    elif name == "remove":
        ip.mutate(o)
        for i, x in enumerate(o.items):
            if ip.truth(ip.eq_vals(x, a[0])):
                del o.items[i]
                return None
        ip.raise_("ValueError")
    elif name == "sort":
        ip.mutate(o)
        o.items = list(ip.call(ip.builtins["sorted"], [o], k).items)
    elif name in ("__len__",):
        return len(o.items)
    elif name == "__iter__":
        return ip.call(ip.builtins["iter"], [o])
    else:
        ip.raise_("AttributeError", "list." + name)
    return None


def dict_method(ip, o, name, a, k):
    if name == "get":
        p = ip.dict_find(o, a[0])
        return p[1] if p is not None else (a[1] if len(a) > 1 else None)
    if name == "keys":
        return ViewVal([p[0] for p in o.pairs], ip.birth())
    if name == "values":
        return ListVal([p[1] for p in o.pairs], ip.birth())
    if name == "items":
        return ViewVal([tuple(p) for p in o.pairs], ip.birth())
    if name == "update":
        if a:
            if isinstance(a[0], DictVal):
                for kk, v in list(a[0].pairs):
                    ip.dict_set(o, kk, v)
            else:
                for p in ip.iterate(a[0]):
                    kk, v = ip.iterate(p, want=2)
                    ip.dict_set(o, kk, v)
        for kk, v in k.items():
            ip.dict_set(o, kk, v)
        return None
    if name == "setdefault":
        p = ip.dict_find(o, a[0])
        if p is not None:
            return p[1]
        v = a[1] if len(a) > 1 else None
        ip.dict_set(o, a[0], v)
        return v
    if name == "pop":
        p = ip.dict_find(o, a[0])
        if p is None:
            if len(a) > 1:
                return a[1]
            ip.raise_("KeyError", "key")
        ip.dict_remove(o, p)
        return p[1]
    if name == "copy":
        return DictVal(o.pairs, ip.birth())
    if name == "clear":
        for p in list(o.pairs):
            ip.dict_remove(o, p)
        return None
    if name == "popitem":
        if not o.pairs:
            ip.raise_("KeyError", "popitem")
        p = o.pairs[-1]
        ip.dict_remove(o, p)
        return tuple(p)
    if name == "__contains__":
        return ip.contains(o, a[0])
    if name == "__getitem__":
        return ip.getitem(o, a[0])
    ip.raise_("AttributeError", "dict." + name)


def set_method(ip, o, name, a, k):
    if name == "add":
        ip.mutate(o, a[0])
        if not any(ip.same_now(a[0], x) for x in o.items):
            o.items.append(a[0])
        return None
    if name == "update":
        for s in a:
            for x in ip.iterate(s):
                set_method(ip, o, "add", [x], {})
        return None
    if name in ("discard", "remove"):
        items = ip.resolve_set(o)
        for i, x in enumerate(items):
            if ip.truth(ip.eq_vals(x, a[0])):
                ip.mutate(o)
                del items[i]
                return None
        if name == "remove":
            ip.raise_("KeyError")
        return None
    if name == "copy":
        return SetVal(o.items, ip.birth())
    if name == "union":
        items = list(o.items)
        for s in a:
            items.extend(ip.iterate(s))
        return ip.new_set(items)
    if name == "intersection":
        return ip.set_op(ast.BitAnd(), o, SetVal(ip.iterate(a[0])))
    if name == "difference":
        return ip.set_op(ast.Sub(), o, SetVal(ip.iterate(a[0])))
    if name == "issubset":
        other = SetVal(ip.iterate(a[0]))
        return all(ip.contains(other, x) for x in ip.resolve_set(o))
    if name == "isdisjoint":
        other = SetVal(ip.iterate(a[0]))
        return not any(ip.contains(other, x) for x in ip.resolve_set(o))
    if name == "issuperset":
        return all(ip.contains(o, x) for x in ip.iterate(a[0]))
    if name == "symmetric_difference":
        return ip.set_op(ast.BitXor(), o, SetVal(ip.iterate(a[0])))
    if name in ("difference_update", "intersection_update"):
        new = ip.set_op(ast.Sub() if name[0] == "d" else ast.BitAnd(), o, SetVal(ip.iterate(a[0])))
        ip.mutate(o)
        o.items = new.items
        return None
    if name == "clear":
        ip.mutate(o)
        o.items = []
        return None
    if name == "pop":
        items = ip.resolve_set(o)
        if not items:
            ip.raise_("KeyError")
        ip.set_order(o)
        ip.mutate(o)
        return items.pop(0)
    ip.raise_("AttributeError", "set." + name)


def type_getattr(ip, f, name):
    n = f.typename
    if n == "int" and name == "from_bytes":
        def fb(ip_, a, k):
            x = N(a[0])
            order = N(a[1] if len(a) > 1 else k.get("byteorder", "big"))
            if isinstance(x, bytes):
                return int.from_bytes(x, order, signed=bool(k.get("signed", False)))
            return mk("from_bytes", (T(x), T(order)), "int", True)
        return BuiltinVal("int.from_bytes", fb)
    if n == "dict" and name == "fromkeys":
        def fk(ip_, a, k):
            d = DictVal((), ip_.birth())
            for x in ip_.iterate(a[0]):
                ip_.dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        return BuiltinVal("dict.fromkeys", fk)
    if n == "bytes" and name == "fromhex":
        return BuiltinVal("bytes.fromhex", lambda ip_, a, k: bytes.fromhex(a[0]) if isinstance(N(a[0]), str)
                          else mk("fromhex", (T(a[0]),), "bytes", True))
    # unbound method: str.strip(x)
    return BuiltinVal(n + "." + name, lambda ip_, a, k: ip_.call(ip_.getattr(a[0], name), a[1:], k))


def stdlib_module(ip, name):
    m = ModuleVal(name)
    m.opaque = True
    if name == "functools":
        def f_wraps(ip_, a, k):
            src = a[0]

            def deco(ip2, b, kk):
                g = b[0]
                if isinstance(g, FuncVal):
                    g = g.clone()
                    g.flags.update(src.flags)
                    g.name = src.name
                    g.qualname = getattr(src, "qualname", src.name)
                    g.wrapped = src
                return g
            return BuiltinVal("wraps()", deco)
        m.ns["wraps"] = BuiltinVal("wraps", f_wraps)

        def f_partial(ip_, a, k):
            return BuiltinVal("partial()", lambda ip2, b, kk: ip2.call(a[0], list(a[1:]) + b, dict(k, **kk)))
        m.ns["partial"] = BuiltinVal("partial", f_partial)

        def f_reduce(ip_, a, k):
            items = ip_.iterate(a[1])
            if len(a) < 3 and not items:
                ip_.raise_("TypeError", "reduce() of empty iterable")
            acc = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                acc = ip_.call(a[0], [acc, x])
            return acc
        m.ns["reduce"] = BuiltinVal("reduce", f_reduce)
        m.ns["lru_cache"] = BuiltinVal("lru_cache", lambda ip_, a, k: a[0] if a and isinstance(a[0], FuncVal)
                                       else BuiltinVal("lru", lambda i2, b, kk: b[0]))
        m.ns["cache"] = m.ns["lru_cache"]
        m.ns["cached_property"] = ip.builtins["property"]
    elif name == "os":
        m.ns["path"] = stdlib_module(ip, "os.path")
    elif name == "json":
        m.ns["loads"], m.ns["dumps"] = ip.icon["json_loads"], ip.icon["json_dumps"]
        m.ns["JSONDecodeError"] = ip.builtins["JSONDecodeError"]
    elif name == "typing":
        m.ns["TYPE_CHECKING"] = False
    elif name == "abc":
        for k in ("ABC", "ABCMeta", "abstractmethod"):
            m.ns[k] = ip.icon[k]
        m.ns["abstractproperty"] = ip.builtins["property"]
    elif name == "builtins":
        m.ns.update(ip.builtins)
    from . import prelude
    prelude.extend(ip, m)
    return m
