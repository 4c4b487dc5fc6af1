"""Transfer functions for the iconservice 1.1.2 API contracts are written against.

Modelled from the published semantics of the SDK: storage containers, execution context, the
decorators, inter-contract calls, ICX transfers and event logs.  Environment assumptions (listed
in DESIGN.md): a failing call aborts the transaction, read-only methods of other contracts have no
side effects, any other external call may re-enter and change every mutable storage cell.
"""
import ast
import json

from .terms import *
from .values import *

ICON_EXC = {
    "IconServiceBaseException": "BaseException", "IconTypeError": "IconServiceBaseException",
    "InvalidParamsException": "IconServiceBaseException", "MethodNotFoundException": "IconServiceBaseException",
    "ServerErrorException": "IconServiceBaseException", "ScoreErrorException": "IconServiceBaseException",
    "InvalidRequestException": "IconServiceBaseException", "DatabaseException": "IconServiceBaseException",
    "IconScoreException": "IconServiceBaseException", "RevertException": "ScoreErrorException",
    "InterfaceException": "ScoreErrorException", "EventLogException": "ScoreErrorException",
    "ContainerDBException": "ScoreErrorException", "OutOfBalanceException": "ScoreErrorException",
}

ZERO = sym("ZERO_ADDRESS", "addr", True)
SELF = sym("this", "addr", True)
SENDER = sym("msg.sender", "addr", True)
VALUE = sym("msg.value", "int", True)
TY = {"int": "int", "bool": "bool", "str": "str", "bytes": "bytes", "Address": "addr", "dict": "any", "list": "any"}


def native(ip, v):
    if isinstance(v, list):
        return ListVal([native(ip, x) for x in v], ip.birth())
    if isinstance(v, dict):
        return DictVal([(k, native(ip, x)) for k, x in v.items()], ip.birth())
    return v


def method(fn, name=""):
    b = BuiltinVal(name or fn.__name__, fn)
    b.method = True
    return b


def make(ip):
    from . import icon_model as me
    ip.icon_mod = me
    B = ip.builtins
    obj = B["object"]
    I = {}
    for name, parent in ICON_EXC.items():
        I[name] = ClassVal(name, [I.get(parent) or B[parent]], {})

    ABCc = ClassVal("ABC", [obj], {})
    I["ABC"] = ABCc
    I["ABCMeta"] = OpaqueVal("ABCMeta")

    def abstractmethod_(ip, a, k):
        a[0].flags["__isabstractmethod__"] = True
        return a[0]
    I["abstractmethod"] = BuiltinVal("abstractmethod", abstractmethod_)

    # ---- decorators
    def flagger(name, opts):
        def deco(ip, a, k):
            def mark(f):
                if isinstance(f, FuncVal):
                    if name == "external" and f.name == "fallback":
                        ip.raise_("IconScoreException", "fallback cannot be external")
                    f = f.clone()
                    f.birth = ip.birth()
                    f.flags[name] = True
                    for o, d in opts.items():
                        f.flags[name + "_" + o] = N(k.get(o, d))
                    f.flags.pop("__isabstractmethod__", None) if name == "interface" else None
                return f
            if a:
                return mark(a[0])
            return BuiltinVal(name + "()", lambda ip2, b, kk: mark(b[0]))
        return BuiltinVal(name, deco)
    I["external"] = flagger("external", {"readonly": False})
    I["payable"] = flagger("payable", {})
    I["eventlog"] = flagger("eventlog", {"indexed": 0})

    def interface_(ip, a, k):
        f = a[0]
        if isinstance(f, FuncVal):
            if f.flags.get("interface"):
                ip.raise_("IconScoreException", "can not redefine @interface")
            g = f.clone()
            g.birth = ip.birth()
            g.flags["interface"] = True
            g.wrapped = f
            return g
        return f
    I["interface"] = BuiltinVal("interface", interface_)

    from . import builtins_model
    I["wraps"] = builtins_model.stdlib_module(ip, "functools").ns["wraps"]
    I["isfunction"] = BuiltinVal("isfunction", lambda ip, a, k: isinstance(a[0], FuncVal))

    def revert_(ip, a, k):
        e = InstVal(I["RevertException"], ip.birth())
        e.attrs["args"] = tuple(a)
        raise AbsRaise(e, ip.where())
    I["revert"] = BuiltinVal("revert", revert_)

    def json_loads_(ip, a, k):
        x = N(a[0])
        if isinstance(x, (str, bytes)):
            try:
                return native(ip, json.loads(x))
            except ValueError as e:
                ip.raise_("JSONDecodeError", str(e))
        ip.may_raise("json_loads", "JSONDecodeError", ip.term_of(x))
        if isinstance(x, Term) and x.op == "json_dumps":
            return x.args[0]
        return mk("json", (ip.term_of(x),), "any")
    I["json_loads"] = BuiltinVal("json_loads", json_loads_)
    I["json_dumps"] = BuiltinVal("json_dumps",
                                 lambda ip, a, k: mk("json_dumps", (ip.term_of(a[0]),), "str", True))
    I["sha3_256"] = BuiltinVal("sha3_256", lambda ip, a, k: mk("sha3", (ip.term_of(a[0]),), "bytes", True))

    logger = ClassVal("Logger", [obj], {})
    for n in ("debug", "info", "warning", "error", "exception", "critical"):
        logger.ns[n] = StaticVal(BuiltinVal("Logger." + n, lambda ip, a, k: None))
    I["Logger"] = logger

    flag = ClassVal("IconServiceFlag", [obj], {})
    I["IconServiceFlag"] = flag

    # ---- Address
    A = ClassVal("Address", [obj], {})

    def from_string(ip, a, k):
        x = N(a[0])
        if isinstance(x, Term) and x.op == "str" and isinstance(x.args[0], Term) and x.args[0].ty == "addr":
            return x.args[0]
        if isinstance(x, Term) and x.ty == "any":
            ip.may_raise("from_string_type", "TypeError", x)
        elif not isinstance(x, (Term, str)):
            ip.raise_("TypeError", "from_string")
        ip.may_raise("from_string", "InvalidParamsException", T(x))
        return mk("from_string", (T(x),), "addr", True)
    A.ns["from_string"] = StaticVal(BuiltinVal("Address.from_string", from_string))

    def from_bytes(ip, a, k):
        x = N(a[0])
        if isinstance(x, Term) and x.op == "to_bytes":
            return x.args[0]
        ip.may_raise("from_bytes", "InvalidParamsException", T(x))
        return mk("from_bytes_addr", (T(x),), "addr", False)
    A.ns["from_bytes"] = StaticVal(BuiltinVal("Address.from_bytes", from_bytes))
    A.ns["from_data"] = StaticVal(BuiltinVal("Address.from_data", lambda ip, a, k: mk(
        "addr_from_data", tuple(ip.term_of(x) for x in a), "addr", True)))
    I["Address"] = A
    I["ZERO_SCORE_ADDRESS"] = ZERO

    # ---- database
    class_db = ClassVal("IconScoreDatabase", [obj], {})
    I["IconScoreDatabase"] = class_db
    for name, kind in (("VarDB", "var"), ("DictDB", "dict"), ("ArrayDB", "array")):
        c = ClassVal(name, [obj], {})

        def fac(ip, a, k, kind=kind):
            names = ["var_key", "db", "value_type", "depth"]
            d = dict(zip(names, a))
            d.update(k)
            vt = d["value_type"]
            vtn = getattr(vt, "typename", None) or getattr(vt, "name", str(vt))
            key = N(d["var_key"])
            if not isinstance(d["db"], DbVal):
                ip.raise_("TypeError", "db")
            o = DbObj(kind, key, d["db"].prefix, vtn, N(d.get("depth", 1)))
            o.birth = ip.birth()
            if ip.run is not None:
                ip.run.handles.append((o, ip.where()))
            return o
        c.factory = fac
        I[name] = c

    # ---- contract base class
    base = ClassVal("IconScoreBase", [obj], {})

    def prop(name, fn):
        base.ns[name] = PropertyVal(BuiltinVal(name, fn))

    MSG = ClassVal("Message", [obj], {})
    ICX = ClassVal("Icx", [obj], {})

    def msg(ip, a, k):
        m = InstVal(MSG, ip.birth())
        m.attrs = {"sender": SENDER, "value": ip.run.msg_value}
        return m
    prop("msg", msg)
    prop("address", lambda ip, a, k: SELF)
    prop("db", lambda ip, a, k: DbVal(()))
    prop("owner", lambda ip, a, k: sym("deployer", "addr", True))
    prop("block_height", lambda ip, a, k: sym("block.height", "int", True))

    def rec(name, fields):
        c = ClassVal(name, [obj], {})

        def get(ip, a, k):
            o = InstVal(c, ip.birth())
            o.attrs = {f: sym("%s.%s" % (name, f), t, True) for f, t in fields.items()}
            return o
        return get
    prop("tx", rec("tx", {"origin": "addr", "hash": "bytes", "index": "int", "timestamp": "int", "nonce": "int"}))
    prop("block", rec("block", {"height": "int", "hash": "bytes", "timestamp": "int"}))
    prop("icx", lambda ip, a, k: InstVal(ICX, ip.birth()))

    def icx_transfer(ip, a, k):
        d = dict(zip(["self", "addr_to", "amount"], a), **k)
        callee_may_fail(ip, "icx.transfer", d["addr_to"], (T(d["amount"]),))
        ip.effect("icx", to=T(d["addr_to"]), amount=T(d["amount"]), how="transfer", ok=True)
        bump(ip)
        return None

    def icx_send(ip, a, k):
        d = dict(zip(["self", "addr_to", "amount"], a), **k)
        ok = ip.choose(mk("icx_send_ok", (T(d["addr_to"]), T(d["amount"]), ip.run.epoch), "bool", True))
        ip.effect("icx", to=T(d["addr_to"]), amount=T(d["amount"]), how="send", ok=ok)
        if ok:
            bump(ip)
        return ok
    ICX.ns["transfer"] = method(icx_transfer, "icx.transfer")
    ICX.ns["send"] = method(icx_send, "icx.send")
    ICX.ns["get_balance"] = method(lambda ip, a, k: mk("icx_balance", (T(a[1]), ip.run.epoch), "int", True),
                                   "icx.get_balance")

    base.ns["__init__"] = method(lambda ip, a, k: None, "IconScoreBase.__init__")
    base.ns["on_install"] = method(lambda ip, a, k: None, "IconScoreBase.on_install")
    base.ns["on_update"] = method(lambda ip, a, k: None, "IconScoreBase.on_update")
    base.ns["on_selfdestruct"] = method(lambda ip, a, k: None, "IconScoreBase.on_selfdestruct")
    base.ns["fallback"] = method(lambda ip, a, k: None, "IconScoreBase.fallback")
    base.ns["now"] = method(lambda ip, a, k: sym("block.timestamp", "int", True), "now")
    base.ns["revert"] = method(lambda ip, a, k: revert_(ip, a[1:], k), "revert")
    base.ns["get_owner"] = method(lambda ip, a, k: mk("deployer_of", (T(a[1]) if len(a) > 1 else SELF,), "addr"),
                                  "get_owner")
    base.ns["is_score_active"] = method(lambda ip, a, k: mk("score_active", (T(a[1]),), "bool", True),
                                        "is_score_active")

    def create_interface_score(ip, a, k):
        d = dict(zip(["self", "addr_to", "interface_cls"], a), **k)
        cls = d["interface_cls"]
        if not (isinstance(cls, ClassVal) and cls.is_sub_name("InterfaceScore")):
            ip.raise_("InterfaceException", "not an interface")
        p = ProxyVal(d["addr_to"], cls)
        p.birth = ip.birth()
        return p
    base.ns["create_interface_score"] = method(create_interface_score, "create_interface_score")

    def raw_call(ip, a, k):
        d = dict(zip(["self", "addr_to", "func_name", "kw_dict", "amount"], a), **k)
        kw = {}
        src = d.get("kw_dict")
        if isinstance(src, DictVal):
            for kk, v in src.pairs:
                kw[kk] = v
        return ext_call(ip, d["addr_to"], N(d["func_name"]), [], kw, N(d.get("amount", 0)), None)
    base.ns["call"] = method(raw_call, "call")
    I["IconScoreBase"] = base
    I["IconSystemScoreBase"] = ClassVal("IconSystemScoreBase", [base], {})

    isc = ClassVal("InterfaceScore", [obj], {})
    I["InterfaceScore"] = isc
    ip.SCORE_BASE = base
    return I


# ------------------------------------------------------------------------------ storage

def default_of(vt):
    return {"int": 0, "str": "", "bool": False}.get(vt)


def fam_of(db):
    """location family and key prefix of a container handle"""
    name = db.name
    keys = tuple(T(x) for x in db.prefix)
    if not isinstance(name, str):
        keys = keys + (T(name),)
        name = "<dynamic>"
    return (db.kind, name, len(db.prefix), db.vtype), keys + tuple(T(k) for k in db.keys)


def keys_match(ip, a, b):
    """decide whether two key tuples denote the same storage slot (partitions if unknown)"""
    if len(a) != len(b):
        return False
    pend = []
    for x, y in zip(a, b):
        l = N(eq(N(x), N(y)))
        if l is False:
            return False
        if l is True:
            continue
        d = ip.run.facts.decide(l)
        if d is False:
            return False
        if d is None:
            pend.append(l)
    for l in pend:
        if not ip.choose(l):
            return False
    return True


def cell_term(fam, keys, ep):
    vt = fam[3]
    return mk("cell", (fam, keys, ep), TY.get(vt, "any"), vt in ("int", "bool", "str"))


def loc_read(ip, fam, keys):
    r = ip.run
    if r is None:
        ip.unsupported("storage read at import time")
    imm = fam[:3] in r.immutable
    ep = 0 if imm else r.epoch
    for k2, v, e in reversed(r.store.get(fam[:3], [])):
        if e < ep:
            break
        if keys_match(ip, keys, k2):
            return v
    if r.install and ep == 0:
        return default_of(fam[3])
    c = cell_term(fam, keys, ep)
    r.reads.add(c)
    return c


def loc_write(ip, fam, keys, value, op="set"):
    r = ip.run
    old = loc_read(ip, fam, keys)
    if op != "del":
        if value is None:
            ip.raise_("ContainerDBException", "None value")
        if isinstance(value, Term):
            ip.assume_nonnull(value, "ContainerDBException")
        elif not isinstance(value, SCALARS):
            ip.raise_("ContainerDBException", "value")
    ip.effect("write", fam=fam, keys=keys, value=value, old=old, op=op)
    r.store.setdefault(fam[:3], []).append((keys, value, r.epoch))


def check_key(ip, k):
    k = N(k)
    if isinstance(k, Term):
        ip.assume_nonnull(k, "ContainerDBException")
        return k
    if k is None or not isinstance(k, (int, str, bytes)):
        ip.raise_("ContainerDBException", "key")
    return k


def db_getitem(ip, db, k):
    k = N(k)
    if db.kind == "dict":
        check_key(ip, k)
        d = DbObj("dict", db.name, db.prefix, db.vtype, db.depth - 1, db.keys + (k,))
        if db.depth > 1:
            return d
        return loc_read(ip, *fam_of(d))
    if db.kind == "array":
        return arr_get(ip, db, k)
    ip.raise_("TypeError", "VarDB is not subscriptable")


def db_setitem(ip, db, k, v):
    k = N(k)
    if db.kind == "dict":
        check_key(ip, k)
        if db.depth != 1:
            ip.raise_("ContainerDBException", "depth")
        d = DbObj("dict", db.name, db.prefix, db.vtype, 0, db.keys + (k,))
        return loc_write(ip, *fam_of(d), N(v))
    if db.kind == "array":
        fam, keys = fam_of(db)
        ip.effect("arr", op="set", fam=fam, keys=keys, index=k, value=v)
        ip.run.arr.setdefault((fam, keys), []).append(("set", k, v))
        return
    ip.raise_("TypeError", "VarDB item assignment")


def db_delitem(ip, db, k):
    if db.kind != "dict":
        ip.raise_("TypeError", "del")
    check_key(ip, k)
    d = DbObj("dict", db.name, db.prefix, db.vtype, 0, db.keys + (N(k),))
    loc_write(ip, *fam_of(d), default_of(db.vtype), op="del")


def db_contains(ip, db, k):
    if db.kind == "dict":
        check_key(ip, k)
        d = DbObj("dict", db.name, db.prefix, db.vtype, 0, db.keys + (N(k),))
        fam, keys = fam_of(d)
        v = loc_read(ip, fam, keys)
        if db.vtype in ("Address", "bytes"):
            return notl(eq(v, None))
        if isinstance(v, Term) and v.op == "cell":
            return mk("present", (v,), "bool", True)
        for k2, val, e in reversed(ip.run.store.get(fam[:3], [])):
            if keys_match(ip, keys, k2):
                return val != default_of(db.vtype) if not isinstance(val, Term) else True
        return False
    if db.kind == "array":
        return mk("arr_has", (fam_of(db), ip.term_of(k), arr_stamp(ip, db)), "bool", True)
    ip.raise_("TypeError", "in VarDB")


def arr_stamp(ip, db):
    fam, keys = fam_of(db)
    return (ip.run.epoch, len(ip.run.arr.get((fam, keys), [])))


def arr_len(ip, db):
    fam, keys = fam_of(db)
    r = ip.run
    if r is None:
        ip.unsupported("array at import time")
    ep = 0 if fam[:3] in r.immutable else r.epoch
    base = 0 if (r.install and ep == 0) else mk("alen", (fam, keys, ep), "int", True)
    n = 0
    for op in r.arr.get((fam, keys), []):
        n += {"put": 1, "pop": -1}.get(op[0], 0)
    return add(base, n)


def arr_get(ip, db, k):
    fam, keys = fam_of(db)
    r = ip.run
    k = N(k)
    if not isinstance(k, (int, Term)):
        ip.raise_("TypeError", "index")
    ln = arr_len(ip, db)
    if isinstance(k, int) and k < 0:
        k = add(ln, k)
    for op in reversed(r.arr.get((fam, keys), [])):
        if op[0] == "pop":
            break
        idx, val = op[1], op[2]
        if ip.choose(N(eq(k, idx))):
            return val
    if r.install and isinstance(ln, int) and not isinstance(k, Term) and not (0 <= k < ln):
        ip.raise_("ContainerDBException", "range")
    ep = 0 if fam[:3] in r.immutable else r.epoch
    c = cell_term(("array", fam[1], fam[2], fam[3]), keys + (T(k),), ep)
    r.reads.add(c)
    return c


def arr_items(ip, db):
    n = ip.choose_len(arr_len(ip, db))
    return [arr_get(ip, db, i) for i in range(n)]


def icon_getattr(ip, o, name):
    if isinstance(o, DbVal):
        if name == "get_sub_db":
            def sub(ip, a, k):
                d = DbVal(o.prefix + (T(N(a[0])),))
                d.birth = ip.birth()
                return d
            return BuiltinVal("get_sub_db", sub)
        if name == "address":
            return SELF
        if name in ("get", "put", "delete"):
            def raw(ip, a, k):
                d = DbObj("raw", "<raw>", o.prefix + (T(a[0]),), "bytes")
                fam, keys = fam_of(d)
                if name == "get":
                    return loc_read(ip, fam, keys)
                loc_write(ip, fam, keys, N(a[1]) if name == "put" else None, op="set" if name == "put" else "del")
            return BuiltinVal("db." + name, raw)
        ip.raise_("AttributeError", "db." + name)
    if isinstance(o, ProxyVal):
        return proxy_getattr(ip, o, name)
    # DbObj
    if o.kind == "var":
        fam, keys = fam_of(o)
        if name == "get":
            return BuiltinVal("VarDB.get", lambda ip, a, k: loc_read(ip, fam, keys))
        if name == "set":
            return BuiltinVal("VarDB.set", lambda ip, a, k: loc_write(
                ip, fam, keys, N(a[0] if a else k["value"])))
        if name == "remove":
            return BuiltinVal("VarDB.remove", lambda ip, a, k: loc_write(ip, fam, keys, default_of(o.vtype), op="del"))
    elif o.kind == "dict":
        if name in ("remove", "__delitem__"):
            return BuiltinVal("DictDB.remove", lambda ip, a, k: db_delitem(ip, o, a[0]))
        if name == "__getitem__":
            return BuiltinVal("DictDB.get", lambda ip, a, k: db_getitem(ip, o, a[0]))
        if name == "__setitem__":
            return BuiltinVal("DictDB.set", lambda ip, a, k: db_setitem(ip, o, a[0], a[1]))
        if name == "__contains__":
            return BuiltinVal("DictDB.in", lambda ip, a, k: db_contains(ip, o, a[0]))
    elif o.kind == "array":
        fam, keys = fam_of(o)
        if name == "put":
            def put(ip, a, k):
                v = N(a[0] if a else k["value"])
                if v is None:
                    ip.raise_("ContainerDBException", "None")
                if isinstance(v, Term):
                    ip.assume_nonnull(v, "ContainerDBException")
                idx = arr_len(ip, o)
                ip.effect("arr", op="put", fam=fam, keys=keys, index=idx, value=v)
                ip.run.arr.setdefault((fam, keys), []).append(("put", idx, v))
            return BuiltinVal("ArrayDB.put", put)
        if name == "pop":
            def pop(ip, a, k):
                idx = sub(arr_len(ip, o), 1)
                v = arr_get(ip, o, idx)
                ip.effect("arr", op="pop", fam=fam, keys=keys, index=idx, value=v)
                ip.run.arr.setdefault((fam, keys), []).append(("pop", idx, v))
                return v
            return BuiltinVal("ArrayDB.pop", pop)
        if name in ("get", "__getitem__"):
            return BuiltinVal("ArrayDB.get", lambda ip, a, k: arr_get(ip, o, a[0] if a else k.get("index", 0)))
        if name == "__len__":
            return BuiltinVal("ArrayDB.len", lambda ip, a, k: arr_len(ip, o))
    ip.raise_("AttributeError", "%sDB.%s" % (o.kind, name))


def term_attr(ip, o, name):
    """attributes of symbolic addresses"""
    if o.ty == "addr" or (o.ty == "any" and name in ("is_contract", "to_bytes", "to_canonical_bytes")):
        if name == "is_contract":
            return mk("is_contract", (o,), "bool", True)
        if name == "prefix":
            return mk("addr_prefix", (o,), "any", True)
        if name == "body":
            return mk("addr_body", (o,), "bytes", True)
        if name in ("to_bytes", "to_canonical_bytes"):
            return BuiltinVal("to_bytes", lambda ip, a, k: mk("to_bytes", (o,), "bytes", True))
        if name == "from_string":
            return ip.getattr(ip.icon["Address"], name)
        if name in ("__eq__", "__ne__", "__str__", "__hash__"):
            return BuiltinVal(name, lambda ip, a, k: (
                ip.eq_vals(o, a[0]) if name == "__eq__" else notl(ip.eq_vals(o, a[0])) if name == "__ne__" else
                ip.to_str(o) if name == "__str__" else mk("hash", (o,), "int", True)))
        ip.raise_("AttributeError", "Address." + name)
    return NotImplemented


# ------------------------------------------------------------------------------ calls

def bump(ip):
    ip.run.epoch += 1


def proxy_getattr(ip, p, name):
    if name == "addr_to":
        return p.addr
    if name == "icx":
        def icx(ip, a, k):
            q = ProxyVal(p.addr, p.cls)
            q.value = N(a[0])
            q.birth = ip.birth()
            return q
        return BuiltinVal("proxy.icx", icx)
    f, c = p.cls.lookup(name)
    if c is None:
        ip.effect("badcall", target=p.addr, method=name, iface=p.cls.name, why="no such interface method")
        ip.raise_("AttributeError", name)
    if isinstance(f, FuncVal):
        if not f.flags.get("interface"):
            # a plain (undecorated) function runs locally on the proxy object: nothing is sent
            def local(ip, a, k):
                ip.effect("badcall", target=p.addr, method=name, iface=p.cls.name,
                          why="interface method is not marked @interface")
                return None
            return BuiltinVal("proxy." + name, local)
        return BuiltinVal("proxy." + name, lambda ip, a, k: ext_call(
            ip, p.addr, f.name, list(a), dict(k), p.value, p.cls))
    return f


def callee_may_fail(ip, what, addr, args):
    """Inside a try that would catch it, a call to another contract (or a payment) also fails.  Outside one, the failure
    simply undoes the whole transaction and needs no partition of its own.  The called contract chooses the exception:
    what it raises passes through the call as it is, so every class that a handler names can arrive."""
    if ip.run is None:
        return
    kinds = []
    for hs in reversed(ip.run.try_stack):
        for h in hs:
            c = None
            if h is None or isinstance(h, ClassVal) and ip.icon["RevertException"].is_sub(h):
                c = "RevertException"
            elif isinstance(h, ClassVal) and h.is_sub_name("Exception"):
                c = h
            if c is not None and c not in kinds:
                kinds.append(c)
    if not kinds:
        return
    if ip.choose(mk("ok", ("callee:" + what, T(addr), args, ip.run.epoch), "bool", True)):
        return
    ip.effect("calleefail", target=T(addr), method=what)
    for c in kinds[:-1]:
        if ip.choose(mk("fails_with", (c if isinstance(c, str) else c.name, what, T(addr), args, ip.run.epoch),
                        "bool", True)):
            raise_kind(ip, c)
    raise_kind(ip, kinds[-1])


def raise_kind(ip, c):
    if isinstance(c, str):
        ip.raise_(c, "implicit:callee")
    e = InstVal(c)
    e.attrs["args"] = ("implicit:callee",)
    e.attrs["implicit"] = True
    raise AbsRaise(e, ip.where())


def ext_call(ip, addr, mname, args, kwargs, value, iface):
    r = ip.run
    addr = N(addr)
    if isinstance(addr, Term):
        ip.assume_nonnull(addr, "IconScoreException")
    impls = ip.implementers(iface, mname)
    why = None
    norm = None
    ret = "any"
    view = None
    if not impls:
        why = "no contract implements %s as an external method" % mname
    for cname, f in impls:
        g = f
        while isinstance(getattr(g, "wrapped", None), FuncVal):
            g = g.wrapped
        try:
            b = bind_plain(g, args, kwargs)
        except TypeError as e:
            why = "%s.%s: %s" % (cname, mname, e)
            continue
        if norm is None:
            norm = b
        v = bool(f.flags.get("external_readonly"))
        view = v if view is None else (view and v)
        rt = getattr(g.node, "returns", None)
        if isinstance(rt, ast.Name):
            ret = TY.get(rt.id, "any")
        if not isinstance(value, int) or value != 0:
            if not f.flags.get("payable"):
                why = "%s.%s is not payable" % (cname, mname)
    if why is not None:
        ip.effect("badcall", target=addr, method=mname, iface=iface.name if iface else None, why=why)
    if norm is None:
        norm = {"arg%d" % i: x for i, x in enumerate(args)}
        norm.update(kwargs)
    targs = tuple(ip.term_of(x) for x in norm.values())
    names = tuple(norm)
    callee_may_fail(ip, mname, addr, targs)
    if view:
        t = mk("ext", (mname, T(addr), targs, r.epoch), ret, ret in ("int", "bool", "str"))
        ip.effect("view", target=T(addr), method=mname, args=dict(zip(names, targs)), result=t,
                  iface=iface.name if iface else None)
        return N(t)
    ip.effect("call", target=T(addr), method=mname, args=dict(zip(names, targs)), value=value,
              iface=iface.name if iface else None)
    bump(ip)
    return mk("extret", (mname, T(addr), targs, r.epoch), ret if ret != "none" else "any")


def bind_plain(f, args, kwargs):
    """bind call arguments against a method (skipping self); returns ordered dict"""
    a = f.node.args
    names = [p.arg for p in a.args][1:]
    out = {}
    kwargs = dict(kwargs)
    if len(args) > len(names) and not a.vararg:
        raise TypeError("takes %d arguments, %d given" % (len(names), len(args)))
    for i, n in enumerate(names):
        if i < len(args):
            if n in kwargs:
                raise TypeError("multiple values for %s" % n)
            out[n] = args[i]
        elif n in kwargs:
            out[n] = kwargs.pop(n)
        else:
            j = i - (len(names) - len(f.defaults))
            if j >= 0:
                out[n] = f.defaults[j]
            else:
                raise TypeError("missing argument %s" % n)
    if kwargs:
        raise TypeError("unexpected argument %s" % sorted(kwargs))
    return out


def emit_event(ip, f, args, kwargs):
    b = ip.bind_args(f, args, kwargs)
    names = [p.arg for p in f.node.args.args]
    vals = [N(b[n]) for n in names[1:]]
    anns = [p.annotation.id if isinstance(p.annotation, ast.Name) else None for p in f.node.args.args[1:]]
    ip.effect("event", name=f.name, args=tuple(vals), params=tuple(names[1:]), anns=tuple(anns),
              indexed=f.flags.get("eventlog_indexed", 0))
    return None
