"""C38: the storage wrapper keeps every declared field in its own container of the contract's database."""
import ast

from .base import *
from ..analyze import im_db
from ..icon_model import TY, cell_term, fam_of
from ..interp import Env

WHERE = "contracts/utility/storage.py"
KINDS = {"VarDB": "var", "DictDB": "dict", "ArrayDB": "array"}
TYPES = ("int", "str", "bool", "Address", "bytes")
NAMES = ("a", "ab", "a_b", "total", "total_weight", "weight", "x1", "get", "set", "value", "remove", "items",
         "conversion_whitelist", "conversion_whitelist_size", "is_virtual_balance_enabled_for_all_connectors",
         "is_virtual_balance_enabled_for_all_connector_tokens", "IsSet", "isset")

# what a contract does with the wrapper; interpreted together with the repository's class
USE = '''
from iconservice import *
from contracts.utility.storage import Storage

def make(db, table):
    s = Storage(db)
    for part in table:
        s.add_fields([(n, KIND[k], VTYPE[t]) for n, k, t in part])
    return s

KIND = {"VarDB": VarDB, "DictDB": DictDB, "ArrayDB": ArrayDB}
VTYPE = {"int": int, "str": str, "bool": bool, "Address": Address, "bytes": bytes}

def read(s, n):
    return getattr(s, n)

def shadow(s, n):
    return getattr(s, "_" + n)

def known(s, n):
    return hasattr(s, n)

def assign(s, n, v):
    setattr(s, n, v)

def assign_read(s, n, v):
    setattr(s, n, v)
    return getattr(s, n)

def assign_other(s, n, v, m):
    setattr(s, n, v)
    return getattr(s, m)

def assign_twice(s, n, v, w):
    setattr(s, n, v)
    setattr(s, n, w)
    return getattr(s, n)

def add_to(s, n, v):
    setattr(s, n, getattr(s, n) + v)
    return getattr(s, n)

def later(s, n, k, t):
    s.add_fields([(n, KIND[k], VTYPE[t])])
    return getattr(s, n)

def put_item(s, n, k, v):
    getattr(s, n)[k] = v
    return getattr(s, n)[k]

def put_element(s, n, v):
    getattr(s, n).put(v)

def behind(s, n, v, w):
    setattr(s, n, v)
    getattr(s, "_" + n).set(w)
    return getattr(s, n)

def shared(db, table, n, v, w):
    s = make(db, table)
    t = make(db, table)
    setattr(s, n, v)
    setattr(t, n, w)
    return getattr(s, n)

def two(db, key, table, n, v):
    s = make(db, table)
    t = make(db.get_sub_db(key), table)
    setattr(s, n, v)
    return getattr(t, n)
'''


def tables(deep):
    """declarations: each kind and type alone; mixed ones with names that begin with each other, in one or several calls"""
    for k in KINDS:
        for t in TYPES:
            yield ((("only", k, t),),)
    kinds = list(KINDS)
    for r in range(15 if deep else 3):
        one = tuple((n, kinds[(i + r) % 3], TYPES[(i * 2 + r) % 5]) for i, n in enumerate(NAMES))
        yield (one,)
        yield (one[:3], one[3:4], one[4:])
        yield tuple((x,) for x in reversed(one))
    yield (tuple((n, "VarDB", TYPES[i % 5]) for i, n in enumerate(NAMES)),)


def new(n, t):
    return sym("new." + n, TY[t], True)


def c38(ctx):
    ip = ctx.P.ip
    m = ModuleVal("<storage user>")
    env = Env(None, m, "module")
    env.vars = m.ns
    ip.exec_block(ast.parse(USE).body, env)
    use = m.ns

    def lst(x):
        return ListVal([lst(y) for y in x]) if x and isinstance(x[0], tuple) and isinstance(x[0][0], (tuple, str)) else x

    def run(what, table, *args):
        def body(ip, r):
            s = ip.call(use["make"], [im_db(ip), lst(table)])
            r.mark = len(r.effects)
            return ip.call(use[what], [s] + list(args))
        outs = ctx.P.explore(body, "Storage", what)
        ctx.parts += len(outs)
        return outs

    def fam(n, k, t):
        return (KINDS[k], n, 0, t)

    def holds(o, v, f):
        return isinstance(v, Term) and v.op == "cell" and v.args[0] == fam(*f) and not v.args[1]

    def handle(v, f):
        return isinstance(v, DbObj) and v.kind == KINDS[f[1]] and fam_of(v) == (fam(*f), ()) and v.depth == 1

    def only(rule, what, o, want):
        """the run succeeds and leaves exactly the expected values in the expected places, nothing else changed"""
        if o.status != "ok":
            ctx.ob(rule, what, False, "fails (%s)" % o.exc, o, where=o.where or WHERE)
            return
        end = {}
        for w in o.effects:
            if w.kind == "write":
                end.setdefault((w.fam, tuple(N(x) for x in w.keys)), [w.old, None])[1] = w.value
            elif w.kind == "arr":
                end[(w.fam, (w.index,))] = [sym("no element", "any"), w.value]
        places = [((f, tuple(N(T(x)) for x in ks)), v) for f, ks, v in want]
        bad = [k[0][:2] for k, (a, b) in end.items() if not any(k == p for p, _ in places) and not o.facts.same(a, b)]
        for (f, ks), v in places:
            fin = end.get((f, ks), [None, cell_term(f, ks, 0)])[1]
            if not ctx.same_val(o, fin, v):
                bad.append("%s ends as %s" % (f[1], show(T(fin))))
        ctx.ob(rule, what, not bad, lambda: "changes %s" % bad, o, where=WHERE)

    for table in tables(ctx.tier == "thorough"):
        fields = [f for part in table for f in part]
        for f in fields:
            n, k, t = f
            what = "Storage/%s of %s" % (k, t)
            v, w = new(n, t), sym("second." + n, TY[t], True)
            for o in run("read", table, n):
                only("reading-changes-nothing", what, o, [])
                ctx.ob("reads-own-container", what, o.status == "ok" and
                       (holds(o, o.ret, f) if k == "VarDB" else handle(o.ret, f)),
                       lambda: "field %s of %s answers %s" % (n, [x[0] for x in fields], o.ret), o, where=WHERE)
            for o in run("shadow", table, n):
                ctx.ob("container-reachable", what, o.status == "ok" and handle(o.ret, f),
                       "_%s is not the container of the field" % n, o, where=WHERE)
            for o in run("known", table, n):
                ctx.ob("field-known", what, o.status == "ok" and o.ret is True, "hasattr denies a declared field", o, where=WHERE)
            if k != "VarDB":
                key = sym("key", "str", True)
                args = ("put_item", table, n, key, v) if k == "DictDB" else ("put_element", table, n, v)
                for o in run(*args):
                    if k == "DictDB":
                        only("container-writes", what, o, [(fam(*f), (key,), v)])
                    else:
                        arr = [x for x in o.effects if x.kind in ("arr", "write")]
                        ctx.ob("container-writes", what, o.status == "ok" and [(x.kind, x.fam) for x in arr] ==
                               [("arr", fam(*f))] and arr[0].op == "put" and o.facts.same(arr[0].value, v),
                               "an element put goes elsewhere", o, where=WHERE)
                for o in run("assign_read", table, n, v):
                    only("container-kept", what, o, [])
                    ctx.ob("container-kept", what, o.status == "ok" and handle(o.ret, f),
                           "assigning the attribute replaces the container", o, where=WHERE)
                continue
            for o in run("assign_read", table, n, v):
                only("writes-own-container", what, o, [(fam(*f), (), v)])
                ctx.ob("reads-back", what, o.status == "ok" and o.facts.same(o.ret, v),
                       "does not read back what was assigned", o, where=WHERE)
            for o in run("assign_twice", table, n, v, w):
                only("writes-own-container", what, o, [(fam(*f), (), w)])
                ctx.ob("reads-back", what, o.status == "ok" and o.facts.same(o.ret, w),
                       "does not read back what was assigned last", o, where=WHERE)
            for o in run("behind", table, n, v, w):
                ctx.ob("no-copy-kept", what, o.status == "ok" and o.facts.same(o.ret, w),
                       "answers a remembered value instead of the stored one", o, where=WHERE)

            def both(ip, r):
                return ip.call(use["shared"], [im_db(ip), lst(table), n, v, w])
            for o in ctx.P.explore(both, "Storage", "shared"):
                ctx.ob("no-copy-kept", what, o.status == "ok" and o.facts.same(o.ret, w),
                       "two wrappers over one database disagree", o, where=WHERE)
            if t == "int":
                for o in run("add_to", table, n, v):
                    ctx.ob("reads-back", what, o.status == "ok" and isinstance(o.ret, Term) and
                           any(o.facts.same(o.ret, add(c, v)) for c in o.reads if holds(o, c, f)),
                           "does not update in place", o, where=WHERE)
            for g in fields[:6] if ctx.tier != "thorough" else fields:
                if g is f or g[1] != "VarDB":
                    continue
                for o in run("assign_other", table, n, v, g[0]):
                    ctx.ob("independent", what, o.status == "ok" and holds(o, o.ret, g),
                           lambda: "assigning %s changes %s" % (n, g[0]), o, where=WHERE)
            sub = sym("subdb", "bytes", True)

            def apart(ip, r):
                return ip.call(use["two"], [im_db(ip), sub, lst(table), n, v])
            for o in ctx.P.explore(apart, "Storage", "two"):
                ctx.ob("own-database", what, o.status == "ok" and isinstance(o.ret, Term) and o.ret.op == "cell" and
                       o.ret.args[0] == (KINDS[k], n, 1, t) and [N(x) for x in o.ret.args[1]] == [sub],
                       "two wrappers over different databases share %s" % n, o, where=WHERE)
        # what was not declared is an ordinary attribute
        x = sym("plain", "int", True)
        declared = {f[0] for f in fields}
        near = [y for n in sorted(declared)[:4 if ctx.tier != "thorough" else None] for y in (n + "_x", n + "s", n[:-1], n.upper(), n + n)]
        for name in ["undeclared"] + [y for y in near if y and y not in declared and y != "db"]:
            for o in run("assign_read", table, name, x):
                only("plain-attribute", "Storage/undeclared", o, [])
                ctx.ob("plain-attribute", "Storage/undeclared", o.status == "ok" and o.facts.same(o.ret, x),
                       "an ordinary attribute does not keep its value", o, where=WHERE)
            for o in run("read", table, name):
                ctx.ob("unknown-field", "Storage/undeclared", o.status == "fail" and o.exc == "AttributeError",
                       "an unknown field is answered", o, where=WHERE)
            for o in run("known", table, name):
                ctx.ob("unknown-field", "Storage/undeclared", o.status == "ok" and o.ret is False,
                       "an unknown field is reported as present", o, where=WHERE)
        for k in KINDS:
            for o in run("later", table, "declared_later", k, "int"):
                f = ("declared_later", k, "int")
                ctx.ob("declared-later", "Storage/%s of int" % k, o.status == "ok" and
                       (holds(o, o.ret, f) if k == "VarDB" else handle(o.ret, f)),
                       "a field declared later is not available", o, where=WHERE)
    ctx.floor("reads-own-container", 60)
    ctx.floor("writes-own-container", 60)
    ctx.floor("independent", 60)
