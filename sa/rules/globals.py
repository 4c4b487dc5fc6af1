"""C27-C31, C34: queries, cross-contract fit, storage isolation, packages, the build tool, determinism."""
import ast
import os
import posixpath

from .base import *
from .owner import argsym
from ..fs_model import FileSystem, HARMLESS
from .. import icon_model as im

OWNED_Q = ("getOwner", "getNewOwner")
IRC_Q = ("name", "symbol", "decimals", "totalSupply", "balanceOf")
QUERIES = {
    "IRCToken": IRC_Q,
    "FlexibleToken": IRC_Q + OWNED_Q + ("getFlexibleTokenVersion", "getTransferPossibility"),
    "IcxToken": IRC_Q + OWNED_Q,
    "Network": OWNED_Q + ("getExpectedReturnByPath", "getIcxTokenRegistered"),
    "ScoreRegistry": OWNED_Q + ("getAddress", "getScoreIds"),
    "Converter": OWNED_Q + ("getManager", "getNewManager", "getToken", "getConnector", "getConnectorAt",
                            "getConnectorBalance", "getConnectorTokenCount", "getConversionFee", "getMaxConversionFee",
                            "getFinalAmount", "getReturn", "getRegistry", "getPreviousRegistry", "isActive",
                            "isAllowRegistryUpdate", "isConversionsEnabled"),
}
TYPES = {"int": "int", "str": "str", "bytes": "bytes", "bool": "bool", "Address": "addr"}


def c27(ctx):
    for c, qs in QUERIES.items():
        for q in qs:
            ctx.need(c, q, True, rule="query-offered")
    for c in ctx.P.contracts:
        for n, e in ctx.contract(c).entries.items():
            if not e.readonly:
                continue
            for o in ctx.outs(c, n):
                bad = [x for x in o.effects if x.kind in ("write", "arr", "icx", "call", "event") or
                       x.kind == "pymut" and (x.scope == "module" or kept(x) is not None)]
                ctx.ob("query-pure", "%s.%s" % (c, n), not bad,
                       lambda: "a query has the effect '%s %s'" % (bad[0].kind, getattr(bad[0], "method", "") if bad[0].kind == "call"
                                                                    else bad[0].data.get("name", "")), o,
                       bad[0].where if bad else None)
            for x in [x for o in ctx.outs(c, n) for x in o.eff("view")]:
                pass
    ctx.floor("query-offered", 30)
    ctx.floor("query-pure", 40)


# ---------------------------------------------------------------------------------------- C28
def static_ty(v):
    v = N(v)
    if isinstance(v, Term):
        return v.ty if v.ty in ("int", "str", "bytes", "bool", "addr", "float") else None
    return {int: "int", str: "str", bytes: "bytes", bool: "bool", float: "float"}.get(type(v))


def fits(v, ann):
    """no static evidence that the value is not of the declared type"""
    t, w = static_ty(v), TYPES.get(ann)
    return t is None or w is None or t == w or (t == "bool" and w == "int")


def interface_methods(ctx):
    """{(interface class name, method)} -> FuncVal, for the abstract interfaces shared between contracts"""
    out = {}
    d = os.path.join(ctx.P.root, "contracts", "interfaces")
    if not os.path.isdir(d):
        raise Broken("no contracts/interfaces")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py") or fn == "__init__.py":
            continue
        m = ctx.P.ip.load("contracts.interfaces." + fn[:-3])
        for k, v in m.ns.items():
            if isinstance(v, ClassVal) and v.module is m:
                for a in sorted({a for c in v.mro for a in c.ns if isinstance(a, str)}):
                    f, _ = v.lookup(a)
                    if isinstance(f, FuncVal) and f.flags.get("__isabstractmethod__"):
                        out[(v, a)] = f
    return out


def c28(ctx):
    P = ctx.P
    for c in P.contracts:
        for n in ctx.contract(c).entries:
            for o in ctx.outs(c, n):
                bad = o.eff("badcall")
                ctx.ob("callable", "%s.%s" % (c, n), not bad, lambda: "calls %s: %s" % (bad[0].method, bad[0].why), o,
                       bad[0].where if bad else None)
                for x in o.effects:
                    if x.kind in ("call", "view"):
                        for cn, k in P.contracts.items():
                            e = k.entries.get(x.method)
                            if e is None or not e.external:
                                continue
                            for p, v in x.args.items():
                                ctx.ob("argument-type", "%s.%s->%s.%s" % (c, n, x.method, p), fits(v, e.anns.get(p)),
                                       lambda: "passes %s for a parameter of type %s" % (show(T(v)), e.anns.get(p)), o, x.where)
                    if x.kind == "event":
                        for p, a, v in zip(x.params, x.anns, x.args):
                            ctx.ob("event-type", "%s.%s/%s.%s" % (c, n, x.name, p), fits(v, a),
                                   lambda: "logs %s for a parameter of type %s" % (show(T(v)), a), o, x.where)
                if o.status == "ok":
                    e = ctx.contract(c).entries[n]
                    if e.readonly and isinstance(o.ret, (Term,) + SCALARS) and e.returns in TYPES and o.ret is not None:
                        ctx.ob("return-type", "%s.%s" % (c, n), fits(o.ret, e.returns),
                               lambda: "returns %s, declared %s" % (show(T(o.ret)), e.returns), o)
    # interfaces agree with their implementations
    for (cls, m), f in interface_methods(ctx).items():
        want = [p.arg for p in f.node.args.args][1:]
        nd = len(f.defaults)
        optional = set(want[len(want) - nd:]) if nd else set()
        impl = [(c, k) for c, k in P.contracts.items() if k.cls.is_sub(cls)]
        for c, k in impl:
            e = k.entries.get(m)
            if not ctx.ob("interface-offered", "%s.%s" % (c, m), e is not None and e.external,
                          "%s promises %s, but it is not an external operation" % (cls.name, m)):
                continue
            ctx.ob("interface-parameters", "%s.%s" % (c, m), e.params == want and optional <= set(e.defaults),
                   "the interface declares (%s), the contract takes (%s)" % (", ".join(want), ", ".join(e.params)),
                   where=ctx.at_entry(c, m))
        ctx.ob("interface-uniform", "%s.%s" % (cls.name, m), len({k.entries[m].readonly for c, k in impl if m in k.entries}) <= 1,
               "the implementations disagree on whether this is a query")
    # what the ICON service refuses to deploy
    for c, k in P.contracts.items():
        for n, e in k.entries.items():
            where = ctx.at_entry(c, n)
            if n == "fallback":
                ctx.ob("deployable", "%s.fallback" % c, not e.params and e.payable and not e.external, "fallback takes parameters or is not payable", where=where)
                continue
            for p in e.params:
                ctx.ob("deployable", "%s.%s(%s)" % (c, n, p), e.anns.get(p) in TYPES,
                       "parameter %s has the unsupported type %s" % (p, e.anns.get(p)), where=where)
                if p in e.defaults:
                    d = N(e.defaults[p])
                    ctx.ob("deployable", "%s.%s(%s)" % (c, n, p), d is None or fits(d, e.anns.get(p)),
                           "the default of %s is not of its type" % p, where=where)
            if e.readonly:
                ctx.ob("deployable", "%s.%s" % (c, n), e.returns in set(TYPES) | {"list", "dict"} and not e.payable,
                       "a query needs a supported return type and cannot be payable", where=where)
            a = e.sig.node.args
            ctx.ob("deployable", "%s.%s" % (c, n), not a.vararg and not a.kwonlyargs and (not a.kwarg or n.startswith("on_")),
                   "variable parameters", where=where)
        evs = {}
        for kl in k.cls.mro:
            for n, f in kl.ns.items():
                if isinstance(f, FuncVal) and f.flags.get("eventlog"):
                    evs.setdefault(n, f)
        for n, f in evs.items():
            ps = f.node.args.args[1:]
            idx = N(f.flags.get("eventlog_indexed", 0))
            ctx.ob("event-declaration", "%s.%s" % (c, n), all(
                isinstance(p.annotation, ast.Name) and p.annotation.id in TYPES or
                isinstance(p.annotation, ast.Constant) and p.annotation.value in TYPES for p in ps) and
                isinstance(idx, int) and 0 <= idx <= min(3, len(ps)), "indexed=%s of %d typed parameters" % (idx, len(ps)),
                where="%s:%d" % (f.module.path, f.node.lineno))
        ctx.ob("deployable", c, not k.abstract and any(b.name == "IconScoreBase" for b in k.cls.mro),
               "not a complete SCORE class (abstract: %s)" % k.abstract)
    ctx.floor("callable", 200)
    ctx.floor("argument-type", 200)
    ctx.floor("interface-parameters", 30)
    ctx.floor("deployable", 100)
    ctx.floor("event-declaration", 10)


# ---------------------------------------------------------------------------------------- C29
GETTERS = {
    "IRCToken": IRC_Q,
    "FlexibleToken": IRC_Q + OWNED_Q + ("getFlexibleTokenVersion", "getTransferPossibility"),
    "IcxToken": IRC_Q + OWNED_Q,
    "Network": OWNED_Q + ("getIcxTokenRegistered",),
    "ScoreRegistry": OWNED_Q,
    "Converter": OWNED_Q + ("getManager", "getNewManager", "getToken", "getConversionFee", "getMaxConversionFee",
                            "getRegistry", "getPreviousRegistry", "isAllowRegistryUpdate", "isConversionsEnabled"),
}
FIELDS = ("virtualBalance", "weight", "isVirtualBalanceEnabled", "isPurchaseEnabled", "isSet")


def injective(t, depth=0):
    """the key determines the value it was built from, and keys built the same way never run into each other"""
    t = N(t)
    if not isinstance(t, Term):
        return True
    if is_const(t):
        return True
    if t.op in ("sym", "cell", "ext", "extret", "jget", "item", "msg", "tx") or not t.args:
        return True
    if t.op in ("to_bytes", "str", "encode", "from_string", "strip", "decode", "hex", "fst"):
        return injective(t.args[0], depth + 1)
    if t.op in ("concat", "fstr", "fmt"):
        dyn = [a for a in t.args if isinstance(a, Term) and not is_const(a)]
        return len(dyn) <= 1 and all(injective(a, depth + 1) for a in dyn)
    return False


def vty(v):
    return TYPES.get(v, None)


def c29(ctx):
    P = ctx.P
    for c in P.contracts:
        seen = {}
        for g in GETTERS.get(c, ()):
            if not ctx.has(c, g):
                ctx.need(c, g, True)
                continue
            seen.setdefault(ctx.loc(c, g, check=False).id, []).append(g)
        if c == "Converter":
            for f in FIELDS:
                l = ctx.loc(c, "getConnector", f, check=False)
                seen.setdefault(l.id, []).append("getConnector." + f)
                ctx.ob("per-item-slots", "Converter.getConnector.%s" % f, any(
                    argsym(ctx, c, "getConnector", "_address") in atoms(k) for k in l.keys),
                    "all connectors share one %s" % f)
        for g, p in (("balanceOf", "_owner"), ("getIcxTokenRegistered", "_icxToken")):
            if ctx.has(c, g):
                l = ctx.loc(c, g, check=False)
                ctx.ob("per-item-slots", "%s.%s" % (c, g), any(argsym(ctx, c, g, p) in atoms(k) for k in l.keys),
                       "all %s share one slot" % p)
        for lid, gs in seen.items():
            for g in gs:
                ctx.ob("distinct-slots", "%s.%s" % (c, g), len(gs) == 1, "%s report the same storage location" % " and ".join(gs))
        byname = {}
        for n in ctx.contract(c).entries:
            for o in ctx.outs(c, n):
                for h, w in o.handles:
                    fam, keys = im.fam_of(h)
                    byname.setdefault(fam[:3], {}).setdefault(fam[3], w)
                    for k in keys:
                        ctx.ob("injective-keys", "%s.%s/%s" % (c, n, fam[1]), injective(k) and
                               (static_ty(k) is not None or isinstance(N(k), Term)),
                               lambda: "entries of %s may collide: key %s" % (fam[1], show(T(k))), o, w)
                for x in o.eff("write"):
                    t, w = static_ty(x.value), vty(x.fam[3])
                    ctx.ob("typed-values", "%s.%s/%s" % (c, n, x.fam[1]), t is None or w is None or t == w,
                           lambda: "stores %s where %s values are kept" % (show(T(x.value)), x.fam[3]), o, x.where)
                    for k in x.keys:
                        ctx.ob("injective-keys", "%s.%s/%s" % (c, n, x.fam[1]), injective(k),
                               lambda: "entries of %s may collide: key %s" % (x.fam[1], show(T(k))), o, x.where)
        for f, types in byname.items():
            ctx.ob("one-type-per-slot", "%s/%s" % (c, f[1]), len(types) == 1,
                   "%s is opened with different value types: %s" % (f[1], sorted(map(str, types))),
                   where=list(types.values())[-1])
        # containers of different kinds never share a name and depth
        kinds = {}
        for f in byname:
            kinds.setdefault((f[1], f[2]), set()).add(f[0])
        for f, s in kinds.items():
            ctx.ob("one-kind-per-name", "%s/%s" % (c, f[0]), len(s) == 1, "%s is opened as %s" % (f[0], sorted(s)))
    ctx.floor("distinct-slots", 30)
    ctx.floor("per-item-slots", 5)
    ctx.floor("injective-keys", 20)
    ctx.floor("one-type-per-slot", 25)


# ---------------------------------------------------------------------------------------- C30, C31
class Tool:
    """The package builder, interpreted with the file-system model."""

    def __init__(self, ctx, virt="/R"):
        from ..analyze import Program
        self.ctx, self.virt = ctx, virt
        self.root = os.path.abspath(ctx.P.root)
        self.fs = FileSystem(self.root, virt)
        self.Q = Program(ctx.P.root)
        self.fs.bind(self.Q.ip)
        self.builder = self.Q.ip.load("contract_generator.builder")
        self.writer = self.Q.ip.load("contract_generator.writer")
        cfg = self.Q.ip.load("contract_generator.config").ns.get("config")
        if not isinstance(cfg, DictVal):
            raise Broken("contract_generator.config.config is not a dict")
        self.config = {N(k): [N(x) for x in self.Q.ip.iterate(v)] for k, v in cfg.pairs}
        self.top = posixpath.join(virt, "build")
        self.src = posixpath.join(virt, "contracts")

    def explore(self, what, body, presets=()):
        def b(ip, r):
            return body(ip)
        outs = self.Q.explore(b, "build", what, presets=presets)
        ctx = self.ctx
        ctx.parts += len(outs)
        ctx.entries_used.add("build.py " + what)
        for o in outs:
            if o.status == "truncated":
                raise Broken("the interpretation of build.py exceeded the analysis bound (%s)" % o.where)
            bad = [x for x in o.eff("opaque") if not x.data["name"].startswith(HARMLESS)] + o.eff("forbidden")
            if bad:
                raise Broken("build tool uses the unmodelled library function %s" % bad[0].data.get("name"))
        return outs

    def cli(self, argv, presets=()):
        self.fs.argv = argv
        if "sys" in self.fs.mods:
            self.fs.mods["sys"].ns["argv"].items = ["build.py"] + list(argv)
        path = self.Q.ip.module_file("build")
        if path is None:
            raise Broken("build.py is missing")

        def body(ip):
            m = ModuleVal("__main__", path)
            m.ns.update({"__name__": "__main__", "__file__": self.fs.file_of(path)})
            env = Env(None, m, "module")
            env.vars = m.ns
            ip.cur = ip.cur + [(m, "<module>")]
            try:
                ip.exec_block(ip.parse(path).body, env)
            except AbsRaise as e:
                code = N(list(e.exc.attrs.get("args") or (None,))[0]) if isinstance(e.exc, InstVal) else 1
                if not (isinstance(e.exc, InstVal) and e.exc.cls.is_sub_name("SystemExit") and code in (None, 0)):
                    raise
            finally:
                ip.cur = ip.cur[:-1]
        return self.explore("%s" % (argv,), body, presets)

    def path(self, o, t):
        """concrete path denoted by a path term, or None"""
        t = N(o.facts.canon(T(t))) if isinstance(t, Term) else t
        if isinstance(t, str):
            return posixpath.normpath(t)
        if not isinstance(t, Term):
            return None
        if t.op == "pathjoin":
            ps = [self.raw(o, a) for a in t.args]
            return None if any(p is None for p in ps) else posixpath.normpath(posixpath.join(*ps))
        if t.op in ("dirname", "basename", "normpath", "abspath", "realpath"):
            p = self.raw(o, t.args[0])
            f = {"dirname": posixpath.dirname, "basename": posixpath.basename}.get(t.op, posixpath.normpath)
            return None if p is None else f(p)
        return None

    def raw(self, o, t):
        t = N(o.facts.canon(T(t))) if isinstance(t, Term) else t
        if isinstance(t, str):
            return t
        return self.path(o, t)


def under(p, d):
    return p == d or p.startswith(d.rstrip("/") + "/")


def imports(path, text):
    """[(level, module, names or None, line)] of a module, leaving out branches that never run"""
    out = []

    def visit(n):
        if isinstance(n, ast.If):
            t = n.test
            if isinstance(t, ast.Constant) and not t.value or isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                for x in n.orelse:
                    visit(x)
                return
        if isinstance(n, ast.ImportFrom):
            out.append((n.level, n.module or "", [a.name for a in n.names], n.lineno))
        elif isinstance(n, ast.Import):
            for a in n.names:
                out.append((0, a.name, None, n.lineno))
        for x in ast.iter_child_nodes(n):
            visit(x)
    visit(ast.parse(text, path))
    return out


def shipped(ctx, tool, k):
    """{path in the package: source path} the command-line tool writes for contract k"""
    res = None
    for o in tool.cli([k]):
        if not ctx.ob("builds", "build.py %s" % k, o.status == "ok", "building %s fails: %s" % (k, o.exc), o):
            continue
        cur = {}
        for e in o.eff("fs"):
            d = tool.path(o, e.dst)
            if e.op in ("copy", "move", "write") and d is not None and under(d, posixpath.join(tool.top, k)):
                cur[posixpath.relpath(d, posixpath.join(tool.top, k))] = tool.raw(o, e.src) if e.src is not None else None
            elif e.op == "rmtree" and d is not None:
                for p in [p for p in cur if under(posixpath.join(tool.top, k, p), d)]:
                    del cur[p]
        if res is not None and res != cur:
            ctx.ob("builds", "build.py %s" % k, False, "what is shipped depends on what was built before", o)
        res = cur
    return res


def roots(ctx):
    """where the tree may live: an absolute directory, the current one, and one whose path repeats the names the builder looks for"""
    return ["/R", "", "/" + "/".join(sorted(Tool(ctx).config)) + "/contracts/build/package.json"]


def c30(ctx):
    P = ctx.P
    for virt in roots(ctx):
        tool = Tool(ctx, virt)
        v = "in " + (virt or "the current directory")
        for d in P.packages:
            ctx.ob("configured", d, d in tool.config, "contract directory %s is not configured for building" % d)
        for k in tool.config:
            ctx.ob("configured", k, k in P.packages, "configured contract %s has no directory with a package.json" % k)
            tree = shipped(ctx, tool, k)
            if tree is None:
                continue
            # every file exists and keeps its place
            for dst, src in sorted(tree.items()):
                real = tool.fs.real_path(src) if src is not None else None
                if not ctx.ob("source-exists", "%s/%s" % (k, dst), real is not None and os.path.isfile(real),
                              "the source %s of %s does not exist (%s)" % (src, dst, v)):
                    continue
                rel = os.path.relpath(real, os.path.join(tool.root, "contracts"))
                if dst == "package.json":
                    ok = rel == posixpath.join(k, "package.json")
                elif dst.endswith(".py"):
                    ok = rel == dst
                else:
                    ok = rel == dst or os.path.basename(real) == posixpath.basename(dst)
                ctx.ob("faithful-copy", "%s/%s" % (k, dst), ok, "%s is shipped as %s" % (rel, dst))
                ctx.ob("nothing-superfluous", "%s/%s" % (k, dst), "tests" not in dst.split("/") and
                       "__pycache__" not in dst and not dst.endswith(".pyc"), "%s is shipped" % dst)
            meta = P.packages.get(k)
            if meta is None:
                continue
            ctx.ob("manifest", "%s/package.json" % k, "package.json" in tree and {"version", "main_file", "main_score"} <= set(meta),
                   "package.json is not shipped or incomplete")
            for f in tool.config[k]:
                ctx.ob("configured-files", "%s/%s" % (k, f), posixpath.normpath(f) in tree, "the configured file %s is not shipped" % f)
            for f in tool.fs.listing(posixpath.join(tool.src, k))[1]:
                want = "package.json" if f == "package.json" else posixpath.join(k, f)
                ctx.ob("own-files", "%s/%s" % (k, f), want in tree, "%s of the contract is not shipped" % f)
            # import closure of the main module inside the shipped tree
            main = meta["main_file"].replace(".", "/") + ".py"
            if not ctx.ob("main-module", k, main in tree, "the main module %s is not shipped" % main):
                continue
            mod = P.ip.load("contracts." + meta["main_file"])
            ctx.ob("main-class", k, isinstance(mod.ns.get(meta["main_score"]), ClassVal), "%s does not define %s" % (main, meta["main_score"]))
            todo, done = [main], set()
            while todo:
                m = todo.pop()
                if m in done:
                    continue
                done.add(m)
                for pkg in parents(m):
                    init = posixpath.join(pkg, "__init__.py")
                    if init in tree and init not in done:
                        todo.append(init)
                real = tool.fs.real_path(tree[m])
                if real is None or not os.path.isfile(real):
                    continue
                with open(real) as fh:
                    text = fh.read()
                for level, module, names, line in imports(real, text):
                    where = "%s:%d" % (os.path.relpath(real, tool.root), line)
                    if level == 0:
                        # absolute: the ICON service, or the package itself (checked by C34)
                        ctx.ob("import-resolves", "%s/%s" % (k, m), module.split(".")[0] != "contracts",
                               "imports %s, which does not exist in the package" % module, where=where)
                        continue
                    base = posixpath.dirname(m)
                    up = level - 1
                    parts = base.split("/") if base else []
                    if not ctx.ob("import-resolves", "%s/%s" % (k, m), up <= len(parts),
                                  "relative import leaves the package", where=where):
                        continue
                    parts = parts[:len(parts) - up] + (module.split(".") if module else [])
                    tgt = "/".join(parts)
                    found = [p for p in (tgt + ".py", posixpath.join(tgt, "__init__.py")) if p in tree]
                    isdir = any(p.startswith(tgt + "/") for p in tree) or tgt == ""
                    if not ctx.ob("import-resolves", "%s/%s" % (k, m), bool(found) or isdir,
                                  "imports %s, which is not shipped with %s" % (tgt, k), where=where):
                        continue
                    todo.extend(found)
                    ns = {}
                    if found:
                        ns = P.ip.load("contracts." + found[0][:-3].replace("/__init__", "").replace("/", ".")).ns
                    for nm in names or ():
                        if nm == "*":
                            continue
                        sub = [p for p in (posixpath.join(tgt, nm + ".py"), posixpath.join(tgt, nm, "__init__.py")) if p in tree]
                        inns = nm in ns and not (isinstance(ns[nm], ModuleVal))
                        ctx.ob("import-resolves", "%s/%s" % (k, m), inns or bool(sub),
                               "imports %s from %s, which is not there in the package of %s" % (nm, tgt, k), where=where)
                        if not inns:
                            todo.extend(sub)
            # the archive holds the same files
            def body(ip):
                b = ip.call(tool.builder.ns["Builder"], [tool.src, ListVal([k], ip.birth())])
                w = ip.call(tool.writer.ns["ZipWriter"], [])
                ip.call(ip.getattr(b, "build"), [w])
                names = [N(ip.getattr(z, "filename")) for z in ip.iterate(ip.call(ip.getattr(w, "list_content"), []))]
                twice = [N(ip.call(ip.getattr(w, "to_bytes"), [])) for _ in range(2)]
                return names, twice
            for o in tool.explore("Builder([%s]).build(ZipWriter())" % k, body):
                arc = {}
                for e in o.eff("fs"):
                    if e.op == "zipwrite":
                        d = tool.path(o, e.dst)
                        if d is not None:
                            arc[posixpath.relpath(d, k)] = tool.raw(o, e.src)
                ctx.ob("archive-equals-tree", k, o.status == "ok" and arc == tree, lambda: "the archive differs from the directory: %s" % (
                    sorted(set(arc.items()) ^ set(tree.items()))[:4],), o)
                if o.status != "ok":
                    continue
                names, twice = o.ret
                ctx.ob("archive-read-back", k, twice == [b"<archive>"] * 2,
                       "to_bytes does not answer the whole finished archive", o)
                ctx.ob("archive-read-back", k, sorted(map(str, names)) == sorted(str(N(e.dst)) for e in o.eff("fs") if e.op == "zipwrite"),
                       "list_content does not answer the members", o)
        # the archive is packed the requested way
        for c, want in (("ZIP_STORED", 0), ("ZIP_DEFLATED", 8), ("ZIP_BZIP2", 12), ("ZIP_LZMA", 14)):
            for o in tool.explore("ZipWriter(%s)" % c, lambda ip: ip.call(tool.writer.ns["ZipWriter"], [c])):
                made = [N(e.dst) for e in o.eff("fs") if e.op == "zipnew"]
                ctx.ob("archive-packing", c, o.status == "ok" and made == [str(want)], lambda: "makes the archive with method %s" % made, o)
        for o in tool.explore("ZipWriter(unknown)", lambda ip: ip.call(tool.writer.ns["ZipWriter"], ["no such method"])):
            ctx.ob("archive-packing", "unknown", o.status != "ok", "accepts an unknown packing method", o)
        # building everything ships the same as building each
        for o in tool.cli("")[:1]:
            names = {posixpath.relpath(tool.path(o, e.dst), tool.top).split("/")[0] for e in o.eff("fs")
                     if e.op == "copy" and tool.path(o, e.dst)}
            ctx.ob("all-built", "build.py", names == set(tool.config), "building all contracts writes %s" % sorted(names), o)
    grown(ctx)
    ctx.floor("archive-read-back", 6)
    ctx.floor("source-exists", 100)
    ctx.floor("import-resolves", 100)
    ctx.floor("archive-equals-tree", 9)


GROWN = {"": (["pool", "contests"], ["attestation.py", "old_package.json", "limits.csv"]),
         "pool": (["deep"], ["__init__.py", "package.json.py", "unit_tests.py"]), "pool/deep": ([], ["__init__.py", "cache.py"]),
         "contests": ([], ["__init__.py", "testsuite.py"])}


def grown(ctx):
    """a contract that gains source files and packages is still built complete, each file in its place"""
    tool = Tool(ctx)
    for k in tool.config:
        base = os.path.join("contracts", k)
        if not os.path.isdir(os.path.join(tool.root, base)):
            continue
        tool.fs.extra = {os.path.normpath(os.path.join(base, d)): v for d, v in GROWN.items()}
        tree = shipped(ctx, tool, k) or {}
        for d, (_, fs) in GROWN.items():
            for f in fs:
                rel = posixpath.join(k, d, f)
                src = tree.get(rel)
                ctx.ob("grown-package", rel, src is not None and posixpath.normpath(src) == posixpath.join(tool.src, rel),
                       "a file %s added to the contract %s" % (posixpath.join(d, f), "is not shipped in its place" if src is None
                                                               else "is shipped with the contents of %s" % src))
        ctx.ob("grown-package", k + "/package.json", tree.get("package.json") is not None and
               posixpath.normpath(tree["package.json"]) == posixpath.join(tool.src, k, "package.json"),
               "the contract's manifest is replaced")
    ctx.floor("grown-package", 30)


def parents(m):
    p = posixpath.dirname(m)
    while p:
        yield p
        p = posixpath.dirname(p)


def c31(ctx):
    for virt in roots(ctx):
        tool = Tool(ctx, virt)
        top = posixpath.normpath(tool.top)
        keys = list(tool.config)
        x, y = sym("arg.command", "str", True), sym("arg.command2", "str", True)
        unknown = [(eq(x, k), False) for k in keys + ["clean"]]
        C = lambda *s: "/".join(("build.py",) + s)

        def touches(o):
            return [e for e in o.eff("fs") if e.op in ("rmtree", "remove", "mkdir", "copy", "write", "move", "extract")]

        def confined(o, who, allowed):
            for e in touches(o):
                p = tool.path(o, e.dst)
                ctx.ob("confined", who, p is not None and any(under(p, posixpath.join(top, a)) for a in allowed),
                       lambda: "%s of %s" % (e.op, show(T(e.dst)) if p is None else p), o, e.where)
                if e.op == "move":
                    ctx.ob("confined", who, False, "moves a source file", o, e.where)

        def fresh(o, who, built):
            """whatever was there before is removed before the first file is written"""
            for k in built:
                d = posixpath.join(top, k)
                fx = [(e, tool.path(o, e.dst)) for e in touches(o)]
                first = next((i for i, (e, p) in enumerate(fx) if e.op in ("copy", "write", "mkdir") and p and under(p, d)), None)
                if first is None:
                    continue
                rm = [i for i, (e, p) in enumerate(fx) if e.op in ("rmtree",) and p in (d, top)]
                absent = False
                for l, val in o.facts.order:
                    if l.op == "fs.isdir" and not val:
                        if tool.path(o, l.args[0]) in (d, top):
                            absent = True
                ctx.ob("no-stale-files", who, (bool(rm) and min(rm) < first) or absent,
                       "%s is written over what an earlier build left" % k, o)
                ctx.ob("no-stale-files", who, all(i < first for i in rm if fx[i][1] == d), "removes what it has just written", o)
        for k in keys:
            for o in tool.cli([k]):
                ctx.ob("finishes", C(k), o.status == "ok", "fails: %s" % o.exc, o)
                confined(o, C(k), [k])
                fresh(o, C(k), [k])
        for o in tool.cli(""):
            confined(o, C("all"), keys)
            fresh(o, C("all"), keys)
            ctx.ob("finishes", C("all"), o.status == "ok", "fails: %s" % o.exc, o)
        if len(keys) >= 2:
            for o in tool.cli(keys[:2]):
                confined(o, C("two"), keys[:2])
                fresh(o, C("two"), keys[:2])
        for o in tool.cli(["clean"]):
            fx = touches(o)
            link = any(l.op == "fs.islink" and v for l, v in o.facts.order)
            if link and o.status != "ok" and not fx:
                continue             # refuses to remove what a link leads to
            ctx.ob("clean", C("clean"), o.status == "ok" and all(
                e.op in (("rmtree", "remove") if link else ("rmtree",)) and tool.path(o, e.dst) == top for e in fx) and len(fx) <= 1,
                lambda: "clean does %s" % [(e.op, str(e.dst)) for e in fx], o)
            gone = any(l.op in ("fs.isdir", "fs.exists") and not v for l, v in o.facts.order)
            ctx.ob("clean", C("clean"), len(fx) == 1 or gone, "clean leaves the build directory", o)
        for argv in ([x], [keys[0], x], [x, keys[0]], [x, y], [x, "clean"]):
            pre = unknown + ([(eq(y, k), False) for k in keys + ["clean"]] if y in argv else [])
            for o in tool.cli(argv, pre):
                ctx.ob("unknown-name", C("unknown"), not touches(o), lambda: "an unknown contract name leads to %s of %s" % (
                    touches(o)[0].op, show(T(touches(o)[0].dst))), o)
        # the archive writer only touches the directory it is given
        d = sym("arg.output", "str", True)
        st = tool.writer.ns["ZipWriter"]

        def body(ip):
            w = ip.call(st, [])
            b = ip.call(tool.builder.ns["Builder"], [tool.src, ListVal(keys[:1], ip.birth())])
            ip.call(ip.getattr(b, "build"), [w])
            ip.call(ip.getattr(w, "store_to_file"), [d])
        for o in tool.explore("ZipWriter().store_to_file(dir)", body):
            fx = touches(o)
            members = [N(e.dst) for e in o.eff("fs") if e.op == "zipwrite"]
            n = len([e for e in fx if e.op != "extract"])
            got = [N(e.src) for e in fx if e.op == "extract"]
            ctx.ob("archive-confined", "ZipWriter.store_to_file", o.status == "ok" and all(
                e.op in ("rmtree", "extract", "mkdir") and o.facts.same(e.dst, d) for e in fx) and
                all(e.op == "extract" for e in fx[n:]) and members and
                (got == [None] or sorted(map(str, got)) == sorted(map(str, members))),
                lambda: "does %s" % [(e.op, show(T(e.dst))) for e in fx][:6], o)
            gone = [e.op for e in fx if o.facts.same(e.dst, d)][:1] == ["rmtree"] or any(
                l.op in ("fs.isdir", "fs.exists") and not v and o.facts.same(l.args[0], d) for l, v in o.facts.order)
            ctx.ob("no-stale-files", "ZipWriter.store_to_file", gone, "extracts over what was there before", o)

        def body2(ip):
            w = ip.call(tool.writer.ns["FileWriter"], [d])
            return ip.call(ip.getattr(w, "clean"), [])
        for o in tool.explore("FileWriter(dir).clean()", body2):
            fx = touches(o)
            there = [v for l, v in o.facts.order if l.op in ("fs.isdir", "fs.exists")]
            ctx.ob("clean", "FileWriter.clean", o.status == "ok" and all(e.op == "rmtree" and o.facts.same(e.dst, d) for e in fx) and
                   N(o.ret) is bool(fx) and bool(fx) == (True in there), "clean does not report or remove exactly its directory", o)
    ctx.floor("confined", 100)
    ctx.floor("no-stale-files", 20)
    ctx.floor("clean", 4)
    ctx.floor("unknown-name", 4)


# ---------------------------------------------------------------------------------------- C34
BAD_NAMES = {"open", "eval", "exec", "compile", "__import__", "input", "globals", "locals", "id", "hash", "float", "complex",
             "breakpoint", "vars"}
# besides the ICON API: helpers of the standard library without state, clock, randomness or access to the machine
# (lru_cache and friends are judged by what they keep, in no-memory-state)
PURE_MODULES = {"iconservice", "__future__", "abc", "typing", "functools", "itertools", "operator", "collections",
                "contextlib", "enum", "dataclasses", "json", "math", "string", "re", "copy", "types", "numbers"}


def code_modules(ctx):
    """modules that are part of some deployed contract"""
    return sorted((m for m in ctx.P.ip.modules.values() if getattr(m, "path", None) and m.name.startswith("contracts")),
                  key=lambda m: m.name)


def memory_only(v, depth=0):
    """the value carries no chain data: storage handles, code, and structures of them"""
    v = N(v)
    if isinstance(v, (ClassVal, FuncVal, BuiltinVal, ModuleVal, DbObj, DbVal, OpaqueVal)):
        return True
    if isinstance(v, Term):
        return is_const(v)
    if isinstance(v, InstVal):
        return depth < 4 and all(memory_only(x, depth + 1) for x in v.attrs.values())
    if isinstance(v, DictVal):
        return all(memory_only(x, depth + 1) for _, x in v.pairs)
    if isinstance(v, (tuple, ListVal)):
        return all(memory_only(x, depth + 1) for x in (v.items if isinstance(v, ListVal) else v))
    return isinstance(v, (str, bytes, int, type(None)))


def kept(x):
    """chain data or mutable flags that an effect leaves in the process's memory, None if it leaves none"""
    w = x.what
    v = N(w[1] if isinstance(w, tuple) and len(w) == 2 else w)
    if isinstance(w, tuple) and len(w) == 2 and isinstance(v, (str, bytes, int)) or not memory_only(v):
        return show(T(v)) if isinstance(v, (Term,) + SCALARS) else repr(v)[:120]
    return None


def c34(ctx):
    P = ctx.P
    for c in P.contracts:
        for n in ctx.contract(c).entries:
            ctx.outs(c, n)
    for m in code_modules(ctx):
        path = os.path.join(P.root, m.path) if not os.path.isabs(m.path) else m.path
        with open(path) as fh:
            text = fh.read()
        tree = ast.parse(text, path)
        rel = os.path.relpath(path, P.root)
        for level, module, names, line in imports(path, text):
            ctx.ob("imports", m.name, level > 0 or module.split(".")[0] in PURE_MODULES,
                   "imports %s, which contracts may not use" % module, where="%s:%d" % (rel, line))
        bound = {a.arg for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args} | \
                {t.id for t in ast.walk(tree) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | \
                {f.name for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
        n0 = len(ctx.violations)
        for x in ast.walk(tree):
            w = "%s:%d" % (rel, getattr(x, "lineno", 0))
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in BAD_NAMES and x.id not in bound:
                ctx.ob("no-forbidden-builtin", "%s:%s" % (m.name, x.id), False, "uses %s" % x.id, where=w)
            elif isinstance(x, ast.Constant) and isinstance(x.value, (float, complex)):
                ctx.ob("no-floating-point", m.name, False, "uses the floating-point number %r" % x.value, where=w)
            elif isinstance(x, (ast.BinOp, ast.AugAssign)) and isinstance(x.op, ast.Div):
                ctx.ob("no-floating-point", m.name, False, "uses floating-point division", where=w)
            elif isinstance(x, (ast.AsyncFunctionDef, ast.Await)):
                ctx.ob("no-forbidden-builtin", m.name, False, "uses coroutines", where=w)
        if len(ctx.violations) == n0:
            ctx.ob("no-floating-point", m.name, True)
            ctx.ob("no-forbidden-builtin", m.name, True)
    for c in P.contracts:
        for n in ctx.contract(c).entries:
            for o in ctx.outs(c, n):
                bad = [x for x in o.effects if x.kind in ("forbidden", "opaque")]
                ctx.ob("no-unmodelled-call", "%s.%s" % (c, n), not bad, lambda: "calls %s" % bad[0].data.get("name"), o,
                       bad[0].where if bad else None)
                for x in o.eff("setorder"):
                    ctx.ob("no-set-order", "%s.%s" % (c, n), False, "depends on the iteration order of a set", o, x.where)
                for x in o.eff("pymut"):
                    k = kept(x)
                    ctx.ob("no-memory-state", "%s.%s" % (c, n), k is None,
                           lambda: "keeps %s in memory between transactions" % k, o, x.where)
                ts = set()
                for e in o.effects:
                    for v in e.data.values():
                        for y in (v.values() if isinstance(v, dict) else (v,)):
                            if isinstance(y, (Term, tuple)):
                                atoms(y, ts)
                f = [t for t in ts if t.ty == "float" or t.op in ("truediv", "id", "hash", "float_of", "now")]
                ctx.ob("deterministic-values", "%s.%s" % (c, n), not f, lambda: "an effect depends on %s" % show(f[0]), o)
    ctx.floor("imports", 30)
    ctx.floor("no-unmodelled-call", 200)
    ctx.floor("deterministic-values", 200)
