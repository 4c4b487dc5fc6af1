"""Drives the abstract interpreter over every entry point of every deployable contract."""
import ast
import json
import os
import time

from . import icon_model as im
from .facts import Infeasible
from .interp import Interp, Run
from .terms import *
from .values import *

MAX_PARTITIONS = 20000
ENTRY_SECONDS = 150
TOTAL_SECONDS = 420
LEN_PARTITIONS = 400


class Outcome:
    """One partition class of one entry point: all executions sharing its facts."""
    __slots__ = ("status", "ret", "facts", "effects", "epoch", "store", "arr", "lines", "funcs",
                 "exc", "where", "contract", "entry", "handles", "reads", "trace")

    def __repr__(self):
        return "<%s %s.%s %s>" % (self.status, self.contract, self.entry, self.exc or "")

    def eff(self, kind, **kw):
        out = []
        for e in self.effects:
            if e.kind == kind and all(e.data.get(k) == v for k, v in kw.items()):
                out.append(e)
        return out

    def path(self):
        return self.facts.describe()


def signature_of(f):
    """the function whose parameters the platform sees (inspect.signature follows functools.wraps)"""
    while getattr(f, "wrapped", None) is not None and isinstance(f.wrapped, FuncVal):
        f = f.wrapped
    return f


class Entry:
    def __init__(self, name, func, cls, defcls):
        self.name, self.func, self.cls, self.defcls = name, func, cls, defcls
        self.external = bool(func.flags.get("external"))
        self.readonly = bool(func.flags.get("external_readonly"))
        self.payable = bool(func.flags.get("payable"))
        self.sig = func = signature_of(func)
        a = func.node.args
        self.params = [p.arg for p in a.args][1:]
        self.anns = {p.arg: ann_name(p.annotation) for p in a.args[1:]}
        nd = len(func.defaults)
        self.defaults = dict(zip(self.params[len(self.params) - nd:], func.defaults)) if nd else {}
        self.returns = ann_name(func.node.returns)

    @property
    def kind(self):
        if self.name in ("on_install", "on_update", "fallback"):
            return self.name
        return "readonly" if self.readonly else "write"


def ann_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Constant):
        return str(n.value)
    if isinstance(n, ast.Attribute):
        return n.attr
    return None


def param_sym(name, ann):
    ty = im.TY.get(ann, "any")
    return sym("arg." + name, ty, ty in ("int", "bool", "str"))


class Contract:
    def __init__(self, pkg, name, cls, module):
        self.pkg, self.name, self.cls, self.module = pkg, name, cls, module
        self.entries = {}
        self.immutable = frozenset()
        self.outcomes = {}
        for attr in sorted({a for c in cls.mro for a in c.ns if isinstance(a, str)}):
            f, c = cls.lookup(attr)
            if not isinstance(f, FuncVal):
                continue
            if f.flags.get("external") or (attr == "fallback" and f.flags.get("payable")) \
                    or attr in ("on_install", "on_update"):
                self.entries[attr] = Entry(attr, f, cls, c)
        self.abstract = sorted(a for a in {a for c in cls.mro for a in c.ns if isinstance(a, str)}
                               if isinstance(cls.lookup(a)[0], FuncVal)
                               and cls.lookup(a)[0].flags.get("__isabstractmethod__"))


class Program:
    def __init__(self, root="/repo", merge=False):
        self.root = root
        self.ip = Interp(root, merge)
        self.ip.implementers = self.implementers
        self.contracts = {}
        self.bounded = []
        self.deadline = time.time() + TOTAL_SECONDS
        self.stats = {"partitions": 0, "truncated": 0, "infeasible": 0, "failing": 0}
        self.packages = {}
        self.funcs, self.lines = set(), set()
        self._impl = {}
        self._special = {}
        self.load()

    def coverage(self):
        return self.funcs, self.lines

    def modules(self):
        return {m.path for m in self.ip.modules.values() if getattr(m, 'path', None)}

    def load(self):
        base = os.path.join(self.root, "contracts")
        for d in sorted(os.listdir(base)):
            pj = os.path.join(base, d, "package.json")
            if not os.path.isfile(pj):
                continue
            with open(pj) as fh:
                meta = json.load(fh)
            self.packages[d] = meta
            mod = self.ip.load("contracts." + meta["main_file"])
            cls = mod.ns.get(meta["main_score"])
            if not isinstance(cls, ClassVal):
                raise Unsupported("main_score %s not found in %s" % (meta["main_score"], meta["main_file"]))
            self.contracts[meta["main_score"]] = Contract(d, meta["main_score"], cls, mod)

    def implementers(self, iface, mname):
        key = (iface, mname)
        if key in self._impl:
            return self._impl[key]
        out = []
        abcs = [c for c in iface.mro if c is not iface and c.name not in ("object", "ABC", "InterfaceScore")] \
            if iface is not None else []
        if abcs:
            for n, c in self.contracts.items():
                if any(c.cls.is_sub(a) for a in abcs[:1]):
                    e = c.entries.get(mname)
                    if e is not None and e.external:
                        out.append((n, e.func))
                    else:
                        out = [x for x in out]
        else:
            for n, c in self.contracts.items():
                e = c.entries.get(mname)
                if e is not None and e.external:
                    out.append((n, e.func))
        self._impl[key] = out
        return out

    # ------------------------------------------------------------------ exploring
    def explore(self, body, contract="", entry="", install=False, immutable=frozenset(), msg_value=0,
                split_lens=(1, 2, 3), presets=(), limit=MAX_PARTITIONS, sink=None, soft=False,
                budget=ENTRY_SECONDS):
        """body(ip, run) -> return value.  Enumerates all partitions; sink(outcome) -> True stops early.
        soft: past the partition or time bound keep what was enumerated and record that it is not everything."""
        ip = self.ip
        work = [[]]
        outs = []
        t0 = time.time()
        ip.split_lens = list(split_lens)
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if soft and n > 40 and (n > limit or time.time() - t0 > budget or time.time() > self.deadline):
                self.bounded.append("%s.%s (list lengths %s): first %d partitions" % (
                    contract, entry, ",".join(map(str, split_lens)), n - 1))
                break
            if n > limit and not soft:
                raise Unsupported("partition bound exceeded in %s.%s" % (contract, entry))
            r = Run(prefix)
            r.install, r.immutable, r.msg_value = install, immutable, msg_value
            ip.run, ip.depth, ip.cur = r, 0, []
            status, ret, exc, where = "ok", None, None, None
            try:
                for lit, v in presets:
                    r.facts.assume(lit, v)
                ret = body(ip, r)
            except AbsRaise as e:
                status, exc, where = "fail", e.exc.cls.name, e.where
            except Infeasible:
                status = "infeasible"
            except Truncated as e:
                status, where = "truncated", "%s %s" % (e, ip.where())
            finally:
                for o, attr, val in reversed(r.undo):
                    setattr(o, attr, val)
                ip.run = None
            work.extend(r.alts)
            self.funcs |= r.funcs
            self.lines |= r.lines
            if status == "infeasible":
                self.stats["infeasible"] += 1
                continue
            self.stats["partitions"] += 1
            if status == "truncated":
                self.stats["truncated"] += 1
            if status == "fail":
                self.stats["failing"] += 1
            o = Outcome()
            o.status, o.ret, o.exc, o.where = status, ret, exc, where
            o.facts, o.effects, o.epoch, o.store, o.arr = r.facts, r.effects, r.epoch, r.store, r.arr
            o.lines, o.funcs, o.handles, o.reads, o.trace = r.lines, r.funcs, r.handles, r.reads, r.trace
            o.contract, o.entry = contract, entry
            outs.append(o)
            if sink is not None and sink(o):
                break
        return outs

    def presets(self):
        return [(eq(im.SELF, im.ZERO), False), (eq(im.SENDER, im.ZERO), False)]

    def new_instance(self, ip, r, cls):
        r.phase = "construct"
        inst = InstVal(cls, ip.birth())
        init, _ = cls.lookup("__init__")
        ip.call(ip.bind(init, inst, cls), [im_db(ip)])
        r.phase = "entry"
        return inst

    def run_entry(self, cname, ename, immutable=None, args=None, split_lens=(1, 2, 3), extra=(), before=None,
                  limit=MAX_PARTITIONS, budget=ENTRY_SECONDS):
        c = self.contracts[cname]
        e = c.entries[ename]
        imm = c.immutable if immutable is None else immutable
        args = args if args is not None else {p: param_sym(p, e.anns[p]) for p in e.params}

        def body(ip, r):
            ip.intercepts[:] = [formula_hook]
            inst = self.new_instance(ip, r, c.cls)
            if before:
                before(ip, r, inst)
            return ip.call(ip.getattr(inst, ename), [], dict(args))
        mv = im.VALUE if e.payable else 0
        return self.explore(body, cname, ename, install=ename == "on_install", immutable=imm, msg_value=mv,
                            split_lens=split_lens, presets=self.presets() + list(extra), soft=True, limit=limit, budget=budget)

    def explore_entry(self, cname, ename, args, presets):
        """outcomes of an entry point for given argument terms under given facts (cached)"""
        key = (cname, ename, tuple(sorted((k, T(v).id) for k, v in args.items())),
               tuple(sorted({(l.id, v) for l, v in presets})))
        if key not in self._special:
            self.compute_immutable(self.contracts[cname])
            self._special[key] = self.run_entry(cname, ename, args={k: N(T(v)) for k, v in args.items()},
                                                extra=list(presets))
        return self._special[key]

    def outcomes(self, cname, ename, **kw):
        c = self.contracts[cname]
        key = (ename, tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key not in c.outcomes:
            self.compute_immutable(c)
            c.outcomes[key] = self.run_entry(cname, ename, **kw)
        return c.outcomes[key]

    def outcomes_per_length(self, cname, ename, lens):
        """outcomes for every length of the symbolic list an entry splits, each length with its own bound, so that
        an exponential number of partitions for long lists does not take the short ones' completeness away"""
        c = self.contracts[cname]
        key = (ename, "per-length", tuple(lens))
        if key not in c.outcomes:
            self.compute_immutable(c)
            outs, incomplete, left = [], set(), ENTRY_SECONDS
            for i, n in enumerate(lens):
                t, b = time.time(), len(self.bounded)
                outs += self.run_entry(cname, ename, split_lens=(n,), budget=max(2, left / 2),
                                       limit=60 if incomplete else LEN_PARTITIONS)
                left -= time.time() - t
                if len(self.bounded) > b:
                    incomplete.add(n)
            c.outcomes[key] = outs, incomplete
        return c.outcomes[key]

    def compute_immutable(self, c):
        if getattr(c, "imm_done", False):
            return
        c.imm_done = True
        written, seen = set(), set()
        for n, e in c.entries.items():
            if n == "on_install":
                continue
            outs = self.run_entry(c.name, n, immutable=frozenset())
            for o in outs:
                for h, _ in o.handles:
                    seen.add(im.fam_of(h)[0][:3])
                if o.status == "truncated":
                    pass
                for x in o.effects:
                    if x.kind in ("write", "arr"):
                        written.add(x.fam[:3])
        c.written = written
        c.immutable = frozenset(f for f in seen if f not in written)


def im_db(ip):
    d = DbVal(())
    d.birth = ip.birth()
    return d


DOMAIN = ("supply", "connector_balance", "connector_weight", "sell_amount", "from_connector_balance",
          "from_connector_weight", "to_connector_balance", "to_connector_weight")


def formula_hook(ip, f, args, kwargs):
    """Price formulas are analysed on their own (C32/C33); inside contracts they are pure functions."""
    if ip.run is None or not args or not isinstance(args[0], InstVal):
        return NotImplemented
    o = args[0]
    if not o.cls.is_sub_name("ABCFormula"):
        return NotImplemented
    if f.name.startswith("_"):
        return NotImplemented
    b = ip.bind_args(signature_of(f), args, kwargs)
    names = [p.arg for p in signature_of(f).node.args.args][1:]
    # it answered, so its arguments are inside its domain (decided by C32)
    fs = ip.run.facts
    for n in names:
        v = N(b[n])
        if isinstance(v, Term) and v.ty == "int" and n in DOMAIN:
            lits = [ge0(sub(v, 1))]
            if n.endswith("weight"):
                lits.append(ge0(sub(1000000, v)))
            if n == "sell_amount" and "supply" in b:
                lits = [ge0(sub(N(b["supply"]), v))]
            for l in lits:
                if isinstance(l, Term) and fs.decide(l) is None:
                    fs.assume(l, True)
    return mk("formula", (f.name,) + tuple(ip.term_of(b[n]) for n in names), "int", True)
