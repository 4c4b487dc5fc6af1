"""C32, C33: the price formula.

The repository's formula and the reference in ref_formula.py (tables recomputed from their mathematical
definitions) are interpreted symbolically; on every path of the repository's function the reference, under the
facts of that path, must give the same result.  Numeric kernels (logarithms, exponentials, table search) are first
matched with repository functions *by behaviour*; a matched kernel is an uninterpreted function afterwards, an
unmatched one is inlined on both sides."""
import ast
import os
import time
from decimal import Decimal, ROUND_CEILING, ROUND_FLOOR, getcontext
from itertools import permutations
from math import factorial

from .base import *
from ..facts import Infeasible
from ..interp import Env
from ..values import ModuleVal

HERE = os.path.dirname(os.path.abspath(__file__))
PUBLIC = {
    "calculate_purchase_return": ("supply", "connector_balance", "connector_weight", "deposit_amount"),
    "calculate_sale_return": ("supply", "connector_balance", "connector_weight", "sell_amount"),
    "calculate_cross_connector_return": ("from_connector_balance", "from_connector_weight",
                                         "to_connector_balance", "to_connector_weight", "amount"),
}
MAXW = 1000000


# ---------------------------------------------------------------- tables from their definitions
def tables():
    getcontext().prec = 100
    D = Decimal
    F = 1 << 127
    U = (1 << 256) - 1
    t = {"K_FIXED_1": F, "K_MAX_NUM": F << 2}

    def floor(d):
        return int(d.to_integral_exact(rounding=ROUND_FLOOR))
    log2 = D((1 << 129) - 1).ln() / D(2).ln()
    t["K_LN2_NUM"] = U // floor(log2 * F)
    t["K_LN2_DEN"] = int((D(t["K_LN2_NUM"]) / D(2).ln()).to_integral_exact(rounding=ROUND_CEILING))
    # logarithm: powers e^(1/2^n), Taylor series of log(1+y)
    t["K_OPT_LOG_MAX"] = int(F * D(1).exp())
    t["K_LOG_HI"] = tuple((F >> n, int(F * (D(1) / 2 ** n).exp())) for n in range(1, 9))
    t["K_LOG_LO"] = tuple((F * (2 * n + 2) // (2 * n + 1), F * (2 * n + 2)) for n in range(8))
    # exponential: powers e^(2^n), Taylor series of e^y
    t["K_EXP_MOD"] = F >> 3
    t["K_OPT_EXP_MAX"] = F << 4
    t["K_EXP_LO"] = tuple(factorial(20) // factorial(i) for i in range(2, 21))
    t["K_EXP_LO_DEN"] = factorial(20)
    hi = []
    top = int(D(2 ** -3).exp() * F) - 1
    for n in range(8):
        cur = D(2 ** (n - 3)).exp()
        den = int(U / (cur * top))
        num = int(den * cur)
        top = top * num // den
        hi.append(((F << (n + 4)) >> 7, num, den))
    t["K_EXP_HI"] = tuple(hi[:7])
    # general exponential and the largest exponent it supports per precision
    co = [factorial(33) // factorial(i) for i in range(1, 34)]
    t["K_GENERAL_EXP"] = tuple(co[1:])
    t["K_GENERAL_EXP_DEN"] = co[0]

    def fits(x, p):
        xi, res = x, 0
        for c in co[1:]:
            xi = xi * x
            if xi > U:
                return False
            xi >>= p
            if xi * c > U:
                return False
            res += xi * c
            if res > U:
                return False
        res = res // co[0] + x
        return res <= U and res + (1 << p) <= U
    arr = []
    for p in range(128):
        lo, h = 0, U
        while lo + 1 < h:
            mid = (lo + h) // 2
            if fits(mid, p):
                lo = mid
            else:
                h = mid
        m = h if fits(h, p) else lo
        arr.append(((m + 1) << (127 - p)) - 1)
    t["K_MAX_EXP"] = tuple(arr)
    t["K_POSITIONS"] = tuple(range(127, 31, -1))
    return t


KERNELS = {
    # name: (parameters, domain (lower, upper bound of the first parameter), likely repository name)
    "floor_log2": (("n",), (1, 1 << 256), "_floor_log2"),
    "position": (("x",), None, "_find_position_in_max_exp_array"),
    "general_exp": (("x", "precision"), None, "_general_exp"),
    "optimal_log": (("x",), None, "_optimal_log"),
    "optimal_exp": (("x",), None, "_optimal_exp"),
    "general_log": (("x",), (None, 1 << 256), "_general_log"),
}
MAX_DEPTH = 110
BUDGET = 60         # seconds per comparison before branches are joined instead
LIMIT = {False: 1500, True: 4000}


def within(facts, v, dom):
    lo, hi = dom
    if lo is not None and facts.decide(ge(v, lo)) is not True:
        return False
    if hi is None or facts.decide(lt(v, hi)) is True:
        return True
    # floor(P / d) <= max(P, -1) for d >= 1
    if isinstance(v, Term) and v.op == "fdiv" and facts.decide(ge(N(v.args[1]), 1)) is True:
        return within(facts, N(v.args[0]), (None, hi))
    return False


class Formula:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        ip = self.ip = ctx.P.ip
        path = os.path.join(HERE, "ref_formula.py")
        m = ModuleVal("ref_formula", path)
        m.is_pkg = False
        m.ns["__name__"] = "ref_formula"
        self.tab = tables()
        m.ns.update(self.tab)
        env = Env(None, m, "module")
        env.vars = m.ns
        with open(path) as fh:
            tree = ast.parse(fh.read())
        ip.exec_block(tree.body, env)
        self.ref = m.ns
        self.paths = 0
        self.inst = self.find()
        self.matched = {}         # kernel -> (FuncVal, argument permutation)
        self.why = {}
        self.merging = False

    def find(self):
        conv = self.ctx.contract("Converter")
        found = []
        mods = [conv.module] + [m for m in self.ip.modules.values() if m is not conv.module]
        for m in mods:
            for v in m.ns.values():
                if isinstance(v, InstVal) and v.cls.is_sub_name("ABCFormula") and v not in found:
                    found.append(v)
        if not found:
            raise Broken("no price formula object found")
        self.all = found
        return found[0]

    # -------------------------------------------------------------- calls
    def method(self, name):
        f, c = self.inst.cls.lookup(name)
        if not isinstance(f, FuncVal):
            return None
        return f

    def static(self, f):
        return bool(f.flags.get("staticmethod"))

    def hook(self, skip=()):
        by_func = {id(self.ref[k].node): (k, None) for k in self.matched}
        for k, (f, perm) in self.matched.items():
            by_func[id(f.node)] = (k, perm)
        skip = {id(x.node) for x in skip}

        def h(ip, f, args, kwargs):
            hit = by_func.get(id(f.node))
            if hit is None or id(f.node) in skip:
                return NotImplemented
            k, perm = hit
            names = [a.arg for a in f.node.args.args]
            b = ip.bind_args(f, list(args), dict(kwargs))
            vals = [b[n] for n in names]
            if perm is not None:
                if len(names) > len(KERNELS[k][0]):
                    vals = vals[len(names) - len(KERNELS[k][0]):]
                vals = [vals[i] for i in perm]
            if not all(isinstance(N(v), (int, Term)) for v in vals):
                return NotImplemented
            if all(isinstance(N(v), int) for v in vals):
                return NotImplemented
            dom = KERNELS[k][1]
            if dom is not None and not within(ip.run.facts, N(vals[0]), dom):
                return NotImplemented
            return mk("kernel", (k,) + tuple(T(N(v)) for v in vals), "int", True)
        return h

    def params(self, f):
        names = [a.arg for a in f.node.args.args]
        return names

    def run(self, f, args, presets=(), skip=(), sink=None, name=""):
        """all partitions of calling FuncVal f (a method of the formula, or a plain function) with args"""
        ip = self.ip
        h = self.hook(skip)
        meth = f.env is not None and f.name in {a for c in self.inst.cls.mro for a in c.ns} and \
            self.inst.cls.lookup(f.name)[0] is f

        def body(ip_, r):
            ip.intercepts[:] = [h]
            r.phase = "entry"
            g = ip.getattr(self.inst, f.name) if meth else f
            return ip.call(g, list(args))
        saved = (ip.merge, ip.max_symbolic_loop)
        ip.merge, ip.max_symbolic_loop = self.merging, 600
        try:
            outs = self.P.explore(body, "formula", name or f.name, presets=presets, limit=LIMIT[self.merging], sink=sink)
        finally:
            ip.merge, ip.max_symbolic_loop = saved
            ip.intercepts[:] = []
        self.paths += len(outs)
        return outs

    # -------------------------------------------------------------- comparison
    def compare(self, f, fargs, g, gargs, presets=(), skip=(), each=None):
        """None, or a description of a path on which f and the reference g differ.  Raises Unsupported when the
        number of paths exceeds the bound."""
        bad = []

        def sink(o):
            if o.status == "truncated":
                raise Unsupported("path bound in %s: %s" % (f.qualname, o.where))
            if len(o.trace) > MAX_DEPTH:
                raise Unsupported("more than %d branchings in %s" % (MAX_DEPTH, f.qualname))

            def sub(r):
                if r.status == "truncated":
                    raise Unsupported("path bound in the reference of %s: %s" % (f.qualname, r.where))
                if len(r.trace) > MAX_DEPTH or time.time() > self.deadline:
                    raise Unsupported("too many paths in the reference of %s" % f.qualname)
                good = r.status == o.status and (o.status != "ok" or self.equal(r, o.ret, r.ret))
                if each:
                    each(o, r, good)
                if not good:
                    bad.append((o, r))
                return not good
            self.run_ref(g, gargs, list(o.facts.order), sub, skip)
            return bool(bad)
        self.run(f, fargs, presets, skip, sink)
        return bad[0] if bad else None

    def run_ref(self, g, gargs, presets, sink, skip):
        ip = self.ip
        saved = ip.run, ip.depth, list(ip.cur), list(ip.intercepts)
        try:
            self.run(g, gargs, presets, skip, sink, name="reference." + g.name)
        finally:
            ip.run, ip.depth, ip.cur = saved[0], saved[1], saved[2]
            ip.intercepts[:] = saved[3]

    def equal(self, o, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.equal(o, x, y) for x, y in zip(a, b))
        a, b = N(a), N(b)
        if not all(isinstance(x, (int, Term)) for x in (a, b)):
            return False
        return o.facts.same(a, b) or o.facts.same(split_div(a), split_div(b))

    def settle(self, f, fargs, g, gargs, presets=(), skip=(), each=None):
        """compare with path splitting; when there are too many paths, with joined branches"""
        last = None
        for self.merging in (False, True):
            self.deadline = time.time() + BUDGET
            try:
                return self.compare(f, fargs, g, gargs, presets, skip, each)
            except Unsupported as e:
                last = e
            finally:
                self.merging = False
        raise last

    # -------------------------------------------------------------- kernels
    def candidates(self, k):
        pars, dom, hint = KERNELS[k]
        seen, out = set(), []
        pool = []
        for c in self.inst.cls.mro:
            pool += [v for v in c.ns.values() if isinstance(v, FuncVal)]
        for m in self.ip.modules.values():
            if m is self.inst.cls.module:
                pool += [v for v in m.ns.values() if isinstance(v, FuncVal) and v.module is m]
        for f in pool:
            if id(f) in seen or f.name in PUBLIC:
                continue
            seen.add(id(f))
            n = len(f.node.args.args)
            is_m = self.inst.cls.lookup(f.name)[0] is f and not self.static(f)
            if n - (1 if is_m else 0) == len(pars):
                out.append(f)
        out.sort(key=lambda f: (f.name != hint, f.name in {h for _, _, h in KERNELS.values()}))
        return out

    def match(self, k):
        pars, dom, hint = KERNELS[k]
        syms = [sym("k." + p, "int", True) for p in pars]
        presets = []
        if dom and dom[0] is not None:
            presets.append((ge(syms[0], dom[0]), True))
        if dom and dom[1] is not None:
            presets.append((lt(syms[0], dom[1]), True))
        for f in self.candidates(k):
            for perm in permutations(range(len(pars))):
                # repository argument i is reference argument perm^-1
                fargs = [None] * len(pars)
                for ref_i, rep_i in enumerate(perm):
                    fargs[rep_i] = syms[ref_i]
                try:
                    d = self.settle(f, fargs, self.ref[k], syms, presets, skip=(f, self.ref[k]))
                except Unsupported as e:
                    d = e
                if d is None:
                    self.matched[k] = (f, perm)
                    return True
                if f.name == hint and perm == tuple(range(len(pars))):
                    self.why[k] = (f, d)
                if f.name != hint and isinstance(d, Unsupported):
                    break
        return False

    def match_all(self):
        for k in ("floor_log2", "position", "general_exp", "optimal_log", "optimal_exp", "general_log"):
            self.match(k)


    def lookup_public(self, name):
        f = self.method(name)
        if f is None:
            raise Broken("the price formula offers no %s" % name)
        n = len(f.node.args.args) - (0 if self.static(f) else 1)
        if n != len(PUBLIC[name]):
            self.ctx.ob("formula-interface", name, False, "%s takes %d arguments, expected %d" % (name, n, len(PUBLIC[name])),
                        where=self.where(f))
            return None
        return f

    def where(self, f):
        return "%s:%d" % (os.path.relpath(f.module.path, self.P.root) if f.module.path else f.module.name, f.node.lineno)


def args_of(name):
    return [sym("arg." + p, "int", True) for p in PUBLIC[name]]


def start(ctx):
    F = Formula(ctx)
    ctx.ob("formula-instance", F.inst.cls.name, len({id(x.cls) for x in F.all}) == 1,
           "several different price formulas are in use")
    F.match_all()
    return F


def explain(F, o, r):
    a = "fails with %s" % o.exc if o.status == "fail" else "returns %s" % shorten(o.ret)
    b = "fails" if r.status == "fail" else "returns %s" % shorten(r.ret)
    return "on some inputs it %s where the specified algorithm %s" % (a, b)


def shorten(v):
    s = ", ".join(show(T(N(x))) if isinstance(N(x), SCALARS + (Term,)) else str(x) for x in (v if isinstance(v, tuple) else (v,)))
    return s if len(s) < 300 else s[:297] + "..."


# ---------------------------------------------------------------- C33
def c33(ctx):
    F = start(ctx)
    for k, (f, perm) in sorted(F.matched.items()):
        ctx.ob("kernel", "%s = %s" % (f.qualname, k), True)
    for name in PUBLIC:
        f = F.lookup_public(name)
        if f is None:
            continue
        a = args_of(name)

        def each(o, r, good):
            if good:
                ctx.ob("exact-result", name, True, o=o)
        d = F.settle(f, a, F.ref[name], a, each=each)
        if d is not None:
            o, r = d
            ctx.ob("exact-result", "%s.%s" % (F.inst.cls.name, name), False, explain(F, o, r), o, where=F.where(f))
    if ctx.violations:
        for k, (f, d) in F.why.items():
            if k not in F.matched and isinstance(d, tuple):
                ctx.ob("kernel", f.qualname, False, explain(F, *d), d[0], where=F.where(f))
    ctx.parts += F.paths
    ctx.notes.append("kernels matched by behaviour: %s" % ", ".join(
        "%s=%s" % (k, f.qualname) for k, (f, p) in sorted(F.matched.items())))
    ctx.floor("exact-result", 20)


# ---------------------------------------------------------------- C32
def c32(ctx):
    F = start(ctx)
    hints = {h for k, (_, _, h) in KERNELS.items() if k not in F.matched}
    nodes = {id(f.node) for f, _ in F.matched.values()}

    def opaque(ip, f, args, kwargs):
        # a numeric helper (its behaviour is C33's subject) is some integer function of its arguments
        if (f.name in hints or id(f.node) in nodes) and f.module is F.inst.cls.module:
            b = ip.bind_args(f, list(args), dict(kwargs))
            vals = [N(v) for n, v in b.items() if isinstance(N(v), (int, Term))]
            return mk("kernel", (f.name,) + tuple(T(v) for v in vals), "int", True)
        return NotImplemented
    base_hook = F.hook

    def hook(skip=()):
        h = base_hook(skip)

        def both(ip, f, args, kwargs):
            r = h(ip, f, args, kwargs)
            return opaque(ip, f, args, kwargs) if r is NotImplemented else r
        return both
    F.hook = hook

    def outs(f, args, presets=()):
        last = None
        for F.merging in (False, True):
            try:
                res = F.run(f, args, presets)
                if any(o.status == "truncated" for o in res):
                    raise Unsupported("path bound in %s" % f.qualname)
                return res
            except Unsupported as e:
                last = e
            finally:
                F.merging = False
        raise last

    maxn = F.tab["K_MAX_NUM"]
    for name, pars in PUBLIC.items():
        f = F.lookup_public(name)
        if f is None:
            continue
        a = args_of(name)
        v = dict(zip(pars, a))
        qn = "%s.%s" % (F.inst.cls.name, name)
        if name == "calculate_cross_connector_return":
            pos = ["from_connector_balance", "to_connector_balance"]
            wts = ["from_connector_weight", "to_connector_weight"]
            base_n = add(v["from_connector_balance"], v["amount"])
        else:
            pos, wts = ["supply", "connector_balance"], ["connector_weight"]
            base_n = v["supply"] if name == "calculate_sale_return" else add(v["deposit_amount"], v["connector_balance"])
        dom = [("%s is positive" % p, gt(v[p], 0)) for p in pos] + \
              [("%s is at least 1" % w, gt(v[w], 0)) for w in wts] + \
              [("%s is at most 1000000 (100%%)" % w, le(v[w], MAXW)) for w in wts]
        if name == "calculate_sale_return":
            dom.append(("no more than the supply is sold", le(v["sell_amount"], v["supply"])))
        for o in outs(f, a):
            if o.status == "ok":
                for label, lit in dom:
                    ctx.ob("domain", "%s: %s" % (qn, label), o.facts.decide(lit), "answers although this is not established", o,
                           where=F.where(f))
            else:
                good = any(o.facts.decide(lit) is False for _, lit in dom) or o.facts.decide(ge(base_n, maxn)) is True
                ctx.ob("domain-exact", qn, good, lambda: "refuses (%s) arguments inside the documented domain" % o.exc, o,
                       where=F.where(f))
        inside = [(lit, True) for _, lit in dom]
        special = []
        if name == "calculate_purchase_return":
            special = [("nothing deposited", [eq(v["deposit_amount"], 0)], 0),
                       ("weight 100%", [eq(v["connector_weight"], MAXW)],
                        floordiv(mul(v["supply"], v["deposit_amount"]), v["connector_balance"]))]
        elif name == "calculate_sale_return":
            special = [("nothing sold", [eq(v["sell_amount"], 0)], 0),
                       ("entire supply sold", [eq(v["sell_amount"], v["supply"])], v["connector_balance"]),
                       ("weight 100%", [eq(v["connector_weight"], MAXW), notl(eq(v["sell_amount"], v["supply"]))],
                        floordiv(mul(v["connector_balance"], v["sell_amount"]), v["supply"]))]
        else:
            special = [("equal weights", [eq(v["from_connector_weight"], v["to_connector_weight"])],
                        floordiv(mul(v["to_connector_balance"], v["amount"]), add(v["from_connector_balance"], v["amount"])))]
        for label, lits, want in special:
            n = 0
            for o in outs(f, a, inside + [(l, True) for l in lits]):
                n += 1
                got = N(o.ret) if o.status == "ok" and isinstance(N(o.ret), (int, Term)) else None
                ctx.ob("special-case", "%s: %s" % (qn, label),
                       got is not None and special_equal(o, got, want),
                       lambda: "%s instead of %s" % ("fails with %s" % o.exc if o.status != "ok" else "returns " + shorten(o.ret),
                                                     show(T(want))), o, where=F.where(f))
            if not n:
                raise Broken("no path for the special case %s of %s" % (label, qn))
        # the special cases and the domain leave the general case open: it answers
        gen = [o for o in outs(f, a, inside + [(lt(base_n, maxn), True)]) if o.status == "ok"]
        ctx.ob("general-case", qn, bool(gen), "no general case", where=F.where(f))
    ctx.parts += F.paths
    ctx.floor("domain", 20)
    ctx.floor("special-case", 5)


def special_equal(o, got, want):
    if o.facts.same(got, want):
        return True
    # 0 // x and x*y // y with the facts of the path (divisors are positive inside the domain)
    c = N(o.facts.canon(T(want)))
    g = N(o.facts.canon(T(got)))
    for x, y in ((c, g), (g, c)):
        if isinstance(x, Term) and x.op == "fdiv" and N(x.args[0]) == 0 and y == 0:
            return True
        if isinstance(x, Term) and x.op == "fdiv" and o.facts.decide(gt(N(x.args[1]), 0)) is True:
            if to_poly(N(x.args[0])) == pmul(to_poly(y), to_poly(N(x.args[1]))):
                return True
    return False
