"""Flow- and path-sensitive abstract interpreter over the repository's syntax trees.

Works on `ast` of /repo's current source.  Values are value numbers (terms.py), branch conditions
become facts on a partition (facts.py), and everything observable (storage writes, event logs,
inter-contract calls, ICX transfers) becomes an ordered effect list.  No repository code is
imported or executed.
"""
import ast
import copy
import os

from .terms import *
from .facts import Facts, Infeasible
from .values import *

MAX_SYMBOLIC_LOOP = 3
BINOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Div": "truediv", "Mod": "mod",
          "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
          "MatMult": "matmul"}
ORDER = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}
MAX_STEPS = 400000


class Effect:
    __slots__ = ("kind", "data", "epoch", "seq", "where", "nfacts", "guarded")

    def __init__(self, kind, data, epoch, seq, where, nfacts):
        self.kind, self.data, self.epoch, self.seq, self.where, self.nfacts = kind, data, epoch, seq, where, nfacts

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "%s%r@%s" % (self.kind, self.data, self.where)


class Run:
    serial = 0

    def __init__(self, prefix):
        Run.serial += 1
        self.serial = Run.serial
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.facts = Facts()
        self.effects = []
        self.store = {}        # fam -> list of [keys, value, epoch]
        self.arr = {}          # array location -> list of puts
        self.epoch = 0
        self.phase = "construct"
        self.steps = 0
        self.install = False
        self.immutable = ()
        self.try_stack = []
        self.lines = set()
        self.funcs = set()
        self.undo = []
        self.counter = 0
        self.caught = []
        self.handled = []
        self.reads = set()
        self.handles = []
        self.msg_value = 0


class Interp:
    def __init__(self, root, merge=False):
        self.root = root
        self.modules = {}
        self.run = None
        self.merge = merge
        self.loops = 0
        self.max_symbolic_loop = MAX_SYMBOLIC_LOOP
        self.depth = 0
        self.cur = []           # stack of (module, function qualname)
        self.lineno = 0
        self.view_methods = None
        self.intercepts = []    # callables(interp, func, args, kwargs) -> NotImplemented | value
        self.split_lens = [1, 2, 3]
        self.import_errors = []
        self.yield_cache = {}
        self.prelude_ns = {}
        from . import builtins_model, icon_model
        self.builtins = builtins_model.make(self)
        self.icon = icon_model.make(self)
        self.parsed = {}

    # ------------------------------------------------------------ helpers
    def where(self):
        if self.cur:
            m, f = self.cur[-1]
            return "%s:%d (%s)" % (os.path.relpath(m.path, self.root) if m.path else m.name, self.lineno, f)
        return "line %d" % self.lineno

    def unsupported(self, msg):
        raise Unsupported("%s at %s" % (msg, self.where()))

    def effect(self, kind, **data):
        r = self.run
        if r is None:
            return None
        e = Effect(kind, data, r.epoch, len(r.effects), self.where(), len(r.facts.order))
        r.effects.append(e)
        return e

    def fresh(self, label):
        self.run.counter += 1
        return "%s#%d" % (label, self.run.counter)

    # ------------------------------------------------------------ partitioning
    def choose(self, lit):
        lit = N(lit)
        if isinstance(lit, bool):
            return lit
        r = self.run
        if r is None:
            self.unsupported("symbolic branch at import time")
        d = r.facts.decide(lit)
        if d is not None:
            return d
        i = len(r.trace)
        if i < len(r.prefix):
            v = r.prefix[i]
        else:
            v = True
            r.alts.append(list(r.trace) + [False])
        r.trace.append(v)
        r.facts.assume(lit, v)
        return v

    def choose_n(self, options, key=None):
        r = self.run
        i = len(r.trace)
        if i < len(r.prefix):
            v = r.prefix[i]
        else:
            v = 0
            for k in range(1, len(options)):
                r.alts.append(list(r.trace) + [k])
        r.trace.append(v)
        return options[v]

    def may_raise(self, op, excname, *args):
        """An operation that can fail at run time.  Outside a try the failure aborts the
        transaction, so only the non-failing partition continues; inside a try both do."""
        r = self.run
        if r is None:
            return
        lit = mk("ok", (op,) + tuple(T(a) if isinstance(a, SCALARS) else a for a in args), "bool", True)
        if self.catchable(excname):
            if not self.choose(lit):
                self.raise_(excname, "implicit:" + op)
        else:
            r.facts.assume(lit, True)

    def catchable(self, excname):
        cls = self.builtins.get(excname) or self.icon.get(excname)
        for hs in self.run.try_stack:
            for h in hs:
                if h is None or (isinstance(h, ClassVal) and cls.is_sub(h)):
                    return True
        return False

    def raise_(self, excname, *args):
        cls = self.builtins.get(excname) or self.icon.get(excname)
        e = InstVal(cls)
        e.attrs["args"] = tuple(args)
        e.attrs["implicit"] = True
        raise AbsRaise(e, self.where())

    def assume_nonnull(self, t, exc="AttributeError"):
        if isinstance(t, Term) and not t.nonnull:
            lit = eq(t, None)
            r = self.run
            if r is None:
                return
            if self.catchable(exc):
                if self.choose(lit):
                    self.raise_(exc, "None")
            else:
                r.facts.assume(lit, False)

    def truth(self, v):
        v = N(v)
        if isinstance(v, SCALARS):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, ListVal):
            return bool(v.items)
        if isinstance(v, SetVal):
            return bool(v.items)
        if isinstance(v, DictVal):
            return bool(v.pairs)
        if isinstance(v, Term):
            l = self.truth_lit(v)
            return self.settle_count(l) if l.op in ("ge0", "eq0", "not") else self.choose(l)
        if isinstance(v, InstVal):
            f, _ = v.cls.lookup("__bool__")
            if f:
                return self.truth(self.call(BoundVal(f, v), []))
            f, _ = v.cls.lookup("__len__")
            if f:
                return self.truth(self.call(BoundVal(f, v), []))
            return True
        if isinstance(v, DbObj):
            if v.kind == "array":
                return self.truth(self.icon_mod.arr_len(self, v))
            return True
        return True

    def settle_count(self, lit):
        """a comparison of a number of matches (list.count) with a constant: decide as few matches as it takes"""
        neg = lit.op == "not"
        c = lit.args[0] if neg else lit
        if not isinstance(c, Term) or c.op not in ("ge0", "eq0"):
            return self.choose(lit)
        p = dict(to_poly(N(c.args[0])))
        const, inds = p.pop((), 0), []
        for m, k in p.items():
            t = m[0][0]
            if len(m) != 1 or m[0][1] != 1 or t.op != "ite" or t.args[0].op != "eq" or N(t.args[1]) != 1 or \
                    N(t.args[2]) != 0:
                return self.choose(lit)
            inds.append((t.args[0], k))
        while True:
            lo = const + sum(min(0, k) for _, k in inds)
            hi = const + sum(max(0, k) for _, k in inds)
            if c.op == "ge0":
                r = True if lo >= 0 else False if hi < 0 else None
            else:
                r = False if lo > 0 or hi < 0 else True if lo == hi == 0 else None
            if r is not None:
                return r != neg
            x, k = inds.pop(0)
            if self.truth(x):
                const += k

    def truth_lit(self, v):
        if v.ty == "bool":
            return v
        if v.ty == "int":
            return notl(eq0(v))
        if v.ty == "addr":
            return notl(eq(v, None))
        return mk("truthy", (v,), "bool", True)

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def parse(self, path):
        if path not in self.parsed:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.parsed[path] = ast.parse(src, path)
        return self.parsed[path]

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_file(name)
        if path is None:
            if os.path.isdir(os.path.join(self.root, *name.split("."))):
                m = ModuleVal(name)
                self.modules[name] = m
                return m
            raise Unsupported("module %s not found" % name)
        m = ModuleVal(name, path)
        m.is_pkg = os.path.basename(path) == "__init__.py"
        self.modules[name] = m
        m.ns["__name__"] = name
        if getattr(self, "fs", None) is not None:
            m.ns["__file__"] = self.fs.file_of(path)
        env = Env(None, m, "module")
        env.vars = m.ns
        saved = (self.run, self.lineno, self.cur)
        self.run, self.cur = None, self.cur + [(m, "<module>")]
        try:
            self.exec_block(self.parse(path).body, env)
        finally:
            self.run, self.lineno, self.cur = saved
        return m

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        r = self.run
        if r is not None:
            r.steps += 1
            if r.steps > MAX_STEPS:
                raise Truncated("step bound")
            if env.module.path:
                r.lines.add((env.module.path, st.lineno))
        self.lineno = getattr(st, "lineno", self.lineno)
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    # ------------------------------------------------------------ generator bodies
    def yields(self, node):
        """yield expressions of a statement or expression, outside nested functions, innermost first"""
        if node is None:
            return []
        key = id(node)
        if key not in self.yield_cache:
            out = []

            def walk(n):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    return
                for c in ast.iter_child_nodes(n):
                    walk(c)
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    out.append(n)
            walk(node)
            self.yield_cache[key] = (node, out)
        return self.yield_cache[key][1]

    def gen_run(self, body, env):
        try:
            yield from self.gen_block(body, env)
        except ReturnEx as e:
            return e.v
        except AbsRaise as e:
            if e.exc.cls.name == "StopIteration":
                self.raise_("RuntimeError", "generator raised StopIteration")
            raise
        return None

    def gen_block(self, body, env):
        for st in body:
            if self.yields(st):
                r = self.run
                if r is not None:
                    r.steps += 1
                    if r.steps > MAX_STEPS:
                        raise Truncated("step bound")
                    if env.module.path:
                        r.lines.add((env.module.path, st.lineno))
                self.lineno = st.lineno
                yield from getattr(self, "gen_" + type(st).__name__, self.gen_simple)(st, env)
            else:
                self.exec_stmt(st, env)

    def gen_yield(self, n, env):
        if isinstance(n, ast.Yield):
            v = yield (self.eval(n.value, env) if n.value is not None else None)
            return v
        it = self.eval(n.value, env)
        if not isinstance(it, LazyVal):
            it = LazyVal(self.pyiter(it), self.birth())
        v = it.next(self)
        while v is not END:
            try:
                sent = yield v
            except AbsRaise as e:
                if not isinstance(it, GenVal):
                    raise
                if e.exc.cls.name == "GeneratorExit":
                    it.close(self)
                    raise
                v = it.throw(self, e)
                continue
            v = it.send(self, sent) if sent is not None and isinstance(it, GenVal) else it.next(self)
        return it.ret

    def gen_expr(self, node, env):
        """evaluate the yields of an expression first, then the expression with their results"""
        ys = self.yields(node)
        if not ys:
            return self.eval(node, env)
        if len(ys) == 1 and ys[0] is node:
            v = yield from self.gen_yield(node, env)
            return v
        return self.eval((yield from self.gen_subst(node, ys, env)), env)

    def gen_subst(self, node, ys, env):
        memo = {}
        for i, y in enumerate(ys):
            name = "__y%d_%d" % (getattr(y, "lineno", 0), i)
            if self.yields(y.value):
                y2 = type(y)(value=copy.deepcopy(y.value, dict(memo)))
                ast.copy_location(y2, y)
            else:
                y2 = y
            env.vars[name] = yield from self.gen_yield(y2, env)
            memo[id(y)] = ast.copy_location(ast.Name(id=name, ctx=ast.Load()), y)
        return copy.deepcopy(node, memo)

    def gen_simple(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Match)):
            self.unsupported("yield in %s" % type(st).__name__)
        if isinstance(st, ast.Expr) and isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            yield from self.gen_expr(st.value, env)
            return
        ys = self.yields(st)
        self.exec_stmt((yield from self.gen_subst(st, ys, env)), env)

    def gen_If(self, st, env):
        c = yield from self.gen_expr(st.test, env)
        yield from self.gen_block(st.body if self.truth(c) else st.orelse, env)

    def gen_While(self, st, env):
        n = 0
        while True:
            n += 1
            if n > 5000:
                raise Truncated("loop bound")
            c = yield from self.gen_expr(st.test, env)
            if not self.loop_test(c, n):
                yield from self.gen_block(st.orelse, env)
                return
            try:
                yield from self.gen_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def gen_For(self, st, env):
        it = yield from self.gen_expr(st.iter, env)
        for x in self.pyiter(it):
            self.assign(st.target, x, env)
            try:
                yield from self.gen_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        yield from self.gen_block(st.orelse, env)

    def gen_With(self, st, env, i=0):
        if i == len(st.items):
            yield from self.gen_block(st.body, env)
            return
        ex, hs = self.with_enter(st.items[i], env)
        if hs:
            self.run.try_stack.append(hs)
        try:
            yield from self.gen_With(st, env, i + 1)
        except AbsRaise as e:
            if hs:
                self.run.try_stack.pop()
            if not self.with_exit(ex, e):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            if hs:
                self.run.try_stack.pop()
            self.with_exit(ex, None)
            raise
        if hs:
            self.run.try_stack.pop()
        self.with_exit(ex, None)

    def gen_Try(self, st, env):
        r = self.run
        pending = None
        try:
            hs = self.try_handlers(st, env)
            if r is not None:
                r.try_stack.append(hs)
            try:
                yield from self.gen_block(st.body, env)
            except (AbsRaise, ReturnEx, BreakEx, ContinueEx):
                if r is not None:
                    r.try_stack.pop()
                raise
            if r is not None:
                r.try_stack.pop()
        except AbsRaise as e:
            h = self.matching(st, e, env)
            if h is None:
                pending = e
            else:
                self.enter_handler(h, e, env)
                try:
                    yield from self.gen_block(h.body, env)
                except (AbsRaise, ReturnEx, BreakEx, ContinueEx) as p:
                    pending = p
                if r is not None:
                    r.handled.pop()
        except (ReturnEx, BreakEx, ContinueEx) as p:
            pending = p
        else:
            try:
                yield from self.gen_block(st.orelse, env)
            except (AbsRaise, ReturnEx, BreakEx, ContinueEx) as p:
                pending = p
        yield from self.gen_block(st.finalbody, env)
        if pending is not None:
            raise pending

    def st_Pass(self, st, env):
        pass

    def st_Global(self, st, env):
        env.globals_.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Break(self, st, env):
        raise BreakEx()

    def st_Continue(self, st, env):
        raise ContinueEx()

    def st_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value else None)

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)
        if env.kind == "class" and isinstance(st.target, ast.Name):
            env.vars.setdefault("__annotations__", DictVal((), self.birth())).pairs.append([st.target.id, None])

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.assign(t, self.aug(st.op, cur, self.eval(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(st.op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(st.op, cur, self.eval(st.value, env)))
        else:
            self.unsupported("augmented assignment target")

    def aug(self, op, a, b):
        a = N(a)
        if isinstance(a, InstVal):
            m = "__i%s__" % BINOPS[type(op).__name__]
            if a.cls.has(m):
                return self.call(self.getattr(a, m), [b])
        if isinstance(a, SetVal) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            new = self.binop(op, a, b)
            self.mutate(a)
            a.items = new.items
            return a
        if isinstance(a, ListVal) and isinstance(op, ast.Mult) and isinstance(N(b), int):
            self.mutate(a)
            a.items = a.items * N(b)
            return a
        if isinstance(op, ast.Add) and isinstance(a, ListVal):
            self.mutate(a)
            a.items.extend(self.iterate(b))
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v, want=len([e for e in t.elts if not isinstance(e, ast.Starred)]))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_("ValueError", "unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListVal(items[i:len(items) - after], self.birth()), env)
                if after:
                    for e, x in zip(t.elts[i + 1:], items[-after:]):
                        self.assign(e, x, env)
            else:
                if len(items) != len(t.elts):
                    self.raise_("ValueError", "unpack")
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            self.unsupported("assignment target")

    def birth(self):
        r = self.run
        if r is None:
            return None
        return r.serial if r.phase == "entry" else -r.serial

    def mutate(self, o, what=None):
        """Called before mutating a container/instance/class; records mutation of objects that
        outlive the transaction and restores them after the partition has been analysed."""
        r = self.run
        if r is None:
            return
        if o.birth == r.serial:
            return
        if o.birth == -r.serial:
            if r.phase == "entry":
                self.effect("pymut", obj=o, what=what, scope="instance")
            return
        self.save_undo(o)
        self.effect("pymut", obj=o, what=what, scope="module")

    def save_undo(self, o):
        r = self.run
        if isinstance(o, LazyVal):
            r.undo.append((o, "pos", o.pos))
        elif isinstance(o, (ListVal, SetVal)):
            r.undo.append((o, "items", list(o.items)))
        elif isinstance(o, DictVal):
            r.undo.append((o, "pairs", [list(p) for p in o.pairs]))
        elif isinstance(o, (ClassVal, ModuleVal)):
            r.undo.append((o, "ns", dict(o.ns)))
        elif isinstance(o, InstVal):
            r.undo.append((o, "attrs", dict(o.attrs)))
        elif isinstance(o, (FuncVal, BuiltinVal)):
            r.undo.append((o, "flags", dict(o.flags)))

    def setname(self, name, v, env):
        e = env
        if name in env.globals_:
            self.mutate(env.module, name)
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is None:
                self.unsupported("nonlocal")
        e.vars[name] = v

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), t.attr)
            else:
                self.unsupported("del")

    def delattr(self, o, name, raw=False):
        if isinstance(o, InstVal) and not raw and o.cls.has("__delattr__"):
            return self.call(self.getattr(o, "__delattr__"), [name])
        m = o.attrs if isinstance(o, InstVal) else o.ns if isinstance(o, (ClassVal, ModuleVal)) else \
            o.flags if isinstance(o, (FuncVal, BuiltinVal)) else self.unsupported("del attribute")
        if name not in m:
            self.raise_("AttributeError", name)
        self.mutate(o, (name, None))
        m.pop(name)

    # ------------------------------------------------------------ match
    def st_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                return self.exec_block(c.body, env)

    def match(self, p, v, env):
        v = N(v)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq_vals(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name is not None:
                self.setname(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListVal)):
                if isinstance(v, (Term, OpaqueVal)):
                    self.unsupported("sequence pattern")
                return False
            items = list(v) if isinstance(v, tuple) else v.items
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star:
                return len(items) == n and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
            if len(items) < n - 1:
                return False
            i = star[0]
            tail = len(items) - (n - i - 1)
            ok = all(self.match(q, x, env) for q, x in zip(p.patterns[:i], items[:i])) and \
                all(self.match(q, x, env) for q, x in zip(p.patterns[i + 1:], items[tail:]))
            if ok and p.patterns[i].name:
                self.setname(p.patterns[i].name, ListVal(items[i:tail], self.birth()), env)
            return ok
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, DictVal):
                if isinstance(v, (Term, OpaqueVal)):
                    self.unsupported("mapping pattern")
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                e = self.dict_find(v, self.eval(k, env))
                if e is None or not self.match(q, e[1], env):
                    return False
                used.append(e)
            if p.rest:
                self.setname(p.rest, DictVal([x for x in v.pairs if x not in used], self.birth()), env)
            return True
        if isinstance(p, ast.MatchClass):
            from . import builtins_model
            c = self.eval(p.cls, env)
            if not self.truth(builtins_model.isinst(self, v, c)):
                return False
            if isinstance(c, BuiltinVal) and p.patterns:
                return self.match(p.patterns[0], v, env)
            names = [N(x) for x in self.iterate(self.getattr(c, "__match_args__"))] if p.patterns else []
            for a, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                try:
                    x = self.getattr(v, a)
                except AbsRaise:
                    return False
                if not self.match(q, x, env):
                    return False
            return True
        self.unsupported("pattern")

    def st_If(self, st, env):
        c = self.eval(st.test, env)
        if self.merge and isinstance(c, Term) and self.run is not None:
            lit = self.truth_lit(c)
            d = self.run.facts.decide(lit)
            if d is None and self.simple_block(st.body) and self.simple_block(st.orelse):
                return self.merge_if(lit, st, env)
        if self.truth(c):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def simple_block(self, body):
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.If):
                if not (self.simple_block(s.body) and self.simple_block(s.orelse)):
                    return False
                continue
            if isinstance(s, ast.Assign):
                if not all(isinstance(t, ast.Name) or
                           (isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts))
                           for t in s.targets):
                    return False
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, ast.Name):
                    return False
            elif isinstance(s, ast.AnnAssign):
                if not isinstance(s.target, ast.Name):
                    return False
            else:
                return False
            if any(isinstance(x, ((ast.Await, ast.NamedExpr) if self.loops else
                                  (ast.Call, ast.Subscript, ast.Await, ast.NamedExpr))) for x in ast.walk(s)):
                return False
        return True

    def simple_body(self, body):
        """assignments, branches and returns only, at least one branch returning"""
        def ok(b):
            return all(self.simple_block([s]) or
                       isinstance(s, ast.Return) and s.value is not None and
                       not any(isinstance(x, (ast.Call, ast.Subscript, ast.BoolOp)) for x in ast.walk(s.value)) or
                       isinstance(s, ast.If) and ok(s.body) and ok(s.orelse) for s in b)
        return ok(body) and any(isinstance(x, ast.Return) for s in body if isinstance(s, ast.If) for x in ast.walk(s))

    def joined(self, body, env):
        """value of a branching, effect-free function body as one term"""
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and any(isinstance(x, ast.Return) for x in ast.walk(s)):
                t = len(self.run.trace)
                c = self.eval(s.test, env)
                if isinstance(c, Term):
                    lit = self.truth_lit(c)
                    d = self.run.facts.decide(lit)
                else:
                    d = self.truth(c)
                rest = list(body[i + 1:])
                if d is not None:
                    return self.joined(list(s.body if d else s.orelse) + rest, env)
                base = dict(env.vars)
                a = self.joined(list(s.body) + rest, env)
                env.vars = base
                b = self.joined(list(s.orelse) + rest, env)
                if len(self.run.trace) != t:
                    self.unsupported("branching inside a joined body")
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                    return tuple(ite(lit, x, y) for x, y in zip(a, b))
                if isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,)):
                    return ite(lit, a, b)
                self.unsupported("join of non-scalars")
            if isinstance(s, ast.Return):
                return self.eval(s.value, env)
            self.exec_stmt(s, env)
        return None

    def merge_if(self, lit, st, env):
        """join (phi) of two effect-free branches"""
        base = dict(env.vars)
        before = len(self.run.effects), len(self.run.trace)
        if env.kind == "module":
            self.unsupported("merge at module level")
        try:
            self.exec_block(st.body, env)
            a = env.vars
            env.vars = dict(base)
            self.exec_block(st.orelse, env)
            b = env.vars
        except (AbsRaise, ReturnEx, BreakEx, ContinueEx):
            self.unsupported("jump out of a merged branch")
        if (len(self.run.effects), len(self.run.trace)) != before:
            self.unsupported("effects or branching in merged branch")
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                x, y = a[k], b[k]
                if x is y:
                    out[k] = x
                elif isinstance(x, SCALARS + (Term,)) and isinstance(y, SCALARS + (Term,)):
                    out[k] = ite(lit, x, y)
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                    out[k] = tuple(ite(lit, p, q) for p, q in zip(x, y))
                else:
                    self.unsupported("join of non-scalars")
        env.vars = out

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        fresh = isinstance(it, GenVal) and not it.started and isinstance(st.iter, ast.Call)
        broke = False
        nfx = len(self.run.effects) if self.run is not None and isinstance(N(it), (SetVal, LazyVal)) else None
        try:
            for x in self.pyiter(it):
                self.assign(st.target, x, env)
                try:
                    self.loop_body(st, env)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    continue
        except (ReturnEx, AbsRaise):
            if fresh:
                it.close(self)
            raise
        if nfx is not None and any(e.kind in ("call", "write", "icx", "event", "arr") for e in self.run.effects[nfx:]):
            self.set_order(N(it))
        if broke:
            if fresh:
                it.close(self)
        else:
            self.exec_block(st.orelse, env)

    def lazy(self, gen, *sources):
        """an iterator computed from others; remembers a set whose order it passes on"""
        o = LazyVal(gen, self.birth())
        for v in sources:
            v = N(v)
            o.source = o.source or (v if isinstance(v, SetVal) else getattr(v, "source", None))
        return o

    def set_order(self, v):
        """the iteration order of a set (not fixed across nodes) becomes observable"""
        if isinstance(v, LazyVal):
            v = v.source
        if self.run is not None and isinstance(v, SetVal) and len(v.items) > 1 and \
                not all(isinstance(N(x), int) or isinstance(x, Term) and x.ty in ("int", "bool") for x in v.items):
            self.effect("setorder", n=len(v.items))

    def loop_test(self, c, n):
        if isinstance(c, Term) and self.run is not None and self.run.facts.decide(self.truth_lit(c)) is None:
            if n > self.max_symbolic_loop:
                raise Truncated("symbolic loop at %s" % self.where())
        return self.truth(c)

    def st_While(self, st, env):
        symbolic = 0
        n = 0
        while True:
            n += 1
            if n > 5000:
                raise Truncated("loop bound")
            c = self.eval(st.test, env)
            if isinstance(c, Term) and self.run is not None and self.run.facts.decide(self.truth_lit(c)) is None:
                symbolic += 1
            if not self.loop_test(c, symbolic):
                self.exec_block(st.orelse, env)
                return
            try:
                self.loop_body(st, env)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def loop_body(self, st, env):
        if not self.merge:
            return self.exec_block(st.body, env)
        if not hasattr(st, "no_continue"):
            st.no_continue = self.without_continue(st.body)
        self.loops += 1
        try:
            self.exec_block(st.no_continue, env)
        finally:
            self.loops -= 1

    def without_continue(self, body):
        """the same statements with `if c: A; continue` followed by B written as `if c: A else: B`"""
        for i, s in enumerate(body):
            if isinstance(s, ast.Continue):
                return body[:i]
            if not isinstance(s, ast.If):
                continue
            rest = body[i + 1:]
            ends = lambda b: bool(b) and isinstance(b[-1], ast.Continue)
            if ends(s.body) or ends(s.orelse):
                a, b = self.without_continue(s.body), self.without_continue(s.orelse)
                new = ast.If(test=s.test, body=(a if ends(s.body) else a + self.without_continue(rest)) or [ast.Pass()],
                             orelse=b if ends(s.orelse) else b + self.without_continue(rest))
                for x in ast.walk(new):
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, s)
                return body[:i] + [new]
        return body

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, env), [f])
        self.setname(st.name, f, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = self.eval(d, env)
        q = name
        if env.kind == "class":
            q = env.func + "." + name
        cenv = env
        if env.kind == "class":
            # methods do not see class scope, but see __class__
            cenv = env.parent
        f = FuncVal(node, cenv, env.module, name, q, defaults, kwd)
        f.birth = self.birth()
        if not isinstance(node, ast.Lambda):
            f.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(node))
        return f

    def own_nodes(self, node):
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def st_ClassDef(self, st, env):
        bases, plain = [], None
        for b in st.bases:
            if isinstance(b, ast.Starred):
                bases += self.iterate(self.eval(b.value, env))
            else:
                bases.append(self.eval(b, env))
        for b in list(bases):
            if isinstance(b, BuiltinVal) and b.typename in ("int", "str") and any(
                    isinstance(x, ClassVal) and x.is_sub_name("Enum") for x in bases):
                plain = b.typename
                bases.remove(b)
            elif not isinstance(b, ClassVal):
                self.unsupported("class base %r" % (b,))
        if not bases:
            bases = [self.builtins["object"]]
        kw = {k.arg: self.eval(k.value, env) for k in st.keywords}
        meta = kw.pop("metaclass", None) or next((b.meta for b in bases if b.meta is not None), None)
        cell = Env(env if env.kind != "class" else env.parent, env.module, "cell")
        cenv = Env(cell, env.module, "class", func=st.name)
        # class scope lookups fall through to enclosing scope
        cenv.vars["__module__"] = env.module.name
        for s in st.body:
            self.exec_stmt(s, cenv)
        if isinstance(meta, ClassVal) and meta.is_sub_name("type") and meta.name != "type":
            cls = self.call(meta, [st.name, tuple(bases), DictVal(cenv.vars.items(), self.birth())], kw)
            if not isinstance(cls, ClassVal):
                self.unsupported("metaclass result")
            cls.module, cls.meta = env.module, meta
            kw = {}
        else:
            cls = ClassVal(st.name, bases, cenv.vars, env.module)
        cls.node = st
        cls.plain = plain
        cls.birth = self.birth()
        for b in cls.mro[1:]:
            if getattr(b, "on_subclass", None) is not None:
                node = cls.node
                cls = b.on_subclass(self, cls)
                cls.node = node
                break
        cell.vars["__class__"] = cls
        for n, v in list(cls.ns.items()):
            if isinstance(v, InstVal) and v.cls.has("__set_name__"):
                self.call(self.getattr(v, "__set_name__"), [cls, n])
        f = next((b.ns["__init_subclass__"] for b in cls.mro[1:] if "__init_subclass__" in b.ns), None)
        if f is not None:
            self.call(f.f if isinstance(f, ClassMethodVal) else f, [cls], kw)
        out = cls
        for d in reversed(st.decorator_list):
            out = self.call(self.eval(d, env), [out])
        self.setname(st.name, out, env)

    def st_Import(self, st, env):
        for a in st.names:
            m = self.import_abs(a.name)
            if a.asname:
                env.vars[a.asname] = m
            else:
                env.vars[a.name.split(".")[0]] = self.import_abs(a.name.split(".")[0])

    def import_abs(self, name):
        from . import builtins_model
        if name == "iconservice" or name.startswith("iconservice."):
            m = ModuleVal(name)
            m.ns = self.icon
            return m
        if self.module_file(name):
            return self.load(name)
        fs = getattr(self, 'fs', None)
        if fs is not None:
            m = fs.module(name)
            if m is not None:
                return m
        return builtins_model.stdlib_module(self, name)

    def st_ImportFrom(self, st, env):
        mod = env.module
        if st.level:
            parts = mod.name.split(".")
            if not getattr(mod, "is_pkg", False):
                parts = parts[:-1]
            up = st.level - 1
            parts = parts[:len(parts) - up] if up else parts
            target = ".".join(parts + ([st.module] if st.module else []))
            m = self.load(target)
        else:
            m = self.import_abs(st.module)
            target = st.module
        for a in st.names:
            if a.name == "*":
                allv = m.ns.get("__all__")
                for k, v in list(m.ns.items()):
                    if (allv is not None and k in [N(x) for x in allv.items]) or \
                            (allv is None and not k.startswith("_")):
                        self.setname(k, v, env)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif m.opaque:
                v = OpaqueVal(m.name + "." + a.name)
            elif st.level or self.module_file(target):
                v = self.load(target + "." + a.name)
            else:
                v = OpaqueVal(m.name + "." + a.name)
            self.setname(a.asname or a.name, v, env)

    def st_Raise(self, st, env):
        if st.exc is None:
            if self.run and self.run.handled:
                raise AbsRaise(self.run.handled[-1], self.where())
            self.raise_("RuntimeError", "no active exception")
        v = self.eval(st.exc, env)
        if st.cause is not None:
            self.eval(st.cause, env)
        if isinstance(v, ClassVal):
            v = self.call(v, [])
        if isinstance(v, OpaqueVal):
            e = InstVal(self.builtins["Exception"])
            e.attrs["args"] = ()
            v = e
        raise AbsRaise(v, self.where())

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            e = InstVal(self.builtins["AssertionError"])
            e.attrs["args"] = (self.eval(st.msg, env),) if st.msg is not None else ()
            e.attrs["implicit"] = st.msg is None
            raise AbsRaise(e, self.where())

    def with_enter(self, item, env):
        """enter a context manager -> (exit callable or None, handlers it stands for)"""
        v = self.eval(item.context_expr, env)
        ent, ex, hs = None, None, None
        if isinstance(v, InstVal) and v.cls.has("__enter__"):
            ex = self.getattr(v, "__exit__")
            ent = self.call(self.getattr(v, "__enter__"), [])
            if self.run is not None and self.suppresses(ex, v):
                hs = [None]
        elif isinstance(v, OpaqueVal):
            ent = v
        else:
            self.unsupported("with")
        if item.optional_vars is not None:
            self.assign(item.optional_vars, ent, env)
        return ex, hs

    def suppresses(self, ex, v):
        """may this context manager swallow an exception?"""
        g = v.attrs.get("gen")
        if isinstance(g, GenVal):
            return any(isinstance(n, ast.Try) and (n.handlers or self.escapes(n.finalbody))
                       for n in ast.walk(g.func.node))
        f = ex.func if isinstance(ex, BoundVal) else ex
        if not isinstance(f, FuncVal):
            return True
        return any(isinstance(n, ast.Return) and n.value is not None and
                   not (isinstance(n.value, ast.Constant) and not n.value.value) for n in self.own_nodes(f.node))

    def escapes(self, body):
        return any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for s in body for n in ast.walk(s))

    def with_exit(self, ex, e):
        if ex is None:
            return False
        if e is None:
            self.call(ex, [None, None, None])
            return False
        if self.run is not None:
            self.run.handled.append(e.exc)
        try:
            r = self.truth(self.call(ex, [e.exc.cls, e.exc, None]))
        finally:
            if self.run is not None:
                self.run.handled.pop()
        if r and self.run is not None:
            self.effect("caught", exc=e.exc, implicit=e.exc.attrs.get("implicit", False), name=e.exc.cls.name)
        return r

    def st_With(self, st, env, i=0):
        if i == len(st.items):
            return self.exec_block(st.body, env)
        ex, hs = self.with_enter(st.items[i], env)
        if hs:
            self.run.try_stack.append(hs)
        try:
            try:
                self.st_With(st, env, i + 1)
            finally:
                if hs:
                    self.run.try_stack.pop()
        except AbsRaise as e:
            if not self.with_exit(ex, e):
                raise
            return
        except (ReturnEx, BreakEx, ContinueEx):
            self.with_exit(ex, None)
            raise
        self.with_exit(ex, None)

    def try_handlers(self, st, env):
        hs = [None] if self.escapes(st.finalbody) else []
        for h in st.handlers:
            if h.type is None:
                hs.append(None)
            else:
                t = self.eval(h.type, env)
                hs.extend(t if isinstance(t, tuple) else [t])
        return hs

    def st_Try(self, st, env):
        r = self.run
        pending = None
        try:
            try:
                hs = self.try_handlers(st, env)
                if r is not None:
                    r.try_stack.append(hs)
                try:
                    self.exec_block(st.body, env)
                finally:
                    if r is not None:
                        r.try_stack.pop()
            except AbsRaise as e:
                self.handle(st, e, env)
            else:
                self.exec_block(st.orelse, env)
        except (AbsRaise, ReturnEx, BreakEx, ContinueEx) as p:
            pending = p
        self.exec_block(st.finalbody, env)
        if pending is not None:
            raise pending

    def matching(self, st, e, env):
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, env)
            if any(isinstance(c, ClassVal) and e.exc.cls.is_sub(c) for c in (t if isinstance(t, tuple) else (t,))):
                return h
        return None

    def enter_handler(self, h, e, env):
        if h.name:
            self.setname(h.name, e.exc, env)
        if self.run:
            self.run.handled.append(e.exc)
            self.effect("caught", exc=e.exc, implicit=e.exc.attrs.get("implicit", False), name=e.exc.cls.name)

    def handle(self, st, e, env):
        h = self.matching(st, e, env)
        if h is None:
            raise e
        self.enter_handler(h, e, env)
        try:
            self.exec_block(h.body, env)
        finally:
            if self.run:
                self.run.handled.pop()

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        if name in env.globals_:
            e = None
        else:
            while e is not None:
                if name in e.vars:
                    if e.kind != "class" or e is env:
                        return e.vars[name]
                e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_("NameError", name)

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.unsupported("expression %s" % type(n).__name__)
        self.lineno = getattr(n, "lineno", self.lineno)
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def ex_Name(self, n, env):
        return self.lookup(n.id, env)

    def ex_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def ex_Tuple(self, n, env):
        return tuple(self.eval_elts(n.elts, env))

    def ex_List(self, n, env):
        return ListVal(self.eval_elts(n.elts, env), self.birth())

    def ex_Set(self, n, env):
        return self.new_set(self.eval_elts(n.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def ex_Dict(self, n, env):
        d = DictVal((), self.birth())
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, DictVal):
                    self.unsupported("** in dict display")
                for kk, vv in src.pairs:
                    self.dict_set(d, kk, vv)
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def ex_Lambda(self, n, env):
        return self.make_func(n, env, "<lambda>")

    def ex_IfExp(self, n, env):
        c = self.eval(n.test, env)
        if self.merge and isinstance(c, Term) and self.run is not None:
            lit = self.truth_lit(c)
            if self.run.facts.decide(lit) is None:
                before = len(self.run.effects)
                t = len(self.run.trace)
                a = self.eval(n.body, env)
                b = self.eval(n.orelse, env)
                if len(self.run.effects) == before and len(self.run.trace) == t \
                        and isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,)):
                    return ite(lit, a, b)
                if len(self.run.trace) != t or len(self.run.effects) != before:
                    self.unsupported("branching conditional expression in merge mode")
                return a if self.choose(lit) else b
        if self.truth(c):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.setname(n.target.id, v, e)
        return v

    def ex_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return self.decided(v, False)
            if not is_and and t:
                return self.decided(v, True)
        return v

    def decided(self, v, b):
        if isinstance(v, Term) and v.ty == "bool":
            return b
        return v

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            v = N(v)
            if isinstance(v, Term):
                return notl(self.truth_lit(v))
            return not self.truth(v)
        v = N(v)
        if isinstance(v, InstVal):
            m = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(n.op).__name__]
            if v.cls.has(m):
                return self.call(self.getattr(v, m), [])
            self.raise_("TypeError", "bad operand")
        if not isinstance(v, (int, float, Term, OpaqueVal)):
            self.raise_("TypeError", "bad operand")
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            return sub(-1, v)
        self.unsupported("unary op")

    def ex_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(n.op, a, b)

    def is_num(self, v):
        return isinstance(v, (int, bool)) or (isinstance(v, Term) and v.ty in ("int", "bool", "any"))

    def binop(self, op, a, b):
        a, b = N(a), N(b)
        if isinstance(a, InstVal) or isinstance(b, InstVal):
            name = BINOPS[type(op).__name__]
            for x, y, m in ((a, b, "__%s__" % name), (b, a, "__r%s__" % name)):
                if isinstance(x, InstVal) and x.cls.has(m):
                    r = self.call(self.getattr(x, m), [y])
                    if r is not self.builtins["NotImplemented"]:
                        return r
            if not isinstance(a, OpaqueVal) and not isinstance(b, OpaqueVal):
                self.raise_("TypeError", "unsupported operand")
        native = not isinstance(a, (Term, Obj)) and not isinstance(b, (Term, Obj))
        if native and not isinstance(a, tuple) and not isinstance(b, tuple):
            return self.native_binop(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, ListVal) and isinstance(b, ListVal) and isinstance(op, ast.Add):
            return ListVal(a.items + b.items, self.birth())
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ListVal) and isinstance(y, int):
                    return ListVal(x.items * y, self.birth())
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
        if isinstance(a, (SetVal, ViewVal)) or isinstance(b, (SetVal, ViewVal)):
            if not all(isinstance(x, (SetVal, ViewVal)) for x in (a, b)):
                self.raise_("TypeError", "unsupported operand")
            return self.set_op(op, *(x if isinstance(x, SetVal) else self.new_set(x.items) for x in (a, b)))
        if isinstance(a, DictVal) and isinstance(b, DictVal) and isinstance(op, ast.BitOr):
            d = DictVal(a.pairs, self.birth())
            for k, v in b.pairs:
                self.dict_set(d, k, v)
            return d
        if isinstance(a, str) or isinstance(a, bytes) or \
                (isinstance(a, Term) and a.ty in ("str", "bytes", "str_nn", "bytes_nn")):
            if isinstance(op, ast.Mod):
                if isinstance(b, Term):
                    return mk("fstr", (T(a), T(b)), "str", True)
                args = b if isinstance(b, tuple) else (b,)
                if isinstance(a, (str, bytes)) and all(isinstance(N(x), SCALARS) for x in args):
                    try:
                        return a % tuple(N(x) for x in args)
                    except (TypeError, ValueError) as e:
                        self.raise_(type(e).__name__, str(e))
                return mk("fstr", (T(a),) + tuple(self.term_of(x) for x in args), "str", True)
            if isinstance(op, ast.Add):
                return self.concat([a, b])
            return mk("binop:" + type(op).__name__, (T(a), T(b)), "any")
        if isinstance(b, (str, bytes)) or (isinstance(b, Term) and b.ty in ("str", "bytes")):
            if isinstance(op, ast.Add):
                return self.concat([a, b])
        if isinstance(a, OpaqueVal) or isinstance(b, OpaqueVal):
            return OpaqueVal("binop")
        if a is None or b is None:
            self.raise_("TypeError", "None operand")
        if not (isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,))):
            self.unsupported("operands %r %r" % (a, b))
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.FloorDiv):
            if isinstance(b, int) and b == 0:
                self.raise_("ZeroDivisionError")
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            return mod(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.LShift):
            return lshift(a, b)
        if isinstance(op, ast.RShift):
            return rshift(a, b)
        if isinstance(op, ast.BitAnd):
            return bitop("&", a, b)
        if isinstance(op, ast.BitOr):
            return bitop("|", a, b)
        if isinstance(op, ast.BitXor):
            return bitop("^", a, b)
        if isinstance(op, ast.Div):
            return mk("truediv", (T(a), T(b)), "float", True)
        self.unsupported("binary op")

    def native_binop(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
                    if (a if isinstance(a, int) else b) > 10 ** 6:
                        raise Truncated("huge sequence")
                return a * b
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.Pow):
                if isinstance(b, int) and abs(b) > 100000:
                    raise Truncated("huge power")
                return a ** b
            if isinstance(op, ast.LShift):
                return a << b
            if isinstance(op, ast.RShift):
                return a >> b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitXor):
                return a ^ b
            if isinstance(op, ast.Div):
                return a / b
        except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            self.raise_(type(e).__name__, str(e))
        self.unsupported("binary op")

    def concat(self, parts):
        flat = []
        for p in parts:
            p = N(p)
            if isinstance(p, Term) and p.op == "concat":
                flat.extend(N(x) for x in p.args)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if out and isinstance(p, (str, bytes)) and type(out[-1]) is type(p):
                out[-1] = out[-1] + p
            elif isinstance(p, (str, bytes)) and not p:
                continue
            else:
                out.append(p)
        if len(out) == 1 and isinstance(out[0], (str, bytes)):
            return out[0]
        if not out:
            return parts[0] if isinstance(parts[0], (str, bytes)) else ""
        ty = "any"
        for p in out:
            if isinstance(p, (str, bytes)):
                ty = type(p).__name__
            elif isinstance(p, Term) and p.ty in ("str", "bytes"):
                ty = p.ty
        if len(out) == 1:
            return out[0]
        return mk("concat", tuple(T(p) for p in out), ty, True)

    def term_of(self, v):
        """A term standing for any value (used as argument of opaque pure functions)."""
        v = N(v)
        if isinstance(v, Term):
            return v
        if isinstance(v, SCALARS):
            return const(v)
        if isinstance(v, tuple):
            return mk("tuple", tuple(self.term_of(x) for x in v), "any", True)
        if isinstance(v, ListVal):
            return mk("list", tuple(self.term_of(x) for x in v.items), "any", True)
        if isinstance(v, SetVal):
            return mk("set", tuple(sorted((self.term_of(x) for x in v.items), key=lambda t: t.id)), "any", True)
        if isinstance(v, DictVal):
            ps = [(self.term_of(k), self.term_of(x)) for k, x in v.pairs]
            ps.sort(key=lambda kv: (0, str(cval(kv[0]))) if is_const(kv[0]) else (1, str(kv[0].id)))
            return mk("dict", tuple(mk("kv", kv, "any", True) for kv in ps), "any", True)
        if isinstance(v, InstVal) and v.cls.is_sub_name("BaseException"):
            return mk("exc", (v.cls.name,), "any", True)
        return mk("obj", (type(v).__name__, getattr(v, "name", None) or id(v)), "any", True)

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, env)
            res = self.compare(op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        a, b = N(a), N(b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return notl(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq_vals(a, b)
        if isinstance(op, ast.NotEq):
            return notl(self.eq_vals(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return notl(self.contains(b, a))
        # ordering
        if isinstance(a, InstVal) or isinstance(b, InstVal):
            f, g = ORDER[type(op).__name__]
            for x, y, m in ((a, b, f), (b, a, g)):
                if isinstance(x, InstVal) and x.cls.has(m):
                    r = self.call(self.getattr(x, m), [y])
                    if r is not self.builtins["NotImplemented"]:
                        return r
            self.raise_("TypeError", "ordering")
        seq = lambda v: v.items if isinstance(v, ListVal) else v
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListVal) and isinstance(b, ListVal):
            for x, y in zip(seq(a), seq(b)):
                if not self.truth(self.eq_vals(x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(seq(a)), len(seq(b)))
        if isinstance(a, Term) or isinstance(b, Term):
            if a is None or b is None:
                self.raise_("TypeError")
            if not (isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,))):
                self.unsupported("ordering")
            for x in (a, b):
                if isinstance(x, (str, bytes, float)) or (isinstance(x, Term) and x.ty in ("str", "bytes", "addr", "float")):
                    return mk("cmp:" + type(op).__name__, (T(a), T(b)), "bool", True)
            for x in (a, b):
                if isinstance(x, Term) and x.ty == "any":
                    self.may_raise("order", "TypeError", x)
            if isinstance(op, ast.Lt):
                return lt(a, b)
            if isinstance(op, ast.LtE):
                return le(a, b)
            if isinstance(op, ast.Gt):
                return gt(a, b)
            return ge(a, b)
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            x, y = self.resolve_set(a), self.resolve_set(b)
            if isinstance(op, (ast.Gt, ast.GtE)):
                x, y = y, x
            sub_ = all(self.truth(self.contains(ListVal(y), e)) for e in x)
            return sub_ and (isinstance(op, (ast.LtE, ast.GtE)) or len(x) < len(y))
        if isinstance(a, Obj) or isinstance(b, Obj):
            self.raise_("TypeError", "ordering")
        try:
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            return a >= b
        except TypeError as e:
            self.raise_("TypeError", str(e))

    def is_(self, a, b):
        if isinstance(a, Term) or isinstance(b, Term):
            if not (isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,))):
                return False
            e = N(eq(a, b))
            if e is True or e is False or self.singleton(a) or self.singleton(b):
                return e
            # two equal values need not be one object: the outcome for equal values is open
            if not self.truth(e):
                return False
            return mk("same_object", tuple(sorted((T(a), T(b)), key=lambda t: t.id)), "bool", True)
        if isinstance(a, SCALARS) and isinstance(b, SCALARS):
            return type(a) is type(b) and a == b
        return a is b

    @staticmethod
    def singleton(v):
        """Values for which identity is equality: None, booleans and the cached small integers."""
        if isinstance(v, Term):
            return v.ty == "bool"
        return v is None or isinstance(v, bool) or isinstance(v, int) and -5 <= v <= 256

    def eq_vals(self, a, b):
        a, b = N(a), N(b)
        sa, sb = isinstance(a, SCALARS + (Term,)), isinstance(b, SCALARS + (Term,))
        if sa and sb:
            return eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListVal) and isinstance(b, ListVal):
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            if len(x) != len(y):
                return False
            return all(self.truth(self.eq_vals(p, q)) for p, q in zip(x, y))
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            x, y = self.resolve_set(a), self.resolve_set(b)
            return len(x) == len(y) and all(self.contains(ListVal(y), p) for p in x)
        if isinstance(a, DictVal) and isinstance(b, DictVal):
            if len(a.pairs) != len(b.pairs):
                return False
            return all(self.truth(self.contains(b, k)) and self.truth(self.eq_vals(v, self.getitem(b, k)))
                       for k, v in a.pairs)
        if isinstance(a, BoundVal) and isinstance(b, BoundVal):
            return a.func is b.func and a.self_ is b.self_
        for x, y in ((a, b), (b, a)):
            if isinstance(x, InstVal) and x.cls.has("__eq__"):
                r = self.call(self.getattr(x, "__eq__"), [y])
                if r is not self.builtins["NotImplemented"]:
                    return r
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        return a is b

    def contains(self, c, x):
        c, x = N(c), N(x)
        if isinstance(c, (ListVal, tuple, SetVal)):
            items = c if isinstance(c, tuple) else c.items
            und = []
            for e in items:
                l = N(self.eq_vals(x, e))
                if l is True:
                    return True
                if l is False:
                    continue
                und.append(l)
            for l in und:
                if self.choose(l):
                    return True
            return False
        if isinstance(c, DictVal):
            return self.dict_find(c, x) is not None
        if isinstance(c, (str, bytes)):
            if isinstance(x, (str, bytes, int)):
                return x in c
            return mk("in", (T(x), T(c)), "bool", True)
        if isinstance(c, Term):
            self.assume_nonnull(c, "TypeError")
            if c.ty in ("any",) and c.op in ("json", "jget", "ext"):
                if isinstance(x, str):
                    self.may_raise("in", "TypeError", c)
                    return mk("jhas", (c, T(x)), "bool", True)
            return mk("in", (self.term_of(x), c), "bool", True)
        if isinstance(c, range):
            if isinstance(x, int):
                return x in c
            if isinstance(x, Term) and x.ty in ("int", "bool"):
                if len(c) == 0:
                    return False
                if c.step == 1:
                    return self.truth(ge(x, c.start)) and self.truth(lt(x, c.stop))
                return self.contains(tuple(c), x)
            return False
        if isinstance(c, LazyVal):
            for y in self.drain(c):
                if self.truth(self.eq_vals(y, x)):
                    return True
            return False
        if isinstance(c, ClassVal) and "__members__" in c.ns:
            return any(y is x for _, y in c.ns["__members__"].pairs)
        if isinstance(c, DbObj):
            return self.icon_mod.db_contains(self, c, x)
        if isinstance(c, InstVal):
            if c.cls.has("__contains__"):
                return self.call(self.getattr(c, "__contains__"), [x])
            if c.cls.has("__iter__") or c.cls.has("__getitem__"):
                return self.contains(ListVal(self.iterate(c)), x)
            self.raise_("TypeError", "not a container")
        if c is None or isinstance(c, (int, float, FuncVal, BuiltinVal)):
            self.raise_("TypeError", "not a container")
        if isinstance(c, (OpaqueVal,)):
            return mk("in", (self.term_of(x), self.term_of(c)), "bool", True)
        self.unsupported("in %r" % (c,))

    def ex_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval(n.slice, env))

    def ex_Slice(self, n, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return ("__slice__", f(n.lower), f(n.upper), f(n.step))

    def ex_Starred(self, n, env):
        self.unsupported("starred")

    def ex_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = N(self.eval(v.value, env))
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                if isinstance(x, InstVal) and v.conversion in (-1, 115, 114):
                    x = self.call(self.builtins["repr" if v.conversion == 114 else "str"], [x])
                if isinstance(x, SCALARS) and isinstance(spec, str):
                    try:
                        y = {-1: lambda q: q, 115: str, 114: repr, 97: ascii}[v.conversion](x)
                        parts.append(format(y, spec) if y is not None else "None")
                    except Exception:
                        parts.append(mk("fmt", (T(x), T(spec)), "str", True))
                elif isinstance(x, Term) and x.ty in ("str",) and spec == "" and v.conversion == -1:
                    parts.append(x)
                elif spec == "" and v.conversion in (-1, 115):
                    parts.append(self.to_str(x))
                else:
                    parts.append(mk("fmt", (self.term_of(x), self.term_of(spec), v.conversion), "str", True))
        r = self.concat(parts) if parts else ""
        if isinstance(r, Term) and r.ty == "any":
            r = mk("fstr", (r,), "str", True)
        return r

    def ex_FormattedValue(self, n, env):
        return self.to_str(self.eval(n.value, env))

    def to_str(self, x):
        x = N(x)
        if isinstance(x, (EnumInt, EnumStr)):
            return str(int(x)) if isinstance(x, EnumInt) else "%s.%s" % (x.cls.name, x.ename)
        if isinstance(x, SCALARS):
            return str(x)
        if isinstance(x, InstVal) and not x.cls.is_sub_name("BaseException") and \
                (x.cls.has("__str__") or x.cls.has("__repr__")):
            return self.call(self.getattr(x, "__str__" if x.cls.has("__str__") else "__repr__"), [])
        if isinstance(x, Term):
            if x.ty in ("str", "str_nn"):
                return x
            return mk("str", (x,), "str", True)
        return mk("str", (self.term_of(x),), "str", True)

    # comprehensions
    def comp_envs(self, gens, env, first):
        """the bindings a comprehension's clauses produce, one environment (reused) per element"""
        cenv = Env(env, env.module, "comp")

        def rec(i, it):
            if i == len(gens):
                yield cenv
                return
            g = gens[i]
            for x in it if it is not None else self.pyiter(self.eval(g.iter, cenv)):
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    yield from rec(i + 1, None)
        return rec(0, first)

    def comp(self, gens, env, emit):
        for e in self.comp_envs(gens, env, self.pyiter(self.eval(gens[0].iter, env))):
            emit(e)

    def ex_ListComp(self, n, env):
        out = []
        first = self.eval(n.generators[0].iter, env)
        if len(n.generators) == 1:
            self.set_order(N(first))
        for e in self.comp_envs(n.generators, env, self.pyiter(first)):
            out.append(self.eval(n.elt, e))
        return ListVal(out, self.birth())

    def ex_GeneratorExp(self, n, env):
        first = self.eval(n.generators[0].iter, env)
        return self.lazy((self.eval(n.elt, e) for e in self.comp_envs(n.generators, env, self.pyiter(first))), first)

    def ex_SetComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return self.new_set(out)

    def ex_DictComp(self, n, env):
        d = DictVal((), self.birth())
        self.comp(n.generators, env, lambda e: self.dict_set(d, self.eval(n.key, e), self.eval(n.value, e)))
        return d

    def ex_Yield(self, n, env):
        self.unsupported("yield")

    ex_YieldFrom = ex_Yield

    # sets
    def new_set(self, items):
        out = []
        for x in items:
            if not any(self.same_now(x, y) for y in out):
                out.append(x)
        return SetVal(out, self.birth())

    def same_now(self, a, b):
        plain = SCALARS + (Term,)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_now(x, y) for x, y in zip(a, b))
        l = N(self.eq_vals(a, b)) if isinstance(a, plain) and isinstance(b, plain) or \
            isinstance(a, InstVal) and a.cls.has("__eq__") else a is b
        if isinstance(l, bool):
            return l
        return self.run is not None and self.run.facts.decide(l) is True

    def resolve_set(self, s):
        """force distinctness decisions"""
        out = []
        for x in s.items:
            if not any(self.truth(self.eq_vals(x, y)) for y in out):
                out.append(x)
        s.items = out
        return out

    def set_len(self, s):
        n = len(s.items)
        if n <= 1:
            return n
        und = False
        for i in range(n):
            for j in range(i):
                l = N(self.eq_vals(s.items[i], s.items[j]))
                if not isinstance(l, bool):
                    if self.run.facts.decide(l) is None:
                        und = True
        if not und:
            return len(self.resolve_set(s))
        elems = tuple(sorted((self.term_of(x) for x in s.items), key=lambda t: t.id))
        ct = mk("card", (elems,), "int", True)
        f = self.run.facts
        if not any(c is ct for c, _ in f.cards):
            f.cards.append((ct, elems))
            f.assume(ge0(sub(n, ct)), True)
            f.assume(ge0(sub(ct, 1)), True)
        return ct

    def set_op(self, op, a, b):
        a, b = self.resolve_set(a), self.resolve_set(b)
        if isinstance(op, ast.BitOr):
            return self.new_set(a + b)
        if isinstance(op, ast.BitAnd):
            return self.new_set([x for x in a if self.contains(ListVal(b), x)])
        if isinstance(op, ast.Sub):
            return self.new_set([x for x in a if not self.contains(ListVal(b), x)])
        if isinstance(op, ast.BitXor):
            return self.new_set([x for x in a if not self.contains(ListVal(b), x)] +
                                [x for x in b if not self.contains(ListVal(a), x)])
        self.raise_("TypeError", "set operator")

    # dicts
    def key_eq(self, a, b):
        a, b = N(a), N(b)
        if isinstance(a, SCALARS + (Term,)) and isinstance(b, SCALARS + (Term,)):
            return N(eq(a, b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.eq_vals(a, b)
        if any(isinstance(x, InstVal) and x.cls.has("__eq__") for x in (a, b)):
            return self.eq_vals(a, b)
        return a is b

    def dict_find(self, d, k):
        for p in reversed(d.pairs):
            l = self.key_eq(k, p[0])
            if l is True:
                return p
        for p in reversed(d.pairs):
            l = self.key_eq(k, p[0])
            if isinstance(l, Term) and self.choose(l):
                return p
        return None

    def dict_set(self, d, k, v):
        if isinstance(d, AttrDict):
            k = N(k)
            if not isinstance(k, str):
                self.unsupported("attribute name")
            self.mutate(d.owner, (k, v))
            d.mapping[k] = v
            return
        self.mutate(d, (k, v))
        p = self.dict_find(d, k)
        if p is None:
            d.pairs.append([k, v])
        else:
            p[1] = v

    def dict_remove(self, d, p):
        if isinstance(d, AttrDict):
            self.mutate(d.owner, (p[0], None))
            d.mapping.pop(p[0], None)
            return
        self.mutate(d, (p[0], None))
        d.pairs.remove(p)

    # ------------------------------------------------------------ iteration
    def pyiter(self, v):
        """a Python iterator over the elements, consumed as the analysed loop runs"""
        v = N(v)
        if isinstance(v, ListVal):
            return self.live(v)
        if isinstance(v, LazyVal):
            return self.drain(v)
        if isinstance(v, range):
            return iter(v)
        if isinstance(v, InstVal):
            if v.cls.has("__iter__"):
                it = self.call(self.getattr(v, "__iter__"), [])
                if isinstance(it, InstVal) and it.cls.has("__next__"):
                    return self.stepping(it)
                return self.pyiter(it)
            if v.cls.has("__getitem__"):
                return self.indexing(v)
        return iter(self.iterate(v))

    def live(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1
            if i > 20000:
                raise Truncated("list growing while iterated")

    def drain(self, v):
        n = 0
        while True:
            x = v.next(self)
            if x is END:
                return
            yield x
            n += 1
            if n > 20000:
                raise Truncated("iterator")

    def stepping(self, it):
        n = 0
        while True:
            try:
                x = self.call(self.getattr(it, "__next__"), [])
            except AbsRaise as e:
                if e.exc.cls.name == "StopIteration":
                    return
                raise
            yield x
            n += 1
            if n > 2000:
                raise Truncated("iterator")

    def indexing(self, v):
        n = 0
        while True:
            try:
                x = self.call(self.getattr(v, "__getitem__"), [n])
            except AbsRaise as e:
                if e.exc.cls.name == "IndexError":
                    return
                raise
            yield x
            n += 1
            if n > 2000:
                raise Truncated("iterator")

    def iterate(self, v, want=None):
        v = N(v)
        if isinstance(v, (ListVal,)):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, SetVal):
            return list(self.resolve_set(v))
        if isinstance(v, DictVal):
            return [k for k, _ in v.pairs]
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, range):
            if len(v) > 20000:
                raise Truncated("range")
            return list(v)
        if isinstance(v, InstVal):
            if v.cls.has("__iter__") or v.cls.has("__getitem__"):
                return list(self.pyiter(v))
            self.raise_("TypeError", "not iterable")
        if isinstance(v, DbObj) and v.kind == "array":
            return self.icon_mod.arr_items(self, v)
        if isinstance(v, Term):
            self.assume_nonnull(v, "TypeError")
            if want:
                return [mk("item", (v, i), "any") for i in range(want)]
            ln = mk("len", (v,), "int", True)
            n = self.choose_len(ln)
            return [mk("item", (v, i), "any") for i in range(n)]
        if isinstance(v, LazyVal):
            return list(self.drain(v))
        if isinstance(v, ClassVal) and "__members__" in v.ns:
            return [x for _, x in v.ns["__members__"].pairs]
        if isinstance(v, OpaqueVal):
            return []
        if v is None or isinstance(v, (int, float, FuncVal, BuiltinVal, BoundVal, ClassVal, ModuleVal)):
            self.raise_("TypeError", "not iterable")
        self.unsupported("iterate %r" % (v,))

    def choose_len(self, ln, neg=False):
        ln = N(ln)
        if isinstance(ln, int):
            return ln
        if neg and self.truth(ge0(sub(-1, ln))):
            return 0
        d = N(self.run.facts.canon(ln))
        if isinstance(d, int):
            return d
        for k in range(0, 4):
            if self.choose(eq0(sub(ln, k))):
                return k
        raise Truncated("symbolic sequence longer than 3")

    def split_model(self, o, sep):
        if self.run is None:
            self.unsupported("split at import time")
        n = mk("splitlen", (o, T(sep)), "int", True)
        d = N(self.run.facts.canon(n))
        if not isinstance(d, int):
            d = self.choose_n(self.split_lens)
            self.run.facts.assume(eq0(sub(n, d)), True)
        return ListVal([mk("split", (o, T(sep), i), "str", True) for i in range(d)], self.birth())

    def implementers(self, iface, mname):
        return []

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = N(o)
        if isinstance(o, InstVal):
            return self.inst_getattr(o, name)
        if isinstance(o, ClassVal):
            return self.class_getattr(o, name)
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            if o.opaque:
                return OpaqueVal(o.name + "." + name)
            if self.module_file(o.name + "." + name):
                return self.load(o.name + "." + name)
            self.raise_("AttributeError", name)
        if isinstance(o, SuperVal):
            return self.super_getattr(o, name)
        if isinstance(o, (FuncVal, BuiltinVal)):
            return self.func_getattr(o, name)
        if isinstance(o, BoundVal):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.func_getattr(o.func, name)
        if isinstance(o, OpaqueVal):
            return OpaqueVal(o.name + "." + name)
        if isinstance(o, PropertyVal):
            if name == "setter":
                return BuiltinVal("setter", lambda ip, a, k: PropertyVal(o.fget, a[0]))
            self.unsupported("property attr")
        if o is None:
            self.raise_("AttributeError", "None." + name)
        if isinstance(o, (NTup, EnumInt, EnumStr)):
            if name == "__class__":
                return o.cls
            if isinstance(o, NTup):
                if name in o.cls.fields():
                    return o[o.cls.fields().index(name)]
            elif name in ("name", "_name_", "value", "_value_"):
                return o.ename if name in ("name", "_name_") else (int(o) if isinstance(o, EnumInt) else str.__str__(o))
            f, c = o.cls.lookup(name)
            if c is not None:
                return self.bind(f, o, o.cls)
        from . import builtins_model
        return builtins_model.value_getattr(self, o, name)

    def bind(self, f, inst, cls):
        if isinstance(f, (FuncVal,)):
            return BoundVal(f, inst)
        if isinstance(f, BuiltinVal):
            return BoundVal(f, inst) if getattr(f, "method", False) else f
        if isinstance(f, StaticVal):
            return f.f
        if isinstance(f, ClassMethodVal):
            return BoundVal(f.f, cls)
        if isinstance(f, PropertyVal):
            return self.call(f.fget, [inst])
        if isinstance(f, InstVal) and f.cls.has("__get__"):
            return self.call(self.getattr(f, "__get__"), [inst, cls])
        return f

    def inst_getattr(self, o, name, default_lookup=True):
        if default_lookup and o.cls.has("__getattribute__") and not name.startswith("__"):
            f, c = o.cls.lookup("__getattribute__")
            if isinstance(f, FuncVal):
                return self.call(BoundVal(f, o), [name])
        f, c = o.cls.lookup(name)
        if isinstance(f, PropertyVal):
            return self.call(f.fget, [o])
        if isinstance(f, InstVal) and f.cls.has("__set__") and f.cls.has("__get__"):
            return self.bind(f, o, o.cls)
        if name in o.attrs:
            return o.attrs[name]
        if c is not None:
            return self.bind(f, o, o.cls)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return AttrDict(o, "attrs")
        g, _ = o.cls.lookup("__getattr__")
        if g is not None:
            return self.call(BoundVal(g, o), [name])
        self.raise_("AttributeError", name)

    def class_getattr(self, o, name):
        f, c = o.lookup(name)
        if c is not None:
            if isinstance(f, StaticVal):
                return f.f
            if isinstance(f, ClassMethodVal):
                return BoundVal(f.f, o)
            if isinstance(f, InstVal) and f.cls.has("__get__"):
                return self.call(self.getattr(f, "__get__"), [None, o])
            return f
        from . import builtins_model
        if name in builtins_model.OBJECT_METHODS:
            return builtins_model.OBJECT_METHODS[name]
        if o.meta is not None:
            f, c = o.meta.lookup(name)
            if c is not None:
                return self.bind(f, o, o.meta)
        if name == "__name__" or name == "__qualname__":
            return o.name
        if name == "__dict__":
            return AttrDict(o, "ns")
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__bases__":
            return tuple(o.bases)
        if name == "__doc__":
            return None
        if name == "__module__":
            return o.module.name if o.module else "builtins"
        if name == "__class__":
            return self.builtins["type"]
        self.raise_("AttributeError", "%s.%s" % (o.name, name))

    def super_getattr(self, s, name):
        start = s.self_.cls if isinstance(s.self_, InstVal) else s.self_
        mro = start.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            if name in c.ns:
                return self.bind(c.ns[name], s.self_, start)
        if name == "__init__":
            return BuiltinVal("object.__init__", lambda ip, a, k: None)
        if name == "__setattr__":
            return BuiltinVal("object.__setattr__",
                              lambda ip, a, k: ip.setattr(s.self_, a[0], a[1], raw=True))
        if name == "__getattribute__":
            return BuiltinVal("object.__getattribute__",
                              lambda ip, a, k: ip.inst_getattr(s.self_, a[0], default_lookup=False))
        if name == "__new__" and isinstance(start, ClassVal):
            if start.is_sub_name("type"):
                return BuiltinVal("type.__new__", lambda ip, a, k: ip.builtins["type"].factory(ip, list(a[1:]), {}))
            nt = next((c for c in mro if c.nt_fields is not None), None)
            if nt is not None:
                return BuiltinVal("tuple.__new__", lambda ip, a, k: nt.nt_make(ip, a[0], a[1:], k))
        from . import builtins_model
        if name in builtins_model.OBJECT_METHODS:
            f = builtins_model.OBJECT_METHODS[name]
            return f if name == "__new__" else BoundVal(f, s.self_)
        self.raise_("AttributeError", "super." + name)

    def func_getattr(self, f, name):
        if name in f.flags:
            return f.flags[name]
        if name in ("__name__", "__qualname__"):
            return f.name if name == "__name__" else getattr(f, "qualname", f.name)
        if name == "__doc__":
            return None
        if name == "__wrapped__" and getattr(f, "wrapped", None) is not None:
            return f.wrapped
        if name == "__dict__":
            return AttrDict(f, "flags")
        if name == "__module__":
            return f.module.name if isinstance(f, FuncVal) else "builtins"
        if name == "__call__":
            return f
        if isinstance(f, BuiltinVal) and f.typename:
            from . import builtins_model
            return builtins_model.type_getattr(self, f, name)
        if isinstance(f, BuiltinVal) and hasattr(f, "attrs") and name in f.attrs:
            return f.attrs[name]
        self.raise_("AttributeError", name)

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, InstVal):
            if not raw and o.cls.has("__setattr__"):
                f, _ = o.cls.lookup("__setattr__")
                if isinstance(f, FuncVal):
                    return self.call(BoundVal(f, o), [name, v])
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropertyVal):
                if p.fset is None:
                    self.raise_("AttributeError", name)
                return self.call(p.fset, [o, v])
            if isinstance(p, InstVal) and p.cls.has("__set__"):
                return self.call(self.getattr(p, "__set__"), [o, v])
            self.mutate(o, (name, v))
            o.attrs[name] = v
        elif isinstance(o, (ClassVal, ModuleVal)):
            self.mutate(o, (name, v))
            o.ns[name] = v
        elif isinstance(o, (FuncVal, BuiltinVal)):
            self.mutate(o, (name, v))
            o.flags[name] = v
        elif isinstance(o, OpaqueVal):
            pass
        else:
            self.raise_("AttributeError", name)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        o, k = N(o), N(k)
        if isinstance(k, tuple) and k and k[0] == "__slice__":
            lo, hi, st = (N(x) for x in k[1:])
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                s = slice(lo, hi, st)
                if isinstance(o, ListVal):
                    return ListVal(o.items[s], self.birth())
                if isinstance(o, (tuple, str, bytes, range)):
                    return o[s]
            if isinstance(o, Term):
                return mk("slice", (o,) + tuple(T(x) for x in (lo, hi, st)), o.ty if o.ty in ("str", "bytes") else "any", True)
            self.unsupported("slice")
        if isinstance(o, (ListVal, tuple, range)):
            items = o.items if isinstance(o, ListVal) else o
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if -len(items) <= k < len(items):
                    return items[k]
                self.raise_("IndexError", "index")
            if isinstance(k, Term):
                for i in range(len(items)):
                    if self.choose(eq0(sub(k, i))):
                        return items[i]
                self.raise_("IndexError", "index")
            self.raise_("TypeError", "index")
        if isinstance(o, DictVal):
            p = self.dict_find(o, k)
            if p is None:
                self.raise_("KeyError", k if isinstance(k, str) else "key")
            return p[1]
        if isinstance(o, (str, bytes)):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    self.raise_("IndexError")
            return mk("item", (T(o), T(k)), "any")
        if isinstance(o, DbObj):
            return self.icon_mod.db_getitem(self, o, k)
        if isinstance(o, InstVal):
            if o.cls.has("__getitem__"):
                return self.call(self.getattr(o, "__getitem__"), [k])
            self.raise_("TypeError", "not subscriptable")
        if isinstance(o, Term):
            self.assume_nonnull(o, "TypeError")
            if o.op == "dict":
                for kv in o.args:
                    if kv.args[0] is T(k):
                        return N(kv.args[1])
            if o.op not in ("ext", "extret", "split"):
                self.may_raise("getitem", "KeyError", o, k)
                if o.op == "json" or o.op == "jget":
                    lit = mk("jhas", (o, T(k)), "bool", True)
                    if self.run.facts.decide(lit) is False:
                        self.raise_("KeyError", "key")
                    if self.run.facts.decide(lit) is None:
                        self.run.facts.assume(lit, True)
            ty = "any"
            return mk("jget" if isinstance(k, str) else "item", (o, T(k)), ty)
        if isinstance(o, OpaqueVal):
            return OpaqueVal(o.name + "[]")
        if isinstance(o, ClassVal) and "__members__" in o.ns and isinstance(k, str):
            return self.getitem(o.ns["__members__"], k)
        if isinstance(o, ClassVal) or isinstance(o, BuiltinVal):
            return o     # typing generics such as List[int]
        if o is None:
            self.raise_("TypeError", "None is not subscriptable")
        self.unsupported("subscript of %r" % (o,))

    def setitem(self, o, k, v):
        o, k = N(o), N(k)
        if isinstance(o, ListVal):
            if isinstance(k, int):
                self.mutate(o, (k, v))
                if -len(o.items) <= k < len(o.items):
                    o.items[k] = v
                    return
                self.raise_("IndexError")
            if isinstance(k, Term):
                for i in range(len(o.items)):
                    if self.choose(eq0(sub(k, i))):
                        self.mutate(o, (k, v))
                        o.items[i] = v
                        return
                self.raise_("IndexError")
            if isinstance(k, tuple) and k and k[0] == "__slice__" and all(x is None or isinstance(N(x), int) for x in k[1:]):
                self.mutate(o, (0, v))
                try:
                    o.items[slice(*(N(x) for x in k[1:]))] = self.iterate(v)
                except ValueError:
                    self.raise_("ValueError", "slice")
                return
            self.unsupported("list store")
        if isinstance(o, DictVal):
            return self.dict_set(o, k, v)
        if isinstance(o, DbObj):
            return self.icon_mod.db_setitem(self, o, k, v)
        if isinstance(o, InstVal):
            if o.cls.has("__setitem__"):
                return self.call(self.getattr(o, "__setitem__"), [k, v])
            self.raise_("TypeError", "no item assignment")
        self.raise_("TypeError", "no item assignment")

    def delitem(self, o, k):
        if isinstance(o, DictVal):
            p = self.dict_find(o, k)
            if p is None:
                self.raise_("KeyError", "key")
            self.dict_remove(o, p)
            return
        if isinstance(o, ListVal) and isinstance(N(k), int):
            self.mutate(o, (k, None))
            if not -len(o.items) <= N(k) < len(o.items):
                self.raise_("IndexError", "index")
            del o.items[N(k)]
            return
        if isinstance(o, ListVal) and isinstance(k, tuple) and k and k[0] == "__slice__" and \
                all(x is None or isinstance(N(x), int) for x in k[1:]):
            self.mutate(o, (0, None))
            del o.items[slice(*(N(x) for x in k[1:]))]
            return
        if isinstance(o, DbObj):
            return self.icon_mod.db_delitem(self, o, k)
        if isinstance(o, InstVal) and o.cls.has("__delitem__"):
            return self.call(self.getattr(o, "__delitem__"), [k])
        self.unsupported("del item")

    # ------------------------------------------------------------ calls
    def ex_Call(self, n, env):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            cls = None
            first = None
            fe = env
            while fe is not None and fe.kind == "comp":
                fe = fe.parent
            e = fe
            while e is not None:
                if e.kind == "func" and first is None and "__self__" in e.vars:
                    first = e.vars["__self__"]
                if e.kind == "cell":
                    cls = e.vars["__class__"]
                    break
                e = e.parent
            if cls is None or first is None:
                self.unsupported("super()")
            return SuperVal(cls, first)
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, DictVal):
                    self.unsupported("** call")
                for kk, vv in d.pairs:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.lineno = n.lineno
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = N(f)
        if isinstance(f, BoundVal):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BuiltinVal):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, InstVal):
            if f.cls.has("__call__"):
                return self.call(self.getattr(f, "__call__"), args, kwargs)
            self.raise_("TypeError", "not callable")
        if isinstance(f, StaticVal):
            return self.call(f.f, args, kwargs)
        if isinstance(f, OpaqueVal):
            if self.run is not None:
                self.effect("opaque", name=f.name)
            return OpaqueVal(f.name + "()")
        if isinstance(f, Term):
            self.unsupported("call of symbolic value")
        self.raise_("TypeError", "not callable")

    def instantiate(self, cls, args, kwargs):
        if cls.is_sub_name("type") and cls.name != "type":
            new, _ = cls.lookup("__new__")
            if new is not None:
                return self.call(new.f if isinstance(new, StaticVal) else new, [cls] + list(args), kwargs)
        b = getattr(cls, "factory", None)
        if b is not None:
            return b(self, list(args), dict(kwargs))
        if cls.nt_fields is not None or any(c.nt_fields is not None for c in cls.mro[1:]):
            mk_ = next(c.nt_make for c in cls.mro if c.nt_fields is not None)
            new, _ = cls.lookup("__new__")
            return self.call(new.f if isinstance(new, StaticVal) else new, [cls] + list(args), kwargs) \
                if isinstance(new, FuncVal) else mk_(self, cls, args, kwargs)
        new, nc = cls.lookup("__new__")
        if new is not None:
            o = self.call(new.f if isinstance(new, StaticVal) else new, [cls] + list(args), kwargs)
            if not (isinstance(o, InstVal) and o.cls.is_sub(cls)):
                return o
        else:
            fac = next((c.factory for c in cls.mro if getattr(c, "factory_sub", None)), None)
            o = InstVal(cls, self.birth())
        if cls.is_sub_name("InterfaceScore"):
            init, ic = cls.lookup("__init__")
            return ProxyVal(args[0], cls) if args else self.raise_("TypeError")
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, o, cls), args, kwargs)
        elif cls.is_sub_name("BaseException"):
            o.attrs["args"] = tuple(args)
        elif args or kwargs:
            if new is None:
                self.raise_("TypeError", "%s takes no arguments" % cls.name)
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [p.arg for p in getattr(a, "posonlyargs", [])] + [p.arg for p in a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, nme in enumerate(names):
            if i < len(args):
                if nme in kwargs:
                    self.raise_("TypeError", "multiple values for " + nme)
                out[nme] = args[i]
            elif nme in kwargs:
                out[nme] = kwargs.pop(nme)
            else:
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    out[nme] = f.defaults[j]
                else:
                    self.raise_("TypeError", "%s missing argument %s" % (f.qualname, nme))
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            self.raise_("TypeError", "%s takes %d arguments" % (f.qualname, len(names)))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                out[p.arg] = f.kwdefaults[p.arg]
            else:
                self.raise_("TypeError", "missing keyword " + p.arg)
        if a.kwarg:
            out[a.kwarg.arg] = DictVal(kwargs.items(), self.birth())
        elif kwargs:
            self.raise_("TypeError", "%s unexpected keyword %s" % (f.qualname, sorted(map(str, kwargs))))
        return out

    def call_func(self, f, args, kwargs):
        if f.flags.get("eventlog"):
            return self.icon_mod.emit_event(self, f, args, kwargs)
        if args and isinstance(args[0], ProxyVal) and f.flags.get("interface"):
            # the interface function taken from the class: Proxy.method(score, ...)
            return self.call(self.getattr(args[0], f.name), list(args[1:]), kwargs)
        for h in self.intercepts:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Truncated("recursion")
        bound = self.bind_args(f, args, kwargs)
        env = Env(f.env, f.module, "func", f.qualname)
        env.vars.update(bound)
        if args:
            env.vars["__self__"] = args[0]
        if f.is_gen:
            if self.run is not None:
                self.run.funcs.add((f.module.name, f.qualname))
            return GenVal(self.gen_run(f.node.body, env), f, self.birth())
        saved = self.lineno
        self.cur.append((f.module, f.qualname))
        self.depth += 1
        if self.run is not None:
            self.run.funcs.add((f.module.name, f.qualname))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if self.merge and self.run is not None and self.simple_body(f.node.body):
                return self.joined(f.node.body, env)
            self.exec_block(f.node.body, env)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
            self.cur.pop()
            self.lineno = saved
        return r
