"""Shared vocabulary of the rules: observable locations, three-valued conditions, obligations.

Rules never name private attributes of a contract.  Storage locations are identified through the
public read-only interface: `ctx.loc('Converter', 'getOwner')` is *the location getOwner reports*.
"""
from ..analyze import Program, Unsupported
from ..icon_model import SELF, SENDER, VALUE, ZERO, cell_term, default_of
from ..terms import *
from ..values import *

TOKENS = ("IRCToken", "FlexibleToken", "IcxToken")


class Broken(Exception):
    """The analysis cannot give a verdict (a vanished anchor, an unmodelled construct)."""


class Loc:
    """A storage location family with a key template."""

    def __init__(self, fam, keys):
        self.fam, self.keys = fam, tuple(keys)
        self.immutable = False

    @property
    def id(self):
        return self.fam[:3]

    def at(self, **args):
        m = {sym_of(self, k): T(v) for k, v in args.items()}
        names = {k: T(v) for k, v in args.items()}

        def f(t):
            if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("arg."):
                return names.get(t.args[0][4:])
            return None
        l = Loc(self.fam, [T(subst(k, f)) for k in self.keys])
        l.immutable = self.immutable
        return l

    def term(self, ep=0):
        return cell_term(self.fam, self.keys, 0 if self.immutable else ep)

    def __repr__(self):
        return "%s%s" % (self.fam[1], "".join("[%s]" % show(k) for k in self.keys))


def sym_of(loc, k):
    return k


# ---- three valued logic
def any3(*xs):
    if any(x is True for x in xs):
        return True
    return False if all(x is False for x in xs) else None


def all3(*xs):
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def not3(x):
    return None if x is None else not x


class Ctx:
    def __init__(self, pid, program, tier="quick"):
        self.pid, self.P, self.tier = pid, program, tier
        self.obligations = 0
        self.failed = 0
        self.violations = []
        self._keys = set()
        self.rules = {}
        self.samples = []
        self.outcomes_used = set()
        self.parts = 0
        self.entries_used = set()
        self.notes = []
        self._loc = {}

    # ------------------------------------------------------------------ reporting
    def ob(self, rule, construct, cond, msg="", o=None, where=None):
        """One obligation of `rule` at `construct`; cond must be True."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond is True:
            if len(self.samples) < 6 and (not self.samples or self.samples[-1]["rule"] != rule):
                self.samples.append({"rule": rule, "construct": construct,
                                     "path": [str(x)[:200] for x in o.path()[:8]] if o is not None else None})
            return True
        self.failed += 1
        key = (rule, construct)
        if key in self._keys:
            return False
        self._keys.add(key)
        if callable(msg):
            msg = msg()
        v = {"rule": rule, "construct": construct, "message": str(msg)[:1500]}
        if o is not None:
            v["entry"] = "%s.%s" % (o.contract, o.entry)
            v["path"] = [str(x)[:400] for x in o.path()]
            v["effects"] = ["%s %s" % (e.kind, str(e.where)) for e in o.effects][:40]
            where = where or o.where
        v["where"] = str(where) if where else None
        self.violations.append(v)
        return False

    def floor(self, rule, n):
        """instance-count floor confirmed by hand: fewer instances means the analysis lost its anchors"""
        if self.rules.get(rule, 0) < n and not self.violations:
            raise Broken("rule %s matched %d instances, expected at least %d" % (rule, self.rules.get(rule, 0), n))

    # ------------------------------------------------------------------ program access
    def contract(self, c):
        k = self.P.contracts.get(c)
        if k is None:
            raise Broken("contract %s not found among the deployable packages" % c)
        return k

    def has(self, c, e):
        return c in self.P.contracts and e in self.P.contracts[c].entries

    def need(self, c, e, readonly=None, rule="public-operation"):
        """the public operation exists (external, with the expected mutability)"""
        k = self.contract(c)
        if e not in k.entries:
            self.ob(rule, "%s.%s" % (c, e), False, "public operation %s.%s is not offered by the contract" % (c, e),
                    where=k.module.path)
            return None
        en = k.entries[e]
        if readonly is not None:
            self.ob(rule, "%s.%s" % (c, e), en.readonly is readonly and en.external,
                    "%s.%s must be external(readonly=%s)" % (c, e, readonly))
        return en

    def outs(self, c, e, **kw):
        if e not in self.contract(c).entries:
            return []
        outs = self.P.outcomes_per_length(c, e, kw["lens"])[0] if "lens" in kw else self.P.outcomes(c, e, **kw)
        key = (c, e, tuple(sorted(map(str, kw.items()))))
        if key not in self.outcomes_used:
            self.outcomes_used.add(key)
            self.parts += len(outs)
            self.entries_used.add("%s.%s" % (c, e))
        cut = [o for o in outs if o.status == "truncated"]
        if cut:
            # a loop over a caller-chosen number, a very long exploration: the rest is analysed, the bound is reported
            note = "%s.%s: %s" % (c, e, cut[0].where)
            if note not in self.P.bounded:
                self.P.bounded.append(note)
            if not any(o.status == "ok" for o in outs):
                raise Broken("every partition of %s.%s exceeds the analysis bound" % (c, e))
            outs = [o for o in outs if o.status != "truncated"]
        # a transaction that fails because a contract it called failed needs no further justification
        return [o for o in outs if not (o.status == "fail" and any(x.kind == "calleefail" for x in o.effects))]

    def ok(self, c, e, **kw):
        return [o for o in self.outs(c, e, **kw) if o.status == "ok"]

    def fails(self, c, e, **kw):
        return [o for o in self.outs(c, e, **kw) if o.status == "fail"]

    def writers(self, c, install=False):
        """state-changing entry points"""
        for n, e in self.contract(c).entries.items():
            if e.kind in ("write", "fallback", "on_update") or (install and e.kind == "on_install"):
                yield n, e

    # ------------------------------------------------------------------ locations
    def loc(self, c, getter, field=None, check=True):
        """the location whose value the public getter reports"""
        k = (c, getter, field)
        if k in self._loc:
            return self._loc[k]
        if not self.has(c, getter):
            self.need(c, getter)
            raise Broken("%s.%s is missing" % (c, getter))
        cand = None
        exact = True
        for o in self.ok(c, getter):
            r = o.ret
            if field is not None:
                if not isinstance(r, DictVal):
                    continue
                d = {x: y for x, y in r.pairs if isinstance(x, str)}
                if not d:
                    continue
                if field not in d:
                    exact = False
                    continue
                r = d[field]
            cells = [x for x in sorted(o.reads, key=lambda t: t.id) if o.facts.same(x, r)] \
                if isinstance(r, (Term,) + SCALARS) else []
            cells = [x for x in cells if isinstance(r, Term) and x is r] or cells
            if not cells:
                exact = False
                cells = [x for x in sorted(atoms(r), key=lambda t: t.id) if x.op == "cell"] if isinstance(r, Term) else []
            if cells and cand is None:
                cand = cells[0]
        if cand is None:
            what = "%s.%s%s" % (c, getter, "." + field if field else "")
            self.ob("getter-reports-state", what, False, "the query does not report a stored value",
                    where=self.at_entry(c, getter))
            raise Broken(what + " does not report a stored value")
        l = Loc(cand.args[0], cand.args[1])
        self.P.compute_immutable(self.contract(c))
        l.immutable = l.id in self.contract(c).immutable
        if check:
            self.ob("getter-reports-state", "%s.%s%s" % (c, getter, "." + field if field else ""), exact,
                    "the getter does not report the stored value on every path")
        self._loc[k] = l
        return l

    def fam_written(self, c, e, pred, what):
        """the unique location family written by entry e satisfying pred(fam)"""
        s = {x.fam for o in self.ok(c, e) for x in o.eff("write") if pred(x.fam)}
        if len(s) != 1:
            raise Broken("cannot identify %s of %s (candidates %s)" % (what, c, sorted(map(str, s))))
        return s.pop()

    # ------------------------------------------------------------------ conditions
    def eq3(self, o, a, b):
        if o.facts.same(a, b):
            return True
        return False if o.facts.differ(a, b) else None

    def at_any(self, o, loc, val):
        """loc (at any epoch of the run) equals val: True / False (at epoch 0) / None"""
        for ep in range(o.epoch + 1):
            if o.facts.same(loc.term(ep), val):
                return True
        return False if o.facts.differ(loc.term(0), val) else None

    def is_caller(self, o, loc):
        return self.at_any(o, loc, SENDER)

    def truth(self, o, term):
        """value of a boolean term"""
        t = N(term)
        if isinstance(t, bool):
            return t
        return o.facts.decide(t)

    def cell_true(self, o, loc, eps=None):
        for ep in ([0] if eps is None else eps):
            r = o.facts.decide(loc.term(ep))
            if r is not None:
                return r
        return None

    def null_arg(self, o):
        """the run failed because something it needs was None"""
        for l, v in o.facts.order:
            if v and l.op == "eq" and any(is_const(a) and cval(a) is None for a in l.args):
                return True
        return False

    def views(self, o, method, target=None, **args):
        out = []
        for e in o.effects:
            if e.kind != "view" or e.method != method:
                continue
            if target is not None and not o.facts.same(e.target, target):
                continue
            if all(k in e.args and o.facts.same(e.args[k], v) for k, v in args.items()):
                out.append(e)
        return out

    # ------------------------------------------------------------------ writes
    def writes(self, o, loc):
        return [e for e in o.effects if e.kind == "write" and e.fam[:3] == loc.id and self.same_keys(o, e.keys, loc.keys)]

    def fam_writes(self, o, loc):
        return [e for e in o.effects if e.kind == "write" and e.fam[:3] == loc.id]

    def same_keys(self, o, a, b):
        return len(a) == len(b) and all(o.facts.same(x, y) for x, y in zip(a, b))

    def final(self, o, loc):
        """value the location holds when the entry point returns (reentrant changes aside)"""
        w = self.writes(o, loc)
        if w:
            return w[-1].value
        return default_of(loc.fam[3]) if o.entry == "on_install" else loc.term(0)

    def noop(self, o, w):
        return o.facts.same(w.value, w.old)

    def changes(self, o):
        """all state changes that are not provably no-ops"""
        return [e for e in o.effects if (e.kind == "write" and not self.noop(o, e)) or e.kind == "arr"]

    def expect_state(self, rule, construct, o, expected, scope=None):
        """the run leaves exactly the expected values in `expected` locations and changes nothing else
        (nothing else inside `scope`, a set of family ids, when given)"""
        good = True
        for loc, val in expected:
            fin = self.final(o, loc)
            good &= self.ob(rule, construct, self.same_val(o, fin, val),
                            lambda: "%s ends as %s, expected %s" % (loc, show(T(fin)), show(T(val))), o)
        for w in o.effects:
            if w.kind == "arr" and (scope is None or w.fam[:3] in scope):
                good &= self.ob(rule, construct, False, "unexpected change of list %s" % w.fam[1], o, w.where)
            if w.kind != "write" or self.noop(o, w):
                continue
            if scope is not None and w.fam[:3] not in scope:
                continue
            if any(w.fam[:3] == l.id and self.same_keys(o, w.keys, l.keys) for l, _ in expected):
                continue
            good &= self.ob(rule, construct, False, "unexpected change of %s%s := %s" % (
                w.fam[1], [show(k) for k in w.keys], show(T(w.value))), o, w.where)
        return good

    def same_val(self, o, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or \
                (isinstance(a, Term) and a.ty == "bool") or (isinstance(b, Term) and b.ty == "bool"):
            x, y = self.truth(o, a), self.truth(o, b)
            if x is not None and y is not None:
                return x == y
        return o.facts.same(a, b)

    # ------------------------------------------------------------------ acceptance
    def accept(self, rule, c, e, pre, exact=True, extra_reasons=None, okf=None, outs=None, **kw):
        """pre(o) -> [(label, three-valued condition)].
        ok outcomes: every condition is True.  failing outcomes (exact): some condition is False."""
        n = 0
        for o in (outs if outs is not None else self.outs(c, e, **kw)):
            conds = pre(o)
            if o.status == "ok":
                if okf is not None and not okf(o):
                    continue
                n += 1
                for label, v in conds:
                    self.ob(rule, "%s.%s: %s" % (c, e, label), v is True,
                            "succeeds without '%s' being established" % label, o,
                            where=self.at_entry(c, e))
            elif exact:
                good = any(v is False for _, v in conds) or self.null_arg(o) or \
                    (extra_reasons is not None and extra_reasons(o))
                self.ob(rule + "-exact", "%s.%s" % (c, e), good,
                        lambda: "refuses (%s) a request that meets every stated condition" % o.exc, o)
        return n

    def at_entry(self, c, e):
        f = self.contract(c).entries[e].func
        return "%s:%d" % (f.module.path, f.node.lineno)

    def nonneg(self, o, v, assume=()):
        """v >= 0 given o.facts and that every term in `assume` is >= 0"""
        f = o.facts
        if isinstance(v, (int, bool)):
            return v >= 0
        if f.decide(ge0(v)) is True:
            return True
        c = f.canon(v)
        if isinstance(c, int):
            return c >= 0
        ps = set(f.canon(T(x)) for x in assume)

        def atom_ok(a):
            return a in ps or f.decide(ge0(a)) is True or (a.op == "pow" and atom_ok(a.args[0]) if not is_const(a.args[0]) else a.op == "pow" and cval(a.args[0]) >= 0)

        def mono_ok(m, k):
            return k >= 0 and all(e % 2 == 0 or atom_ok(a) for a, e in m)
        p = to_poly(c)
        if all(mono_ok(m, k) for m, k in p.items()):
            return True
        # split off a known-nonnegative fact
        for g in f.ges():
            q = padd(p, g, -1)
            if all(mono_ok(m, k) for m, k in q.items()):
                return True
        # v = x - y with x >= y known through the assumed cells
        for g in f.ges():
            for x in ps:
                if isinstance(x, Term):
                    q = padd(padd(p, g, -1), to_poly(x), -1)
                    if all(mono_ok(m, k) for m, k in q.items()):
                        return True
        return False
