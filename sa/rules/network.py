"""C22-C26: conversion network (multi-hop routing) and score registry."""
from .base import *
from .owner import argsym, role_cond, valid_addr, score_loc, score_key_is
from .converter import all_terms, is_field

N_ = "Network"
MAXLEN = 21
QUICK = tuple(range(1, 25)) + (31, 41, 42, 101)
THOROUGH = tuple(range(1, 66)) + (101, 102, 201, 1001)


def lens(ctx):
    return THOROUGH if ctx.tier == "thorough" else QUICK


class NetReq:
    """One partition of an entry point that takes a conversion path."""

    def __init__(self, ctx, o, entry):
        self.ctx, self.o, self.entry = ctx, o, entry
        A = lambda p: argsym(ctx, N_, entry, p)
        f = o.facts
        self.terms = all_terms(o)
        self.data = None
        self.src = None
        self.minr = self.to = self.amount = None
        if entry == "tokenFallback":
            self.data = A("_data")
            self.trader, self.amount = A("_from"), A("_value")
            for t in self.terms:
                if is_field(t, self.data, "path"):
                    self.src = t
                if is_field(t, self.data, "minReturn"):
                    self.minr = t
            self.to = self.for_term()
        elif entry == "getExpectedReturnByPath":
            self.src, self.amount = A("_path"), A("_amount")
        else:
            self.src, self.minr, self.amount = A("_path"), A("_minReturn"), VALUE
            self.to = A("_for") if entry == "convertFor" else SENDER
        self.n = self.length()
        self.el = {}
        for t in self.terms:
            if t.op == "from_string":
                i = self.index_of(t.args[0])
                if i is not None:
                    self.el[i] = t
        self.result = None if self.data is None else ctx.eq3(o, self.data, b"conversionResult")

    # ---- the path
    def is_src(self, t):
        return isinstance(t, Term) and self.src is not None and t is T(self.src)

    def index_of(self, t):
        """t is (the trimmed) i-th comma separated part of the path string"""
        trimmed = False
        if isinstance(t, Term) and t.op == "strip":
            trimmed, t = True, t.args[0]
        if not (isinstance(t, Term) and t.op == "split" and self.is_src(t.args[0])):
            return None
        sep, i = t.args[1], t.args[2]
        sep = cval(sep) if isinstance(sep, Term) and is_const(sep) else sep
        i = cval(i) if isinstance(i, Term) and is_const(i) else i
        return i if sep == "," and isinstance(i, int) else None

    def length(self):
        for t in self.terms:
            if t.op == "splitlen" and self.is_src(t.args[0]):
                d = N(self.o.facts.canon(t))
                if isinstance(d, int):
                    return d
        return None

    def complete(self):
        return self.n is not None and all(i in self.el for i in range(self.n))

    def distinct(self):
        r = True
        hops = [self.el[i] for i in range(1, self.n or 0, 2) if i in self.el]
        for card, elems in self.o.facts.cards:      # |set(elems)| < len(elems)
            if all(any(e is h for h in hops) for e in elems) and \
                    self.o.facts.decide(ge0(sub(card, len(elems)))) is False:
                return False
        for i, a in enumerate(hops):
            for b in hops[i + 1:]:
                x = not3(self.ctx.eq3(self.o, a, b))
                r = all3(r, x)
                if r is False:
                    return r
        return r

    def path_conditions(self):
        if self.n is None:
            return []
        return [("the path has an odd number of elements", self.n % 2 == 1),
                ("the path makes at least one conversion", self.n > 2),
                ("the path makes at most 10 conversions", self.n <= MAXLEN),
                ("no flexible token is used twice", self.distinct())]

    # ---- the beneficiary of a tokenFallback request
    def for_term(self):
        """None if the recipient is neither the one named in the request nor, when there is none, the sender"""
        f = self.o.facts
        has = None
        for l, v in f.order:
            if l.op == "jhas" and self.data in atoms(l) and \
                    (l.args[1] == "for" or isinstance(l.args[1], Term) and is_const(l.args[1]) and cval(l.args[1]) == "for"):
                has = v
        if has is False:
            return self.trader
        for t in self.terms:
            if t.op == "from_string":
                x = t.args[0]
                if isinstance(x, Term) and x.op == "strip":
                    x = x.args[0]
                if is_field(x, self.data, "for"):
                    return t
        for t in self.terms:
            if is_field(t, self.data, "for") and f.same(t, None):
                return self.trader
        return None

    def registered(self, tok, ep=None):
        l = self.ctx.loc(N_, "getIcxTokenRegistered").at(_icxToken=tok)
        for e in ([ep] if ep is not None else range(self.o.epoch + 1)):
            r = self.o.facts.decide(l.term(e))
            if r is not None:
                return r
        return None

    def conditions(self):
        ctx, o, f = self.ctx, self.o, self.o.facts
        out = list(self.path_conditions())
        if self.entry == "getExpectedReturnByPath":
            return out + [("the amount is positive", f.decide(gt(self.amount, 0)))]
        if self.minr is not None:
            out.append(("the minimum return is positive", f.decide(gt(self.minr, 0))))
        if self.to is not None:
            out.append(("the beneficiary is a valid address", valid_addr(ctx, o, self.to)))
        if self.entry == "tokenFallback":
            if 0 in self.el:
                out.append(("the path starts with the token that was received", ctx.eq3(o, self.el[0], SENDER)))
            return out
        out.append(("the beneficiary is not the network", not3(ctx.eq3(o, self.to, SELF))))
        if 0 in self.el:
            out.append(("the path starts with a registered ICX token", self.registered(self.el[0], 0)))
        return out

    def malformed(self):
        """the data is no well-formed request"""
        if self.data is None:
            return False
        for l, v in self.o.facts.order:
            if self.data not in atoms(l):
                continue
            if l.op == "jhas" and (l.args[1] == "for" or isinstance(l.args[1], Term) and is_const(l.args[1])
                                   and cval(l.args[1]) == "for"):
                continue
            if l.op in ("ok", "jhas", "isinstance") and not v:
                return True
            if l.op in ("jtype", "isinst"):
                return True
        return False


ENTRIES = ("getExpectedReturnByPath", "convert", "convertFor", "tokenFallback")


def reqs(ctx, entry, status="ok"):
    k = ("net", entry, status)
    if k not in ctx._loc:
        if ctx.need(N_, entry, entry.startswith("get")) is None:
            return []
        ctx._loc[k] = [NetReq(ctx, o, entry) for o in ctx.outs(N_, entry, lens=lens(ctx)) if o.status == status]
    return ctx._loc[k]


def routed(ctx, entry):
    """successful requests other than the receipt of a conversion result"""
    return [r for r in reqs(ctx, entry) if r.result is not True]


def c22(ctx):
    skipped = 0
    for e in ENTRIES:
        seen = set()
        for r in routed(ctx, e):
            o = r.o
            ctx.ob("path-understood", "Network.%s" % e, r.complete(),
                   "runs without reading the path as a comma separated list of addresses", o)
            ctx.ob("blanks-ignored", "Network.%s" % e, all(t.args[0].op == "strip" for t in r.el.values()),
                   "blanks around an address are not ignored", o)
            for label, v in r.path_conditions():
                ctx.ob("path-valid", "Network.%s: %s" % (e, label), v is True,
                       "a path of %s elements is accepted without '%s' being established" % (r.n, label), o)
            seen.add(r.n)
        for n in range(3, MAXLEN + 1, 2):
            if n not in seen and n in ctx.P.outcomes_per_length(N_, e, lens(ctx))[1]:
                skipped += 1
                continue
            ctx.ob("path-supported", "Network.%s" % e, n in seen, "no path of %d elements is accepted" % n,
                   where=ctx.at_entry(N_, e))
        for r in reqs(ctx, e, "fail"):
            bad = any3(*[not3(v) for _, v in r.conditions()])
            ctx.ob("path-exact", "Network.%s" % e, bad is True or ctx.null_arg(r.o) or r.malformed(),
                   lambda: "refuses (%s) a request with a path of %s elements that meets every stated condition" % (
                       r.o.exc, r.n), r.o)
    ctx.floor("path-valid", 100)
    ctx.floor("path-supported", 40 - skipped)
    ctx.floor("path-exact", 20)


def hops(r):
    return [c for c in r.o.eff("call")]


def c23(ctx):
    reg = ctx.loc(N_, "getIcxTokenRegistered")
    for e in ("convert", "convertFor", "tokenFallback"):
        for r in reqs(ctx, e):
            o, f = r.o, r.o.facts
            if r.result is True:
                ctx.ob("result-accepted", "Network.tokenFallback", not [x for x in o.effects if x.kind in (
                    "call", "icx", "write", "arr", "event")], "reacts to the receipt of a conversion result", o)
                continue
            for label, v in r.conditions():
                ctx.ob("admission", "Network.%s: %s" % (e, label), v is True,
                       "a conversion starts without '%s' being established" % label, o)
            cs = o.eff("call")
            ctx.ob("request-complete", "Network.%s" % e, len(r.conditions()) == (7 if e == "tokenFallback" else 8),
                   "a conversion starts without minimum return, beneficiary or path", o)
            first = cs[0] if cs else None
            ctx.ob("source-amount", "Network.%s" % e, first is not None and 0 in r.el and
                   f.same(first.target, r.el[0]) and first.method == "transfer" and
                   f.same(first.args.get("_value", 0), r.amount),
                   lambda: "the first hop does not convert exactly the amount received (%s)" % (
                       show(T(first.args.get("_value", 0))) if first else "none"), o)
            icx = o.eff("icx")
            if e == "tokenFallback":
                ctx.ob("icx-forwarded", "Network.%s" % e, not icx, "moves ICX", o)
            else:
                ctx.ob("icx-forwarded", "Network.%s" % e, len(icx) == 1 and f.same(icx[0].to, r.el.get(0, 0)) and
                       f.same(icx[0].amount, VALUE) and icx[0].ok is True and
                       (first is None or icx[0].seq < first.seq),
                       "the received ICX is not turned into exactly the same amount of the source token first", o)
            ctx.ob("no-state", "Network.%s" % e, not ctx.changes(o), "a conversion changes the network's own state", o)
    ctx.ob("result-accepted", "Network.tokenFallback/offered", any(r.result is True for r in reqs(ctx, "tokenFallback")),
           "the network cannot receive conversion results")
    # which tokens count as ICX tokens
    e = "registerIcxToken"
    if ctx.need(N_, e, False):
        t, v = argsym(ctx, N_, e, "_icxToken"), argsym(ctx, N_, e, "_register")
        ctx.accept("register", N_, e, lambda o: [
            ("the caller is the owner", role_cond(ctx, o, N_, "owner")),
            ("the token is a valid address", valid_addr(ctx, o, t)),
            ("the token is not the network", not3(ctx.eq3(o, t, SELF)))])
        for o in ctx.ok(N_, e):
            ctx.expect_state("register-effect", "Network.%s" % e, o, [(reg.at(_icxToken=t), v)])
    for n, en in ctx.writers(N_, install=True):
        if n != e:
            for o in ctx.ok(N_, n):
                ctx.ob("register-sole-writer", "Network.%s" % n, not [w for w in ctx.changes(o) if w.fam[:3] == reg.id],
                       "changes which tokens are registered", o)
    ctx.floor("admission", 150)
    ctx.floor("source-amount", 25)
    ctx.floor("icx-forwarded", 25)


def payload(t):
    """encode(json_dumps({...}), utf-8) -> dict of terms"""
    t = N(t)
    if not isinstance(t, Term) or t.op not in ("encode",):
        return None
    j = t.args[0]
    if not isinstance(j, Term) or j.op != "json_dumps":
        return None
    d = j.args[0]
    if not isinstance(d, Term) or d.op != "dict":
        return None
    out = {}
    for kv in d.args:
        k = kv.args[0]
        out[cval(k) if isinstance(k, Term) and is_const(k) else k] = kv.args[1]
    return out


def owner_at(r, tok, ep):
    for v in r.ctx.views(r.o, "getOwner", tok):
        if v.epoch == ep:
            return v.result
    return None


def balance_at(r, tok, ep):
    for v in r.ctx.views(r.o, "balanceOf", tok, _owner=SELF):
        if v.epoch == ep:
            return v.result
    return None


def c24(ctx):
    for e in ("convert", "convertFor", "tokenFallback"):
        for r in routed(ctx, e):
            o, f, S = r.o, r.o.facts, r.o.facts.same
            cs = o.eff("call")
            C = lambda what: "Network.%s/%s" % (e, what)
            n = r.n or 0
            if not ctx.ob("hop-count", C("hops"), r.complete() and len(cs) == n // 2 + 1,
                          lambda: "%d calls for a path of %s elements" % (len(cs), r.n), o):
                continue
            amt = r.amount
            for k, i in enumerate(range(1, n, 2)):
                c = cs[k]
                owner = owner_at(r, r.el[i], c.epoch)
                ctx.ob("hop-token", C("hop"), c.method == "transfer" and S(c.target, r.el[i - 1]) and
                       isinstance(c.value, int) and c.value == 0,
                       lambda: "hop %d does not transfer the token of the previous step" % (k + 1), o, c.where)
                ctx.ob("hop-converter", C("hop"), owner is not None and S(c.args.get("_to", 0), owner),
                       lambda: "hop %d does not go to the converter that controls the flexible token (%s)" % (
                           k + 1, show(T(c.args.get("_to", 0)))), o, c.where)
                ctx.ob("hop-amount", C("hop"), S(c.args.get("_value", 0), amt),
                       lambda: "hop %d converts %s instead of what the previous hop returned" % (
                           k + 1, show(T(c.args.get("_value", 0)))), o, c.where)
                p = payload(c.args.get("_data", 0))
                ctx.ob("hop-request", C("hop"), p is not None and set(p) == {"toToken", "minReturn"},
                       lambda: "hop %d carries no well-formed request" % (k + 1), o, c.where)
                if p is not None and set(p) == {"toToken", "minReturn"}:
                    ctx.ob("hop-target", C("hop"), S(p["toToken"], mk("str", (r.el[i + 1],), "str", True)),
                           lambda: "hop %d asks for %s" % (k + 1, show(p["toToken"])), o, c.where)
                    last = i == n - 2
                    ctx.ob("final-minimum" if last else "hop-minimum", C("hop"),
                           S(p["minReturn"], r.minr if last else 1) if r.minr is not None else None,
                           lambda: "hop %d of %d uses the minimum return %s" % (k + 1, n // 2, show(T(p["minReturn"]))),
                           o, c.where)
                b0, b1 = balance_at(r, r.el[i + 1], c.epoch), balance_at(r, r.el[i + 1], c.epoch + 1)
                amt = sub(b1, b0) if b0 is not None and b1 is not None else None
                ctx.ob("hop-measured", C("hop"), amt is not None,
                       lambda: "the yield of hop %d is not the increase of the network's balance" % (k + 1), o, c.where)
                if amt is None:
                    break
            if amt is None:
                continue
            d = cs[-1]
            isicx = r.registered(r.el[n - 1])
            z = isinstance(d.value, int) and d.value == 0
            if isicx is True:
                ok = d.method == "withdrawTo" and S(d.args.get("_to", 0), r.to) and S(d.args.get("_amount", 0), amt)
            elif isicx is False:
                ok = d.method == "transfer" and S(d.args.get("_to", 0), r.to) and S(d.args.get("_value", 0), amt)
            else:
                ok = None
            ctx.ob("delivery", C("delivery-%s" % {True: "icx", False: "token"}.get(isicx)), ok and z and
                   S(d.target, r.el[n - 1]),
                   lambda: "the outcome is not delivered in full to the beneficiary: %s.%s(%s)" % (
                       show(d.target), d.method, ", ".join("%s=%s" % (a, show(T(b))) for a, b in d.args.items())), o, d.where)
            if e != "tokenFallback":
                ctx.ob("reported-return", C("return"), o.ret is not None and S(o.ret, amt),
                       "does not return the delivered amount", o)
    for r in routed(ctx, "getExpectedReturnByPath"):
        o, f, S = r.o, r.o.facts, r.o.facts.same
        if not r.complete():
            continue
        amt, good = r.amount, True
        for i in range(1, r.n, 2):
            owner = owner_at(r, r.el[i], 0)
            v = [x for x in ctx.views(o, "getReturn", owner) if S(x.args.get("_fromToken", 0), r.el[i - 1]) and
                 S(x.args.get("_toToken", 0), r.el[i + 1]) and S(x.args.get("_amount", 0), amt)] if owner is not None else []
            if not v:
                good = False
                break
            amt = mk("jget", (v[0].result, T("amount")), "any")
        ctx.ob("quote-chain", "Network.getExpectedReturnByPath", good and isinstance(o.ret, Term) and (
            S(o.ret, amt) or o.ret.op == "jget" and amt.op == "jget" and o.ret.args[0] is amt.args[0] and o.ret is amt),
               "is not the composition of the converters' quotes along the path", o)
    ctx.floor("hop-token", 100)
    ctx.floor("delivery", 25)
    ctx.floor("quote-chain", 5)


def c25(ctx):
    from . import converter as cv
    # requests that are not well-formed never have an effect, and nothing that went wrong is swallowed
    for c in ctx.P.contracts:
        for n, en in ctx.contract(c).entries.items():
            for o in ctx.ok(c, n):
                # a lookup that finds nothing is an answer, not an error (what a request must contain: request-field)
                bad = [x for x in o.eff("caught") if not (x.implicit and x.name in ("KeyError", "IndexError", "StopIteration"))]
                ctx.ob("no-swallowed-error", "%s.%s" % (c, n), not bad,
                       lambda: "succeeds although %s was raised" % bad[0].name, o, bad[0].where if bad else None)
                bad = [x for x in o.eff("icx") if x.ok is not True]
                ctx.ob("no-swallowed-error", "%s.%s/icx" % (c, n), not bad, "ignores a failed ICX transfer", o)
    for who, rs, fields in (("Converter", [(r, r.o, r.data) for r in cv.conversions(ctx)], ("toToken", "minReturn")),
                            ("Network", [(r, r.o, r.data) for r in routed(ctx, "tokenFallback")], ("path", "minReturn"))):
        ctx.ob("offered", "%s.tokenFallback" % who, bool(rs), "no request is accepted")
        for r, o, data in rs:
            lits = list(o.facts.order)
            has = lambda op, **k: any(v and l.op == "ok" and l.args and _name(l.args[0]) == op and data in atoms(l)
                                      for l, v in lits)
            ctx.ob("request-decoded", "%s.tokenFallback" % who, has("decode") and has("json_loads"),
                   "accepts data that is not JSON text", o)
            raw = [t for t in all_terms(o) if t.op == "json" and data in atoms(t)]
            ctx.ob("request-decoded", "%s.tokenFallback/text" % who, bool(raw) and all(
                isinstance(t.args[0], Term) and t.args[0].op == "decode" and t.args[0].args[0] is data and
                _name(t.args[0].args[1]) == "utf-8" for t in raw), "reads the request from something else than UTF-8 text", o)
            if who == "Network":
                ctx.ob("request-recipient", "Network.tokenFallback/for", r.to is not None,
                       "replaces a malformed recipient instead of refusing it", o)
            for fl in fields:
                ctx.ob("request-field", "%s.tokenFallback/%s" % (who, fl), any(
                    v and l.op == "jhas" and data in atoms(l) and _name(l.args[1]) == fl for l, v in lits),
                    "accepts a request without %s" % fl, o)
            if who == "Network":
                ctx.ob("request-integer", "Network.tokenFallback/minReturn", r.minr is not None and any(
                    v and l.op in ("isinstance", "jtype", "isinst", "eq") and r.minr in atoms(l) and
                    any(_name(a) in ("int", "type:int") for a in l.args) for l, v in lits),
                    "accepts a minimum return that is not an integer", o)
    # what is not a request is only accepted where the protocol says so
    for r in reqs(ctx, "tokenFallback"):
        acts = [x for x in r.o.effects if x.kind in ("call", "icx")]
        ctx.ob("no-silent-acceptance", "Network.tokenFallback", bool(acts) or r.result is True,
               "keeps tokens that came without a valid request", r.o)
    for r in cv.reqs(ctx):
        ctx.ob("no-silent-acceptance", "Converter.tokenFallback", r.is_conversion or r.deposit_ok() is True,
               "keeps tokens that came without a valid request", r.o)
    for c in ("Network", "Converter", "FlexibleToken", "IcxToken", "IRCToken", "ScoreRegistry"):
        k = ctx.contract(c)
        if c not in ("Network", "Converter"):
            ctx.ob("no-silent-acceptance", c, "tokenFallback" not in k.entries,
                   "%s accepts tokens sent to it" % c, where=k.module.path)
    ctx.floor("no-swallowed-error", 200)
    ctx.floor("request-decoded", 10)
    ctx.floor("no-silent-acceptance", 15)


def _name(a):
    return cval(a) if isinstance(a, Term) and is_const(a) else a


def items_of(v):
    if isinstance(v, ListVal):
        return [N(x) for x in v.items]
    return [N(x) for x in v] if isinstance(v, tuple) else None


def c26(ctx):
    c = "ScoreRegistry"
    for e, ro in (("getAddress", True), ("getScoreIds", True), ("registerAddress", False), ("unregisterAddress", False)):
        ctx.need(c, e, ro)
    sl = score_loc(ctx)
    ids = None
    for o in ctx.outs(c, "getScoreIds"):
        v = items_of(o.ret) if o.status == "ok" else None
        ctx.ob("known-names", "ScoreRegistry.getScoreIds", v is not None and all(isinstance(x, str) for x in v) and
               {"ScoreRegistry", "Network"} <= set(v) and len(set(v)) == len(v),
               "does not report the fixed list of score names", o)
        ids = v
    ids = ids or []
    n, a = argsym(ctx, c, "registerAddress", "_scoreName"), argsym(ctx, c, "registerAddress", "_scoreAddress")
    ctx.accept("register", c, "registerAddress", lambda o: [
        ("the caller is the owner", role_cond(ctx, o, c, "owner")),
        ("the address is valid", valid_addr(ctx, o, a)),
        ("the address is a contract", o.facts.decide(mk("is_contract", (a,), "bool", True))),
        ("the name is a known score name", any3(False, *[ctx.eq3(o, n, x) for x in ids]))])
    for o in ctx.ok(c, "registerAddress"):
        ctx.expect_state("register-effect", "ScoreRegistry.registerAddress", o, [(sl.at(_scoreName=n), a)])
    n = argsym(ctx, c, "unregisterAddress", "_scoreName")
    l = sl.at(_scoreName=n)
    ctx.accept("unregister", c, "unregisterAddress", lambda o: [
        ("the caller is the owner", role_cond(ctx, o, c, "owner")),
        ("the name is registered", not3(ctx.eq3(o, l.term(0), None)))])
    for o in ctx.ok(c, "unregisterAddress"):
        ctx.expect_state("unregister-effect", "ScoreRegistry.unregisterAddress", o, [(l, None)])
    n = argsym(ctx, c, "getAddress", "_scoreName")
    l = sl.at(_scoreName=n)
    for o in ctx.outs(c, "getAddress"):
        un = ctx.eq3(o, l.term(0), None)
        ctx.ob("lookup", "ScoreRegistry.getAddress", o.status == "ok" and (
            o.facts.same(o.ret, ZERO) if un is True else un is False and o.facts.same(o.ret, l.term(0))),
            lambda: "reports %s" % show(T(o.ret)) if isinstance(o.ret, (Term,) + SCALARS) else "fails", o)
    for e, en in ctx.writers(c):
        if e in ("registerAddress", "unregisterAddress"):
            continue
        for o in ctx.ok(c, e):
            ctx.ob("registry-sole-writers", "ScoreRegistry.%s" % e, not [w for w in ctx.changes(o) if w.fam[:3] == sl.id],
                   "changes a registered address", o)
    # names under which contracts look each other up are names the registry knows
    for k in ctx.P.contracts:
        for e in ctx.contract(k).entries:
            for o in ctx.outs(k, e):
                for v in o.eff("view"):
                    if v.method == "getAddress":
                        x = [N(y) for y in v.args.values()]
                        ctx.ob("lookup-names", "%s.%s" % (k, e), len(x) == 1 and x[0] in ids,
                               lambda: "looks up the unknown score name %s" % x, o, v.where)
    ctx.floor("register", 8)
    ctx.floor("lookup", 2)
    ctx.floor("lookup-names", 4)
