"""C11-C21: the converter."""
from .base import *
from .owner import argsym, role_cond, valid_addr

C = "Converter"
MAX = 1000000


class Req:
    """One partition of Converter.tokenFallback seen as a request."""

    def __init__(self, ctx, o):
        self.ctx, self.o = ctx, o
        f = o.facts
        A = lambda p: argsym(ctx, C, "tokenFallback", p)
        self.trader, self.amount, self.data = A("_from"), A("_value"), A("_data")
        self.to = self.minr = None
        self.jraw = set()
        for t in all_terms(o):
            if t.op == "from_string" and is_field(t.args[0], self.data, "toToken"):
                self.to = t
            if is_field(t, self.data, "minReturn"):
                self.minr = t
        tok = ctx.loc(C, "getToken")
        self.token = tok.term(0)
        self.token_loc = tok
        self.kind = None
        if self.to is not None:
            b, s = ctx.eq3(o, self.to, self.token), ctx.eq3(o, SENDER, self.token)
            if b is True:
                self.kind = "buy"
            elif s is True:
                self.kind = "sell"
            elif b is False and s is False:
                self.kind = "cross"
        self.calls = o.eff("call")
        self.is_conversion = bool(self.calls) or bool(o.eff("event"))

    # -- the observable state the specification talks about
    def conn(self, field, who):
        return self.ctx.loc(C, "getConnector", field).at(_address=who)

    def flag(self, field, who, ep=0):
        return self.o.facts.decide(self.conn(field, who).term(ep))

    def view0(self, method, target, **args):
        v = [e for e in self.ctx.views(self.o, method, target, **args) if e.epoch == 0]
        return v[0].result if v else None

    def active(self):
        v = self.view0("getOwner", self.token)
        if v is None:
            return None
        return self.ctx.eq3(self.o, v, SELF)

    def supply(self):
        return self.view0("totalSupply", self.token)

    def balance(self, who, deposited):
        """connector balance the price is computed from: virtual if enabled, else the actual holdings
        before the deposit"""
        e = self.flag("isVirtualBalanceEnabled", who)
        if e is None:
            return None
        if e:
            return self.conn("virtualBalance", who).term(0)
        b = self.view0("balanceOf", who, _owner=SELF)
        if b is None:
            return None
        return sub(b, self.amount) if deposited else b

    def weight(self, who):
        return self.conn("weight", who).term(0)

    def gross(self):
        """the specified gross return, or None if its ingredients are unknown on this path"""
        fm = lambda n, *a: None if any(x is None for x in a) else mk("formula", (n,) + tuple(T(x) for x in a), "int", True)
        if self.kind == "buy":
            return fm("calculate_purchase_return", self.supply(), self.balance(SENDER, True), self.weight(SENDER), self.amount)
        if self.kind == "sell":
            return fm("calculate_sale_return", self.supply(), self.balance(self.to, False), self.weight(self.to), self.amount)
        if self.kind == "cross":
            return fm("calculate_cross_connector_return", self.balance(SENDER, True), self.weight(SENDER),
                      self.balance(self.to, False), self.weight(self.to), self.amount)

    def mag(self):
        return 2 if self.kind == "cross" else 1

    def net(self, gross=None):
        g = self.gross() if gross is None else gross
        if g is None:
            return None
        fee = self.ctx.loc(C, "getConversionFee").term(0)
        return floordiv(mul(N(g), power(sub(MAX, fee), self.mag())), MAX ** self.mag())

    def paid(self):
        """(amount, calls are exactly the specified ones)"""
        cs, f = self.calls, self.o.facts
        S = f.same
        z = lambda c: isinstance(c.value, int) and c.value == 0
        if self.kind == "buy":
            if len(cs) == 1 and cs[0].method == "issue" and S(cs[0].target, self.token) and z(cs[0]) and \
                    S(cs[0].args.get("_to", 0), self.trader):
                return cs[0].args["_amount"], True
            return None, False
        pay = [c for c in cs if c.method == "transfer"]
        if len(pay) != 1:
            return None, False
        p = pay[0]
        good = S(p.target, self.to) and S(p.args.get("_to", 0), self.trader) and z(p) and \
            S(p.args.get("_data", 0), b"conversionResult")
        rest = [c for c in cs if c is not p]
        if self.kind == "sell":
            good = good and len(rest) == 1 and rest[0].method == "destroy" and S(rest[0].target, self.token) and \
                S(rest[0].args.get("_from", 0), SELF) and S(rest[0].args.get("_amount", 0), self.amount) and z(rest[0])
        else:
            good = good and not rest
        return p.args.get("_value"), good

    def network(self):
        """the trader is what the registry names as the conversion network"""
        reg = self.ctx.loc(C, "getRegistry")
        for v in self.ctx.views(self.o, "getAddress"):
            if self.ctx.at_any(self.o, reg, v.target) is True and len(v.args) == 1 and \
                    self.o.facts.same(list(v.args.values())[0], "Network"):
                r = self.ctx.eq3(self.o, self.trader, v.result)
                if r is not None:
                    return r
        return None

    def deposit_ok(self):
        ctx, o = self.ctx, self.o
        r = any3(*[ctx.at_any(o, ctx.loc(C, g), self.trader) for g in ("getOwner", "getManager")])
        return all3(r, self.flag("isSet", SENDER), not3(self.active()))

    def malformed(self):
        for l, v in self.o.facts.order:
            if l.op in ("ok", "jhas", "isinstance") and not v and self.data in atoms(l):
                return True
            if l.op in ("jtype", "isinst") and self.data in atoms(l):
                return True
        return False

    def conditions(self):
        """admission conditions of a conversion"""
        ctx, o, f = self.ctx, self.o, self.o.facts
        out = [("the amount is positive", f.decide(gt(self.amount, 0))),
               ("the request comes through the registered network", self.network())]
        out += [("conversions are enabled", ctx.cell_true(o, ctx.loc(C, "isConversionsEnabled"))),
                ("the converter controls its token", self.active())]
        if self.minr is not None:
            out.append(("the minimum return is positive", f.decide(gt(self.minr, 0))))
        if self.to is None:
            return out
        out += [("source and target differ", not3(ctx.eq3(o, self.to, SENDER)))]
        if self.kind == "buy":
            out += [("the source is a connector", self.flag("isSet", SENDER)),
                    ("purchases with the source are enabled", self.flag("isPurchaseEnabled", SENDER))]
        elif self.kind == "sell":
            out += [("the target is a connector", self.flag("isSet", self.to))]
        elif self.kind == "cross":
            out += [("the source is a connector", self.flag("isSet", SENDER)),
                    ("the target is a connector", self.flag("isSet", self.to)),
                    ("purchases with the target are enabled", self.flag("isPurchaseEnabled", self.to))]
        return out

    def result_reasons(self):
        """three-valued: the price-dependent conditions hold"""
        f, r, g = self.o.facts, self.net(), self.gross()
        if r is None:
            return None
        c = [f.decide(ge0(sub(r, self.minr))) if self.minr is not None else None, f.decide(ge0(sub(N(g), r)))]
        if self.kind == "sell":
            b = self.balance(self.to, False)
            c.append(any3(f.decide(lt(r, b)), all3(f.decide(eq(r, b)), f.decide(eq(self.amount, self.supply())))))
        if self.kind == "cross":
            b = self.balance(self.to, False)
            vb = self.flag("isVirtualBalanceEnabled", self.to)
            c.append(f.decide(lt(r, b)))
            c.append(f.decide(lt(add(r, r) if vb else r, b)))
        return all3(*c)


def late(o):
    """the run was refused because of state another contract changed during a call"""
    if not o.facts.order:
        return False
    return any(t.op in ("ext", "cell") and isinstance(t.args[-1], int) and t.args[-1] > 0
               for t in atoms(o.facts.order[-1][0]))


def is_field(t, data, name):
    """json(decode(data))[name]"""
    if not isinstance(t, Term) or t.op != "jget":
        return False
    j = t.args[0]
    return isinstance(j, Term) and j.op == "json" and data in atoms(j) and \
        (t.args[1] == name or (isinstance(t.args[1], Term) and is_const(t.args[1]) and cval(t.args[1]) == name))


def all_terms(o):
    acc = set()
    for l, _ in o.facts.order:
        atoms(l, acc)
    for e in o.effects:
        for v in e.data.values():
            if isinstance(v, dict):
                for x in v.values():
                    atoms(x, acc)
            elif isinstance(v, (Term, tuple)):
                atoms(v, acc)
    return acc


def reqs(ctx, status="ok"):
    k = ("reqs", status)
    if k not in ctx._loc:
        if ctx.need(C, "tokenFallback", False) is None:
            return []
        ctx._loc[k] = [Req(ctx, o) for o in ctx.outs(C, "tokenFallback") if o.status == status]
    return ctx._loc[k]


def conversions(ctx):
    return [r for r in reqs(ctx) if r.is_conversion]


def need_kinds(ctx, rule):
    kinds = {r.kind for r in conversions(ctx)}
    for k, w in (("buy", "buying the token"), ("sell", "selling the token"), ("cross", "converting between connectors")):
        ctx.ob(rule, "Converter.tokenFallback/%s" % k, k in kinds, "no request for %s can succeed" % w)


W = "contracts/converter"


def c11(ctx):
    from . import tokens as tk
    # ---- token ledgers
    ev = lambda o, n: [x for x in o.eff("event") if x.name == n]
    for c, ops in (("FlexibleToken", {"issue": ("Issuance", "_amount"), "destroy": ("Destruction", "_amount")}),
                   ("IcxToken", {"deposit": ("Issuance", None), "fallback": ("Issuance", None),
                                 "withdraw": ("Destruction", "_amount"), "withdrawTo": ("Destruction", "_amount")})):
        for n, e in ctx.writers(c, install=True):
            for o in ctx.ok(c, n):
                for name in ("Issuance", "Destruction"):
                    got = ev(o, name)
                    if n in ops and ops[n][0] == name:
                        v = argsym(ctx, c, n, ops[n][1]) if ops[n][1] else VALUE
                        ctx.ob("supply-event", "%s.%s" % (c, n), len(got) == 1 and len(got[0].args) == 1 and
                               o.facts.same(got[0].args[0], v), "does not log exactly one %s(%s)" % (name, show(v)), o)
                    else:
                        ctx.ob("no-false-event", "%s.%s/%s" % (c, n, name), not got, "logs %s" % name, o)
        for n in ops:
            if n != "fallback":
                ctx.need(c, n, False)
    for o in ctx.ok("FlexibleToken", "on_install"):
        g = ev(o, "NewFlexibleToken")
        ctx.ob("install-event", "FlexibleToken.on_install", len(g) == 1 and o.facts.same(g[0].args[0], SELF),
               "does not announce the new token", o)
    # ---- converter settings
    fee, en = ctx.loc(C, "getConversionFee"), ctx.loc(C, "isConversionsEnabled")
    for n, e in ctx.writers(C):
        for o in ctx.ok(C, n):
            g = ev(o, "ConversionFeeUpdate")
            w = [x for x in ctx.fam_writes(o, fee)]
            if n == "setConversionFee":
                new = argsym(ctx, C, n, "_conversionFee")
                ctx.ob("fee-event", "Converter.%s" % n, len(g) == 1 and o.facts.same(g[0].args[0], fee.term(0)) and
                       o.facts.same(g[0].args[1], new), "does not log ConversionFeeUpdate(previous, new)", o)
            else:
                ctx.ob("no-false-event", "Converter.%s/ConversionFeeUpdate" % n, not g, "logs a fee update", o)
            g = ev(o, "ConversionsEnable")
            w = [x for x in ctx.fam_writes(o, en) if not ctx.noop(o, x)]
            if w:
                ctx.ob("switch-event", "Converter.%s" % n, len(g) == 1 and
                       tk.same_bool(ctx, o, g[0].args[0], w[-1].value), "a change of the switch is not logged", o)
                x, y = ctx.truth(o, en.term(0)), ctx.truth(o, w[-1].value)
                ctx.ob("no-false-event", "Converter.%s/ConversionsEnable" % n, not g or (
                    x is not None and y is not None and x != y) or o.facts.differ(N(w[-1].value), en.term(0)) or
                    tk.same_bool(ctx, o, w[-1].value, notl(en.term(0))), "logs a change although nothing may have changed", o)
            else:
                ctx.ob("no-false-event", "Converter.%s/ConversionsEnable" % n, not g, "logs a change that did not happen", o)
    # ---- conversions
    need_kinds(ctx, "conversion-event")
    for r in reqs(ctx):
        o, f = r.o, r.o.facts
        g = ev(o, "Conversion")
        p = ev(o, "PriceDataUpdate")
        if not r.is_conversion:
            continue
        paid, _ = r.paid()
        gross = r.gross()
        ok = len(g) == 1 and len(g[0].args) == 6 and paid is not None
        if ok:
            a = dict(zip(g[0].params, g[0].args))
            ok = f.same(a.get("_fromToken"), SENDER) and f.same(a.get("_toToken"), r.to) and \
                f.same(a.get("_trader"), r.trader) and f.same(a.get("_amount"), r.amount) and \
                f.same(a.get("_return"), paid)
        ctx.ob("conversion-event", "Converter.tokenFallback/%s/amounts" % r.kind, ok,
               lambda: "Conversion%s does not describe what happened" % ([tuple(map(lambda x: show(T(x)), x.args)) for x in g],), o)
        if ok and gross is not None:
            ctx.ob("conversion-event", "Converter.tokenFallback/%s/fee" % r.kind,
                   f.same(a.get("_conversionFee"), sub(gross, paid)),
                   lambda: "logged fee is %s" % show(T(a.get("_conversionFee"))), o)
        want = {"buy": [SENDER], "sell": [r.to], "cross": [SENDER, r.to]}.get(r.kind, [])
        ctx.ob("price-event", "Converter.tokenFallback/%s/count" % r.kind, len(p) == len(want),
               "%d price updates for %d connectors" % (len(p), len(want)), o)
        for who in want:
            m = [x for x in p if f.same(x.args[0], who)]
            good = len(m) == 1
            if good:
                x = m[0]
                good = any(f.same(x.args[1], v.result) and v.epoch == o.epoch for v in ctx.views(o, "totalSupply", r.token))
                ctx.ob("price-event", "Converter.tokenFallback/%s/supply" % r.kind, good,
                       "the logged supply is not the supply after the conversion", o, x.where)
                bal = False
                for ep in range(o.epoch + 1):
                    e = r.flag("isVirtualBalanceEnabled", who, ep)
                    v = r.conn("virtualBalance", who)
                    if e is True and (f.same(x.args[2], v.term(o.epoch)) or f.same(x.args[2], ctx.final(o, v))):
                        bal = True
                    if e is False:
                        moved = who is r.to
                        bal = bal or any(f.same(x.args[2], y.result) and (y.epoch == o.epoch or not moved)
                                         for y in ctx.views(o, "balanceOf", who, _owner=SELF))
                ctx.ob("price-event", "Converter.tokenFallback/%s/balance" % r.kind, bal,
                       lambda: "the logged connector balance %s is not the balance after the conversion" % show(T(x.args[2])),
                       o, x.where)
                wl = r.conn("weight", who)
                ctx.ob("price-event", "Converter.tokenFallback/%s/weight" % r.kind, any(
                    f.same(x.args[3], wl.term(ep)) for ep in range(o.epoch + 1)), "the logged weight is wrong", o, x.where)
            else:
                ctx.ob("price-event", "Converter.tokenFallback/%s" % r.kind, False, "no price update for a connector", o)
    for r in reqs(ctx):
        if not r.calls:
            ctx.ob("no-false-event", "Converter.tokenFallback/deposit", not r.o.eff("event"), "logs a conversion", r.o)
    for n, e in ctx.writers(C, install=True):
        if n == "tokenFallback":
            continue
        for o in ctx.ok(C, n):
            ctx.ob("no-false-event", "Converter.%s" % n, not ev(o, "Conversion") and not ev(o, "PriceDataUpdate"),
                   "logs a conversion", o)
    # ---- score registry
    c = "ScoreRegistry"
    for n in ("registerAddress", "unregisterAddress"):
        for o in ctx.ok(c, n):
            g = ev(o, "AddressUpdate")
            v = argsym(ctx, c, n, "_scoreAddress") if n == "registerAddress" else ZERO
            ctx.ob("address-event", "ScoreRegistry.%s" % n, len(g) == 1 and
                   o.facts.same(g[0].args[0], argsym(ctx, c, n, "_scoreName")) and o.facts.same(g[0].args[1], v),
                   "does not log the new address of the score", o)
    shapes = {"Conversion": (3, ["_fromToken", "_toToken", "_trader", "_amount", "_return", "_conversionFee"]),
              "PriceDataUpdate": (1, ["_connectorToken", "_tokenSupply", "_connectorBalance", "_connectorWeight"]),
              "Transfer": (3, ["_from", "_to", "_value", "_data"]),
              "OwnerUpdate": (2, ["_prevOwner", "_newOwner"]), "ManagerUpdate": (2, ["_prevManager", "_newManager"]),
              "AddressUpdate": (1, ["_contractName", "_scoreAddress"])}
    for c in ctx.P.contracts:
        for n, e in ctx.contract(c).entries.items():
            for o in ctx.ok(c, n):
                for x in o.eff("event"):
                    if x.name in shapes:
                        ctx.ob("event-shape", "%s.%s" % (c, x.name), N(x.indexed) == shapes[x.name][0] and
                               list(x.params) == shapes[x.name][1], "%s%s indexed=%s" % (x.name, x.params, x.indexed), o, x.where)
    ctx.floor("supply-event", 3)
    ctx.floor("conversion-event", 6)
    ctx.floor("price-event", 10)


def c12(ctx):
    need_kinds(ctx, "offered")
    for r in conversions(ctx):
        o = r.o
        ctx.ob("request-understood", "Converter.tokenFallback", r.kind is not None and r.minr is not None,
               "calls out for something that is not a conversion request", o)
        for label, v in r.conditions():
            ctx.ob("admission", "Converter.tokenFallback/%s: %s" % (r.kind, label), v is True,
                   "a conversion is executed without '%s' being established" % label, o)
    for r in reqs(ctx, "fail"):
        bad = any3(*[not3(v) for _, v in r.conditions()])
        if bad is True or ctx.null_arg(r.o) or r.malformed() or r.result_reasons() is False or late(r.o):
            ctx.ob("admission-exact", "Converter.tokenFallback/%s" % r.kind, True, o=r.o)
        else:
            ctx.ob("admission-exact", "Converter.tokenFallback/%s" % r.kind, False,
                   "refuses (%s) a request that meets every stated condition" % r.o.exc, r.o)
    # converting is possible in no other way
    for n, e in ctx.writers(C):
        if n == "tokenFallback":
            continue
        for o in ctx.ok(C, n):
            ctx.ob("sole-conversion-entry", "Converter.%s" % n,
                   not [x for x in o.eff("call") if x.method in ("issue", "destroy")], "mints or burns the token", o)
    ctx.floor("admission", 30)
    ctx.floor("admission-exact", 20)


def c13(ctx):
    need_kinds(ctx, "offered")
    for r in conversions(ctx):
        o, f = r.o, r.o.facts
        amt, exact = r.paid()
        ctx.ob("payout", "Converter.tokenFallback/%s" % r.kind, exact and amt is not None,
               lambda: "the pay-out is not the specified one: %s" % ["%s.%s(%s)" % (show(c.target), c.method, ", ".join(
                   "%s=%s" % (k, show(v)) for k, v in c.args.items())) for c in r.calls], o)
        if r.kind == "sell" and exact:
            # the pay-out hands control to the trader: the sold tokens must be gone by then
            burn = [c.seq for c in r.calls if c.method == "destroy"]
            pay = [c for c in r.calls if c.method == "transfer"]
            ctx.ob("burn-first", "Converter.tokenFallback/sell", max(burn) < pay[0].seq,
                   "pays the trader before the sold tokens are burnt", o, pay[0].where)
        if amt is None or r.minr is None:
            continue
        ctx.ob("min-return", "Converter.tokenFallback/%s" % r.kind, f.decide(ge0(sub(N(amt), r.minr))) is True,
               lambda: "pays %s without comparing it with the requested minimum" % show(T(amt)), o)
        ctx.ob("min-return-positive", "Converter.tokenFallback/%s" % r.kind, f.decide(gt(r.minr, 0)) is True,
               "accepts a non-positive minimum", o)
        g = [x for x in o.eff("event") if x.name == "Conversion"]
        ctx.ob("logged-return", "Converter.tokenFallback/%s" % r.kind, len(g) == 1 and f.same(
            dict(zip(g[0].params, g[0].args)).get("_return"), amt), "the logged return differs from the pay-out", o)
    # along a path the last converter is asked for the trader's minimum, or the network itself compares the result with it
    from . import network as nw
    for e in ("convert", "convertFor", "tokenFallback"):
        for r in nw.routed(ctx, e):
            o, cs = r.o, r.o.eff("call")
            if not r.complete() or r.minr is None or len(cs) < 2:
                ctx.ob("network-minimum", "Network.%s" % e, False, "the request asks for no minimum that could be honoured", o)
                continue
            p = nw.payload(cs[-2].args.get("_data", 0))
            asked = p is not None and "minReturn" in p and o.facts.decide(ge0(sub(N(p["minReturn"]), r.minr))) is True
            paid = N(cs[-1].args.get("_amount", cs[-1].args.get("_value", 0)))
            ctx.ob("network-minimum", "Network.%s" % e, asked or o.facts.decide(ge0(sub(paid, r.minr))) is True,
                   "the last conversion of a path is not asked for the trader's minimum return", o, cs[-2].where)
    ctx.floor("network-minimum", 30)
    ctx.floor("burn-first", 1)
    ctx.floor("payout", 3)
    ctx.floor("min-return", 3)


def c14(ctx):
    need_kinds(ctx, "offered")
    if ctx.need(C, "getReturn", True) is None:
        return
    for r in conversions(ctx):
        o, f = r.o, r.o.facts
        amt, _ = r.paid()
        if amt is None or r.to is None:
            ctx.ob("quote", "Converter.tokenFallback/%s" % r.kind, False, "no recognisable pay-out", o)
            continue
        bal = r.view0("balanceOf", SENDER, _owner=SELF)
        lits = [(l, v) for l, v in o.facts.order
                if not any((t.op in ("ext", "cell") and t.args[-1] != 0 and isinstance(t.args[-1], int)) or
                           t.op == "formula" or (t.op == "ext" and t.args[0] == "balanceOf") for t in atoms(l))]
        q = ctx.P.explore_entry(C, "getReturn", {"_fromToken": SENDER, "_toToken": r.to, "_amount": r.amount}, lits)
        oks = [x for x in q if x.status == "ok"]
        ctx.ob("quote-exists", "Converter.getReturn/%s" % r.kind, bool(oks),
               "no quote is available for a conversion that executes", o)
        pre_bal = None

        def back(t):
            # before the deposit the converter held `amount` less of the source token
            if t.op == "ext" and t.args[0] == "balanceOf" and f.same(t.args[1], SENDER) and \
                    f.same(t.args[2][0], SELF) and t.args[3] == 0:
                return sub(t, r.amount)
            return None
        for x in oks:
            if not isinstance(x.ret, DictVal):
                raise Broken("getReturn does not return a dict")
            d = {k: v for k, v in x.ret.pairs if isinstance(k, str)}
            qa = d.get("amount")
            qa2 = subst(T(qa), back) if qa is not None else None
            ctx.ob("quote", "Converter.getReturn/%s" % r.kind, qa is not None and f.same(qa2, amt),
                   lambda: "quoted %s, executed %s" % (show(T(f.canon(qa2))), show(T(f.canon(amt)))), o)
            qf = d.get("fee")
            g = [e for e in o.eff("event") if e.name == "Conversion"]
            if g and qf is not None:
                lf = dict(zip(g[0].params, g[0].args)).get("_conversionFee")
                ctx.ob("quote-fee", "Converter.getReturn/%s" % r.kind, f.same(subst(T(qf), back), lf),
                       lambda: "quoted fee %s, logged fee %s" % (show(T(qf)), show(T(lf))), o)
    # no quote for what can never be executed: equal or unknown tokens
    A = lambda p: argsym(ctx, C, "getReturn", p)
    src, dst = A("_fromToken"), A("_toToken")
    tok = ctx.loc(C, "getToken").term(0)
    known = lambda o, t: any3(ctx.eq3(o, t, tok), o.facts.decide(ctx.loc(C, "getConnector", "isSet").at(_address=t).term(0)))
    for o in ctx.ok(C, "getReturn"):
        ctx.ob("quote-refused", "Converter.getReturn: different tokens", ctx.eq3(o, src, dst) is False,
               "quotes a conversion of a token into itself", o)
        ctx.ob("quote-refused", "Converter.getReturn: known tokens", all3(known(o, src), known(o, dst)) is True,
               "quotes a conversion of a token the converter does not know", o)
    ctx.floor("quote", 3)


def c15(ctx):
    need_kinds(ctx, "offered")
    n = 0
    for r in conversions(ctx):
        o, f = r.o, r.o.facts
        amt, _ = r.paid()
        if r.kind == "buy":
            continue
        b = r.balance(r.to, False)
        if amt is None or b is None:
            ctx.ob("not-depleted", "Converter.tokenFallback/%s" % r.kind, False,
                   "pays out without looking at the connector balance", o)
            continue
        lt_ = f.decide(lt(N(amt), b))
        if lt_ is not True and r.minr is not None and f.decide(gt(r.minr, 0)) is True:
            # amt >= min > 0 and amt < b - amt  implies amt < b
            lt_ = True if f.decide(lt(add(N(amt), N(amt)), b)) is True and f.decide(ge0(N(amt))) is True else lt_
        cond = lt_
        if r.kind == "sell" and r.supply() is not None:
            cond = any3(lt_, all3(f.decide(le(N(amt), b)), f.decide(eq(r.amount, r.supply()))))
        ctx.ob("not-depleted", "Converter.tokenFallback/%s" % r.kind, cond is True,
               lambda: "pays %s without keeping it below the connector balance %s" % (show(T(amt)), show(T(b))), o)
    # the complete redemption stays possible
    full = [r for r in conversions(ctx) if r.kind == "sell" and r.balance(r.to, False) is not None and r.paid()[0] is not None
            and r.o.facts.decide(lt(N(r.paid()[0]), r.balance(r.to, False))) is not True]
    ctx.ob("full-redemption", "Converter.tokenFallback/sell", bool(full), "selling the entire supply cannot succeed")
    ctx.floor("not-depleted", 4)


def c16(ctx):
    need_kinds(ctx, "offered")
    vb = ctx.loc(C, "getConnector", "virtualBalance")
    for r in reqs(ctx):
        o, f = r.o, r.o.facts
        exp = []
        if r.is_conversion:
            amt, _ = r.paid()
            if amt is None:
                ctx.ob("virtual-update", "Converter.tokenFallback/%s" % r.kind, False, "no recognisable pay-out", o)
                continue
            moves = {"buy": [(SENDER, r.amount)], "sell": [(r.to, neg(N(amt)))],
                     "cross": [(SENDER, r.amount), (r.to, neg(N(amt)))]}.get(r.kind, [])
            for who, d in moves:
                l = r.conn("virtualBalance", who)
                e = r.flag("isVirtualBalanceEnabled", who)
                if e is None:
                    ctx.ob("virtual-update", "Converter.tokenFallback/%s" % r.kind, False,
                           "does not consider whether the connector has a virtual balance", o)
                    continue
                if e:
                    exp.append((l, add(l.term(0), d)))
                    if who is r.to:
                        ctx.ob("virtual-not-negative", "Converter.tokenFallback/%s" % r.kind, ctx.nonneg(
                            o, add(l.term(0), d)), "the virtual balance may become negative", o)
        ctx.expect_state("virtual-update", "Converter.tokenFallback/%s" % r.kind, o, exp)
        for w in o.eff("write"):
            if w.fam[:3] == vb.id and r.is_conversion:
                pays = [x for x in r.calls if x.seq < w.seq]
                ctx.ob("virtual-before-pay", "Converter.tokenFallback/%s" % r.kind, not pays,
                       "the virtual balance is updated after tokens were paid out", o, w.where)
    for n, e in ctx.writers(C):
        if n in ("tokenFallback", "updateConnector", "addConnector"):
            continue
        for o in ctx.ok(C, n):
            ctx.ob("virtual-sole-writers", "Converter.%s" % n, not [w for w in ctx.fam_writes(o, vb) if not ctx.noop(o, w)],
                   "changes a virtual balance", o)
    # what prices are computed from is what getConnectorBalance reports
    a = argsym(ctx, C, "getConnectorBalance", "_connectorToken") if ctx.need(C, "getConnectorBalance", True) else None
    if a is not None:
        L = lambda x: ctx.loc(C, "getConnector", x).at(_address=a)
        for o in ctx.outs(C, "getConnectorBalance"):
            st = o.facts.decide(L("isSet").term(0))
            if o.status != "ok":
                ctx.ob("reported-balance", "Converter.getConnectorBalance", st is False or ctx.null_arg(o), "fails for a connector", o)
                continue
            e = o.facts.decide(L("isVirtualBalanceEnabled").term(0))
            good = st is True and e is not None and (
                o.facts.same(o.ret, L("virtualBalance").term(0)) if e else
                any(o.facts.same(o.ret, v.result) for v in ctx.views(o, "balanceOf", a, _owner=SELF)))
            ctx.ob("reported-balance", "Converter.getConnectorBalance", good,
                   "does not report the virtual balance when enabled and the actual one otherwise", o)
    ctx.floor("virtual-update", 6)
    ctx.floor("reported-balance", 2)


def c17(ctx):
    fee, mx = ctx.loc(C, "getConversionFee"), ctx.loc(C, "getMaxConversionFee")
    # bounds at every place the fee or its ceiling is written
    if ctx.need(C, "setConversionFee", False) is not None:
        new = argsym(ctx, C, "setConversionFee", "_conversionFee")
        ctx.accept("fee-bounds", C, "setConversionFee", lambda o: [
            ("the caller is the owner or manager", any3(role_cond(ctx, o, C, "owner"), role_cond(ctx, o, C, "manager"))),
            ("0 <= fee", o.facts.decide(ge0(new))), ("fee <= maximum fee", o.facts.decide(ge0(sub(mx.term(0), new))))])
        for o in ctx.ok(C, "setConversionFee"):
            ctx.expect_state("fee-effect", "Converter.setConversionFee", o, [(fee, new)])
    for n, e in ctx.writers(C, install=True):
        for o in ctx.ok(C, n):
            for w in ctx.fam_writes(o, mx):
                if ctx.noop(o, w):
                    continue
                ctx.ob("max-fee-fixed", "Converter.%s" % n, n == "on_install", "changes the maximum fee after installation", o, w.where)
                ctx.ob("max-fee-bounds", "Converter.%s" % n, o.facts.decide(ge0(w.value)) is True and
                       o.facts.decide(le(w.value, MAX)) is True, "the maximum fee is not within 0..1000000", o, w.where)
            for w in ctx.fam_writes(o, fee):
                if ctx.noop(o, w) or n == "setConversionFee":
                    continue
                ctx.ob("fee-sole-writer", "Converter.%s" % n, n == "on_install" and o.facts.same(w.value, 0),
                       "changes the fee", o, w.where)
    if ctx.need(C, "getFinalAmount", True) is not None:
        a = argsym(ctx, C, "getFinalAmount", "_amount")
        for k in (1, 2):
            for o in ctx.P.explore_entry(C, "getFinalAmount", {"_amount": a, "_magnitude": k}, []):
                w = floordiv(mul(a, power(sub(MAX, fee.term(0)), k)), MAX ** k)
                ctx.ob("fee-formula", "Converter.getFinalAmount/%d" % k, o.status == "ok" and o.facts.same(o.ret, w),
                       lambda: "returns %s" % show(T(o.ret)), o)
    need_kinds(ctx, "offered")
    for r in conversions(ctx):
        o, f = r.o, r.o.facts
        amt, _ = r.paid()
        g = [t for t in all_terms(o) if t.op == "formula"]
        fam = {t.args[0] for t in g}
        ctx.ob("fee-charged", "Converter.tokenFallback/%s" % r.kind, amt is not None and any(
            f.same(amt, r.net(t)) for t in g), "the pay-out is not the gross return less the fee at magnitude %d" % r.mag(), o)
        ev = [x for x in o.eff("event") if x.name == "Conversion"]
        if ev and amt is not None:
            lf = dict(zip(ev[0].params, ev[0].args)).get("_conversionFee")
            ctx.ob("fee-reported", "Converter.tokenFallback/%s" % r.kind, any(
                f.same(add(N(lf), N(amt)), t) for t in g), "pay-out and reported fee do not add up to the gross return", o)
    # quotes
    for o in ctx.ok(C, "getReturn"):
        if isinstance(o.ret, DictVal):
            d = {k: v for k, v in o.ret.pairs if isinstance(k, str)}
            fs = [t for t in atoms(T(d["amount"])) if t.op == "formula"] if isinstance(d.get("amount"), Term) else []
            ok = len(fs) == 1
            if ok:
                k = 2 if "cross" in fs[0].args[0] else 1
                w = floordiv(mul(fs[0], power(sub(MAX, fee.term(0)), k)), MAX ** k)
                ok = o.facts.same(d["amount"], w) and o.facts.same(add(d["amount"], d.get("fee")), fs[0])
            ctx.ob("quote-fee", "Converter.getReturn", ok, "the quoted amount is not the gross return less the fee", o)
    ctx.floor("fee-charged", 3)
    ctx.floor("fee-formula", 2)
    ctx.floor("max-fee-bounds", 1)


FIELDS = ("virtualBalance", "weight", "isVirtualBalanceEnabled", "isPurchaseEnabled", "isSet")


def total_weight(ctx):
    """the recorded total: the plain number that defining or updating a connector changes besides the record"""
    if "total_weight" in ctx._loc:
        return ctx._loc["total_weight"]
    known = {ctx.loc(C, "getConnector", x).id for x in FIELDS}
    cand = {}
    for e, p in (("addConnector", "_weight"), ("updateConnector", "_weight")):
        if ctx.need(C, e, False) is None:
            continue
        w = argsym(ctx, C, e, p)
        for o in ctx.ok(C, e):
            for x in o.eff("write"):
                if x.fam[0] == "var" and x.fam[3] == "int" and x.fam[:3] not in known:
                    cand.setdefault(x.fam, set()).add((e, isinstance(N(x.value), Term) and w in atoms(N(x.value))))
    best = sorted(cand, key=lambda f: (-sum(v for _, v in cand[f]), -len(cand[f]), str(f)))
    if not best or (len(best) > 1 and cand[best[0]] == cand[best[1]]):
        ctx.ob("total-recorded", "Converter.addConnector", False,
               "no recorded total weight follows the connectors' weights", where=ctx.at_entry(C, "addConnector"))
        raise Broken("cannot identify the total weight (candidates %s)" % sorted(map(str, best)))
    ctx._loc["total_weight"] = Loc(best[0], ())
    return ctx._loc["total_weight"]


def table_ids(ctx):
    ids = {ctx.loc(C, "getConnector", x).id for x in FIELDS}
    ids.add(total_weight(ctx).id)
    return ids


def list_fam(ctx):
    """the connector list: what getConnectorTokenCount counts and getConnectorAt indexes"""
    s = set()
    for o in ctx.ok(C, "getConnectorAt"):
        s |= {x.args[0] for x in o.reads if x.args[0][0] == "array"}
    if len(s) != 1:
        ctx.ob("list-getters", "Converter.getConnectorAt", False, "does not report an element of one list",
               where=ctx.at_entry(C, "getConnectorAt"))
        raise Broken("cannot identify the connector list")
    return s.pop()


def c18(ctx):
    tw = total_weight(ctx)
    L = lambda x, a: ctx.loc(C, "getConnector", x).at(_address=a)
    ids = [ctx.loc(C, "getConnector", x).id for x in FIELDS]
    ctx.ob("distinct-slots", "Converter", len(set(ids)) == len(ids) and tw.id not in ids, "connector fields share a slot")
    arr = list_fam(ctx)
    tokl = ctx.loc(C, "getToken")
    for e in ("addConnector", "updateConnector", "disableConnectorPurchases"):
        ctx.need(C, e, False)
    # add
    A = lambda p: argsym(ctx, C, "addConnector", p)
    t, w, v = A("_token"), A("_weight"), A("_enableVirtualBalance")

    def active(o):
        vs = [ctx.eq3(o, x.result, SELF) for x in ctx.views(o, "getOwner", tokl.term(0))]
        return next((x for x in vs if x is not None), None)

    def pre(o):
        f = o.facts
        return [("the caller is the owner", role_cond(ctx, o, C, "owner")),
                ("the converter is inactive", not3(active(o))),
                ("the token is a valid address", valid_addr(ctx, o, t)),
                ("the token is not the converter", not3(ctx.eq3(o, t, SELF))),
                ("the token is not the governed token", not3(ctx.eq3(o, t, tokl.term(0)))),
                ("the token is not yet a connector", not3(f.decide(L("isSet", t).term(0)))),
                ("weight > 0", f.decide(gt(w, 0))), ("weight <= 1000000", f.decide(le(w, MAX))),
                ("the total weight stays within 1000000", f.decide(le(add(tw.term(0), w), MAX)))]
    ctx.accept("add", C, "addConnector", pre)
    for o in ctx.ok(C, "addConnector"):
        exp = [(L("virtualBalance", t), 0), (L("weight", t), w), (L("isVirtualBalanceEnabled", t), v),
               (L("isPurchaseEnabled", t), True), (L("isSet", t), True), (tw, add(tw.term(0), w))]
        for l, x in exp:
            ctx.ob("add-effect", "Converter.addConnector/%s" % l.fam[1], ctx.same_val(o, ctx.final(o, l), x),
                   lambda: "%s ends as %s" % (l, show(T(ctx.final(o, l)))), o)
        extra = [x for x in ctx.changes(o) if x.kind == "write" and not any(
            x.fam[:3] == l.id and ctx.same_keys(o, x.keys, l.keys) for l, _ in exp)]
        ctx.ob("add-effect", "Converter.addConnector/others", not extra, "changes something else", o)
        a = o.eff("arr")
        ctx.ob("add-list", "Converter.addConnector", len(a) == 1 and a[0].op == "put" and a[0].fam[1:3] == arr[1:3] and
               o.facts.same(a[0].value, t), "the connector list does not gain exactly the new token", o)
    # update
    U = lambda p: argsym(ctx, C, "updateConnector", p)
    c, uw, uv, ub = U("_connectorToken"), U("_weight"), U("_enableVirtualBalance"), U("_virtualBalance")
    nt = lambda: add(sub(tw.term(0), L("weight", c).term(0)), uw)
    # the recorded total was within the limit before (induction), so it still is when it does not grow
    within = lambda o: o.facts.decide(le(nt(), tw.term(0))) or o.facts.decide(le(nt(), MAX))
    ctx.accept("update", C, "updateConnector", lambda o: [
        ("the caller is the owner", role_cond(ctx, o, C, "owner")),
        ("the token is a connector", o.facts.decide(L("isSet", c).term(0))),
        ("weight > 0", o.facts.decide(gt(uw, 0))), ("weight <= 1000000", o.facts.decide(le(uw, MAX))),
        ("the total weight stays within 1000000", within(o))])
    for o in ctx.ok(C, "updateConnector"):
        ctx.expect_state("update-effect", "Converter.updateConnector", o, [
            (L("weight", c), uw), (L("isVirtualBalanceEnabled", c), uv), (L("virtualBalance", c), ub), (tw, nt())])
    # conservation of the total, and nobody else
    ids = table_ids(ctx)
    wl = ctx.loc(C, "getConnector", "weight")
    for n, e in ctx.writers(C, install=True):
        for o in ctx.ok(C, n):
            tot = 0
            for x in o.eff("write"):
                if x.fam[:3] == wl.id:
                    tot = add(tot, sub(x.value, x.old))
                elif x.fam[:3] == tw.id:
                    tot = sub(tot, sub(x.value, x.old))
            ctx.ob("weights-sum", "Converter.%s" % n, o.facts.same(tot, 0) or n == "addConnector" and o.facts.same(
                tot, neg(L("weight", t).term(0))), "the total weight drifts from the sum of the weights", o)
            if n in ("addConnector", "updateConnector", "on_install"):
                continue
            vb = ctx.loc(C, "getConnector", "virtualBalance").id
            pe = ctx.loc(C, "getConnector", "isPurchaseEnabled").id
            bad = [x for x in ctx.changes(o) if x.kind == "arr" or x.fam[:3] in ids - (
                {vb} if n == "tokenFallback" else {pe} if n == "disableConnectorPurchases" else set())]
            ctx.ob("table-sole-writers", "Converter.%s" % n, not bad, "changes the connector table", o)
    # the list getters
    for o in ctx.outs(C, "getConnectorTokenCount"):
        ctx.ob("list-getters", "Converter.getConnectorTokenCount", o.status == "ok" and isinstance(o.ret, Term) and
               o.ret.op == "alen" and o.ret.args[0][1:3] == arr[1:3], "does not count the connector list", o)
    i = argsym(ctx, C, "getConnectorAt", "_index")
    for o in ctx.ok(C, "getConnectorAt"):
        ctx.ob("list-getters", "Converter.getConnectorAt", isinstance(o.ret, Term) and o.ret.op == "cell" and
               o.facts.same(o.ret.args[1][-1], i), "does not return the requested element", o)
    q = argsym(ctx, C, "getConnector", "_address")
    for o in ctx.outs(C, "getConnector"):
        st = o.facts.decide(L("isSet", q).term(0))
        good = o.status == "ok" and isinstance(o.ret, DictVal) and st is not None and \
            (bool(o.ret.pairs) == st)
        if good and st:
            d = {k: x for k, x in o.ret.pairs}
            good = set(d) == set(FIELDS) and all(o.facts.same(d[k], L(k, q).term(0)) or
                                                 ctx.same_val(o, d[k], L(k, q).term(0)) for k in d)
        ctx.ob("connector-getter", "Converter.getConnector", good, "does not report the connector's record", o)
    ctx.floor("add", 9)
    ctx.floor("update-effect", 4)
    ctx.floor("weights-sum", 15)


def c19(ctx):
    from .owner import HOLDERS
    iss = lambda a: ctx.loc(C, "getConnector", "isSet").at(_address=a)
    tokl = ctx.loc(C, "getToken")
    for c in HOLDERS:
        if ctx.need(c, "withdrawTokens", False) is None:
            continue
        A = lambda p: argsym(ctx, c, "withdrawTokens", p)
        tok, to, amt = A("_token"), A("_to"), A("_amount")

        def pre(o):
            out = [("the caller is the owner", role_cond(ctx, o, c, "owner")),
                   ("the amount is positive", o.facts.decide(gt(amt, 0))),
                   ("the recipient is a valid address", valid_addr(ctx, o, to)),
                   ("the recipient is not the contract itself", not3(ctx.eq3(o, to, SELF)))]
            if c == C:
                vs = [ctx.eq3(o, x.result, SELF) for x in ctx.views(o, "getOwner", tokl.term(0)) if x.epoch == 0]
                act = next((x for x in vs if x is not None), None)
                out.append(("the converter is inactive or the token is not a connector",
                            any3(not3(act), not3(o.facts.decide(iss(tok).term(0))))))
            return out
        ctx.accept("withdraw-guard", c, "withdrawTokens", pre)
        for o in ctx.ok(c, "withdrawTokens"):
            x = o.eff("call")
            good = len(x) == 1 and x[0].method == "transfer" and o.facts.same(x[0].target, tok) and \
                o.facts.same(x[0].args.get("_to", 0), to) and o.facts.same(x[0].args.get("_value", 0), amt) and \
                not ctx.changes(o) and not o.eff("icx")
            ctx.ob("withdraw-effect", "%s.withdrawTokens" % c, good, "does not transfer exactly the requested tokens", o)
    # tokens leave the converter in no other way than by conversion or withdrawTokens
    for c in (C, "Network", "FlexibleToken", "IcxToken", "ScoreRegistry", "IRCToken"):
        for n, e in ctx.writers(c):
            if n == "withdrawTokens" or (c == C and n == "tokenFallback") or (
                    c == "Network" and n in ("tokenFallback", "convert", "convertFor")):
                continue
            for o in ctx.ok(c, n):
                bad = [x for x in o.eff("call") if x.method in ("transfer", "withdraw", "withdrawTo", "destroy", "issue")]
                ctx.ob("no-other-outflow", "%s.%s" % (c, n), not bad, "moves tokens held by the contract", o)
    # plain deposits are taken only from owner or manager while inactive, and nothing else is swallowed
    seen = {"getOwner": False, "getManager": False}
    for r in reqs(ctx):
        if r.is_conversion:
            continue
        ctx.ob("deposit-guard", "Converter.tokenFallback", r.deposit_ok() is True and not ctx.changes(r.o),
               "accepts tokens that are neither a conversion nor a deposit by owner or manager while inactive", r.o)
        for g in seen:
            if ctx.at_any(r.o, ctx.loc(C, g), r.trader) is True:
                seen[g] = True
    for g, s in seen.items():
        ctx.ob("deposit-accepted", "Converter.tokenFallback/%s" % g[3:].lower(), s,
               "the %s cannot deposit connector tokens" % g[3:].lower())
    for r in reqs(ctx, "fail"):
        ctx.ob("deposit-accepted", "Converter.tokenFallback", not (r.deposit_ok() is True and
               r.o.facts.decide(gt(r.amount, 0)) is True) or ctx.null_arg(r.o), "refuses a legitimate deposit", r.o)
    # each role alone suffices, whatever the message: no further condition decides about a deposit
    for g in seen:
        role = ctx.loc(C, g)
        for r in reqs(ctx, "fail"):
            could = all3(ctx.at_any(r.o, role, r.trader) is not False, r.flag("isSet", SENDER) is not False, r.active() is not True,
                         r.o.facts.decide(gt(r.amount, 0)) is not False)
            # a run that fails although nothing it looked at rules the deposit out
            if could and not ctx.null_arg(r.o):
                ctx.ob("deposit-accepted", "Converter.tokenFallback/%s" % g[3:].lower(), False,
                       "a deposit by the %s can be refused" % g[3:].lower(), r.o)
    ctx.floor("withdraw-guard", 10)
    ctx.floor("deposit-guard", 1)


def c20(ctx):
    reg, prev, allow = (ctx.loc(C, g) for g in ("getRegistry", "getPreviousRegistry", "isAllowRegistryUpdate"))
    ctx.ob("distinct-slots", "Converter", len({reg.id, prev.id, allow.id}) == 3, "registry settings share a slot")
    for e in ("updateRegistry", "restoreRegistry", "disableRegistryUpdate"):
        ctx.need(C, e, False)

    def newreg(o):
        for v in ctx.views(o, "getAddress", reg.term(0)):
            if o.facts.same(list(v.args.values())[0], "ScoreRegistry") and v.epoch == 0:
                return v.result
        return None

    def pre(o):
        n = newreg(o)
        return [("updates are allowed or the caller is the owner",
                 any3(ctx.cell_true(o, allow), role_cond(ctx, o, C, "owner"))),
                ("the current registry names a registry", None if n is None else valid_addr(ctx, o, n)),
                ("it is a different one", None if n is None else not3(ctx.eq3(o, n, reg.term(0))))]
    ctx.accept("update", C, "updateRegistry", pre)
    for o in ctx.ok(C, "updateRegistry"):
        n = newreg(o)
        if n is not None:
            ctx.expect_state("update-effect", "Converter.updateRegistry", o, [(prev, reg.term(0)), (reg, n)])
    role = lambda o: [("the caller is the owner or manager", any3(role_cond(ctx, o, C, "owner"), role_cond(ctx, o, C, "manager")))]
    ctx.accept("restore", C, "restoreRegistry", role)
    for o in ctx.ok(C, "restoreRegistry"):
        ctx.expect_state("restore-effect", "Converter.restoreRegistry", o, [(reg, prev.term(0)), (allow, False)])
    ctx.accept("lock", C, "disableRegistryUpdate", role)
    d = argsym(ctx, C, "disableRegistryUpdate", "_disable")
    from .tokens import same_bool
    for o in ctx.ok(C, "disableRegistryUpdate"):
        fin = ctx.final(o, allow)
        ctx.ob("lock-effect", "Converter.disableRegistryUpdate", same_bool(ctx, o, fin, notl(d)), "the lock ends as %s" % show(T(fin)), o)
        ctx.expect_state("lock-effect", "Converter.disableRegistryUpdate", o, [(allow, fin)])
    for n, e in ctx.writers(C):
        if n in ("updateRegistry", "restoreRegistry", "disableRegistryUpdate"):
            continue
        for o in ctx.ok(C, n):
            ctx.ob("registry-sole-writers", "Converter.%s" % n, not [w for w in ctx.changes(o) if w.fam[:3] in (
                reg.id, prev.id, allow.id)], "changes the registry settings", o)
    ctx.floor("update", 3)
    ctx.floor("restore-effect", 2)
    ctx.floor("registry-sole-writers", 15)


def c21(ctx):
    from .tokens import same_bool
    en = ctx.loc(C, "isConversionsEnabled")
    pe = ctx.loc(C, "getConnector", "isPurchaseEnabled")
    iss = ctx.loc(C, "getConnector", "isSet")
    role = lambda o: [("the caller is the owner or manager", any3(role_cond(ctx, o, C, "owner"), role_cond(ctx, o, C, "manager")))]
    if ctx.need(C, "disableConversions", False):
        ctx.accept("switch", C, "disableConversions", role)
        d = argsym(ctx, C, "disableConversions", "_disable")
        for o in ctx.ok(C, "disableConversions"):
            fin = ctx.final(o, en)
            ctx.ob("switch-effect", "Converter.disableConversions", same_bool(ctx, o, fin, notl(d)),
                   "conversions end up %s" % show(T(fin)), o)
            ctx.expect_state("switch-effect", "Converter.disableConversions", o, [(en, fin)])
    if ctx.need(C, "disableConnectorPurchases", False):
        a, d = (argsym(ctx, C, "disableConnectorPurchases", p) for p in ("_connectorToken", "_disable"))
        ctx.accept("purchase-switch", C, "disableConnectorPurchases", lambda o: [
            ("the caller is the owner", role_cond(ctx, o, C, "owner")),
            ("the token is a connector", o.facts.decide(iss.at(_address=a).term(0)))])
        for o in ctx.ok(C, "disableConnectorPurchases"):
            l = pe.at(_address=a)
            fin = ctx.final(o, l)
            ctx.ob("purchase-switch-effect", "Converter.disableConnectorPurchases", same_bool(ctx, o, fin, notl(d)),
                   "purchases end up %s" % show(T(fin)), o)
            ctx.expect_state("purchase-switch-effect", "Converter.disableConnectorPurchases", o, [(l, fin)])
    need_kinds(ctx, "offered")
    for r in conversions(ctx):
        ctx.ob("switch-respected", "Converter.tokenFallback/%s" % r.kind, ctx.cell_true(r.o, en) is True,
               "converts while conversions are disabled", r.o)
        if r.kind in ("buy", "cross"):
            who = SENDER if r.kind == "buy" else r.to
            ctx.ob("purchase-respected", "Converter.tokenFallback/%s" % r.kind, r.flag("isPurchaseEnabled", who) is True,
                   "a compromised connector can still be bought into", r.o)
        else:
            dep = [l for l, _ in r.o.facts.order if any(t.op == "cell" and t.args[0][:3] == pe.id for t in atoms(l))]
            ctx.ob("selling-always-possible", "Converter.tokenFallback/sell", not dep,
                   "selling depends on the purchase switch", r.o)
    for r in reqs(ctx, "fail"):
        if r.kind == "sell":
            f = r.flag("isPurchaseEnabled", r.to)
            others = any3(*[not3(v) for _, v in r.conditions()])
            ctx.ob("selling-always-possible", "Converter.tokenFallback/sell", f is not False or others is True or
                   r.malformed() or r.result_reasons() is False, "selling is refused because purchases are disabled", r.o)
    # quotes respect the purchase switch too
    for o in ctx.ok(C, "getReturn"):
        F, Tt = argsym(ctx, C, "getReturn", "_fromToken"), argsym(ctx, C, "getReturn", "_toToken")
        tok = ctx.loc(C, "getToken").term(0)
        if ctx.eq3(o, Tt, tok) is True:
            who = F
        elif ctx.eq3(o, F, tok) is True:
            continue
        else:
            who = Tt
        ctx.ob("purchase-respected", "Converter.getReturn", o.facts.decide(pe.at(_address=who).term(0)) is True,
               "quotes a purchase that is disabled", o)
    for n, e in ctx.writers(C):
        for o in ctx.ok(C, n):
            if n != "disableConversions":
                ctx.ob("switch-sole-writer", "Converter.%s" % n, not [w for w in ctx.fam_writes(o, en) if not ctx.noop(o, w)],
                       "changes the conversion switch", o)
            if n not in ("disableConnectorPurchases", "addConnector"):
                ctx.ob("purchase-sole-writer", "Converter.%s" % n, not [w for w in ctx.fam_writes(o, pe) if not ctx.noop(o, w)],
                       "changes the purchase switch", o)
    ctx.floor("switch-effect", 3)
    ctx.floor("switch-respected", 6)
    ctx.floor("purchase-respected", 4)
