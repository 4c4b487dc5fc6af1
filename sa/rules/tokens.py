"""C04-C11: token ledgers, ICX backing, recipient notification, transfer switch, interface, events."""
from .base import *
from .owner import argsym, role_cond, valid_addr


def bal(ctx, c):
    return ctx.loc(c, "balanceOf")


def sup(ctx, c):
    return ctx.loc(c, "totalSupply")


def ledger_writes(ctx, c, o):
    b, s = bal(ctx, c).id, sup(ctx, c).id
    return [w for w in o.eff("write") if w.fam[:3] in (b, s)]


def delta(w):
    return sub(w.value, w.old if w.old is not None else 0)


def all_entries(ctx, c):
    for n, e in ctx.contract(c).entries.items():
        yield n, e


def c04(ctx):
    for c in TOKENS:
        b, s = bal(ctx, c).id, sup(ctx, c).id
        ctx.ob("distinct-slots", c, b != s, "balances and total supply share a slot")
        for n, e in all_entries(ctx, c):
            for o in ctx.ok(c, n):
                ws = [w for w in o.eff("write") if w.fam[:3] in (b, s)]
                for ep in range(o.epoch + 1):
                    seg = [w for w in ws if w.epoch == ep]
                    tot = 0
                    for w in seg:
                        tot = add(tot, delta(w)) if w.fam[:3] == b else sub(tot, delta(w))
                    ctx.ob("balanced-books", "%s.%s" % (c, n), o.facts.same(tot, 0),
                           lambda: "sum of balance changes minus supply change is %s%s" % (
                               show(T(o.facts.canon(tot))),
                               " when another contract is called" if ep < o.epoch else ""), o,
                           seg[-1].where if seg else None)
    ctx.floor("balanced-books", 40)


def token_pre(ctx, c, e, o):
    """[(label, condition)] under which a ledger operation must be accepted"""
    A = lambda p: argsym(ctx, c, e, p)
    B = lambda who: bal(ctx, c).at(_owner=who).term(0)
    f = o.facts
    if e == "transfer":
        v = A("_value")
        pre = [("the value is not negative", f.decide(ge0(v))),
               ("the sender's balance covers the value", f.decide(ge0(sub(B(SENDER), v))))]
        if c == "FlexibleToken":
            pre.append(("transfers are enabled", ctx.cell_true(o, ctx.loc(c, "getTransferPossibility"))))
        if c == "IcxToken":
            pre.append(("the recipient is not the token contract itself", not3(ctx.eq3(o, A("_to"), SELF))))
        return pre
    if e in ("withdraw", "withdrawTo"):
        v = A("_amount")
        return [("the amount is positive", f.decide(gt(v, 0))),
                ("the sender's balance covers the amount", f.decide(ge0(sub(B(SENDER), v))))]
    if e == "destroy":
        v = A("_amount")
        return [("the amount is positive", f.decide(gt(v, 0))),
                ("the holder's balance covers the amount", f.decide(ge0(sub(B(A("_from")), v)))),
                ("the caller is the holder or the owner", any3(ctx.eq3(o, SENDER, A("_from")), role_cond(ctx, o, c, "owner")))]
    if e == "issue":
        return [("the amount is positive", f.decide(gt(A("_amount"), 0))),
                ("the caller is the owner", role_cond(ctx, o, c, "owner")),
                ("the recipient is a valid address", valid_addr(ctx, o, A("_to"))),
                ("the recipient is not the token contract itself", not3(ctx.eq3(o, A("_to"), SELF)))]
    return []


OPS = {"IRCToken": ["transfer"], "FlexibleToken": ["transfer", "issue", "destroy"],
       "IcxToken": ["transfer", "withdraw", "withdrawTo"]}


def c05(ctx):
    for c in TOKENS:
        b, s = bal(ctx, c), sup(ctx, c)
        for n, e in all_entries(ctx, c):
            for o in ctx.ok(c, n):
                cells = [x for x in o.reads if x.args[0][:3] == b.id]
                sc = [x for x in o.reads if x.args[0][:3] == s.id]
                inv = cells + sc + [T(sub(x, y)) for x in sc for y in cells if x.args[2] == y.args[2]]
                for w in ledger_writes(ctx, c, o):
                    if ctx.noop(o, w):
                        continue
                    what = "balance" if w.fam[:3] == b.id else "total supply"
                    ctx.ob("never-negative", "%s.%s/%s" % (c, n, what), ctx.nonneg(o, w.value, inv),
                           lambda: "the %s may become negative: %s" % (what, show(T(o.facts.canon(w.value)))), o, w.where)
        for e in OPS[c]:
            if ctx.need(c, e, False) is None:
                continue
            ctx.accept("covered", c, e, lambda o: token_pre(ctx, c, e, o))
    ctx.floor("never-negative", 10)
    ctx.floor("covered", 15)


def merge_deltas(ctx, o, ds):
    out = []
    for k, d in ds:
        for x in out:
            if ctx.same_keys(o, x[0], k):
                x[1] = add(x[1], d)
                break
        else:
            out.append([k, d])
    return out


def ledger_spec(ctx, c, n):
    """entry -> (balance deltas [(holder, delta)], supply delta)"""
    A = lambda p: argsym(ctx, c, n, p)
    if n == "transfer":
        v = A("_value")
        return [(SENDER, neg(v)), (A("_to"), v)], 0
    if n == "issue":
        return [(A("_to"), A("_amount"))], A("_amount")
    if n == "destroy":
        return [(A("_from"), neg(A("_amount")))], neg(A("_amount"))
    if n in ("deposit", "fallback"):
        return [(SENDER, VALUE)], VALUE
    if n in ("withdraw", "withdrawTo"):
        return [(SENDER, neg(A("_amount")))], neg(A("_amount"))
    return [], 0


def c06(ctx):
    for c in TOKENS:
        b, s = bal(ctx, c), sup(ctx, c)
        for n, e in ctx.writers(c):
            exp, ds = ledger_spec(ctx, c, n) if n in (OPS[c] + (["deposit", "fallback"] if c == "IcxToken" else [])) \
                else ([], 0)
            for o in ctx.ok(c, n):
                got = [(w.keys, delta(w)) for w in o.eff("write") if w.fam[:3] == b.id]
                want = [(b.at(_owner=k).keys, neg(d)) for k, d in exp]
                for k, d in merge_deltas(ctx, o, got + want):
                    ctx.ob("exact-balances", "%s.%s" % (c, n), o.facts.same(d, 0),
                           lambda: "the balance of %s changes by %s more than the operation entitles" % (
                               [show(x) for x in k], show(T(o.facts.canon(d)))), o)
                if not got and not want:
                    ctx.ob("exact-balances", "%s.%s" % (c, n), True, o=o)
                t = 0
                for w in o.eff("write"):
                    if w.fam[:3] == s.id:
                        t = add(t, delta(w))
                ctx.ob("exact-supply", "%s.%s" % (c, n), o.facts.same(t, ds),
                       lambda: "total supply changes by %s, expected %s" % (show(T(o.facts.canon(t))), show(T(ds))), o)
                if n in ("issue", "destroy"):
                    conds = dict(token_pre(ctx, c, n, o))
                    for k in conds:
                        if "caller" in k:
                            ctx.ob("mint-burn-authority", "%s.%s" % (c, n), conds[k] is True,
                                   "succeeds without '%s'" % k, o)
        for e in OPS[c]:
            ctx.need(c, e, False)
    # a reported balance / supply is the ledger entry itself
    ctx.floor("exact-balances", 25)
    ctx.floor("mint-burn-authority", 1)


PAYABLE = {("IcxToken", "fallback"), ("IcxToken", "deposit"), ("Network", "convert"), ("Network", "convertFor")}


def c07(ctx):
    c = "IcxToken"
    b, s = bal(ctx, c), sup(ctx, c)
    for cc in ctx.P.contracts:
        for n, e in ctx.contract(cc).entries.items():
            ctx.ob("payable-set", "%s.%s" % (cc, n), e.payable == ((cc, n) in PAYABLE),
                   "accepts ICX although nothing accounts for it" if e.payable else "does not accept ICX",
                   where=ctx.at_entry(cc, n))
    for cc, n in sorted(PAYABLE):
        ctx.need(cc, n, None if n == "fallback" else False)
    for n in ("withdraw", "withdrawTo"):
        if ctx.need(c, n, False) is None:
            continue
        A = lambda p: argsym(ctx, c, n, p)
        to = A("_to") if n == "withdrawTo" else SENDER
        ctx.accept("withdraw-accept", c, n, lambda o: token_pre(ctx, c, n, o))
        for o in ctx.ok(c, n):
            x = o.eff("icx")
            ctx.ob("withdraw-pays", "IcxToken.%s" % n, len(x) == 1 and x[0].ok is True and o.facts.same(x[0].to, to)
                   and o.facts.same(x[0].amount, A("_amount")),
                   "does not pay exactly the withdrawn ICX to the recipient", o)
    for n, e in ctx.contract(c).entries.items():
        for o in ctx.ok(c, n):
            paid = 0
            for x in o.eff("icx"):
                if x.ok:
                    paid = add(paid, x.amount)
                else:
                    ctx.ob("icx-failure", "IcxToken.%s" % n, False, "a failed ICX payment is ignored", o, x.where)
                later = [w for w in ledger_writes(ctx, c, o) if w.seq > x.seq and not ctx.noop(o, w)]
                ctx.ob("debit-before-pay", "IcxToken.%s" % n, not later,
                       "the ledger is updated only after ICX left the contract", o, x.where)
            for x in o.eff("call"):
                if not (isinstance(x.value, int) and x.value == 0):
                    paid = add(paid, x.value)
            got = VALUE if e.payable else 0
            ds = 0
            for w in o.eff("write"):
                if w.fam[:3] == s.id:
                    ds = add(ds, delta(w))
            ctx.ob("backing", "IcxToken.%s" % n, o.facts.same(ds, sub(got, paid)),
                   lambda: "supply changes by %s while the ICX holdings change by %s" % (
                       show(T(o.facts.canon(ds))), show(T(o.facts.canon(sub(got, paid))))), o)
    for n in ("deposit", "fallback"):
        for o in ctx.outs(c, n):
            ctx.ob("deposit-accepted", "IcxToken.%s" % n, o.status == "ok", "a deposit is refused", o)
            if o.status == "ok":
                w = merge_deltas(ctx, o, [(w.keys, delta(w)) for w in o.eff("write") if w.fam[:3] == b.id] +
                                 [(b.at(_owner=SENDER).keys, neg(VALUE))])
                ctx.ob("deposit-credited", "IcxToken.%s" % n, all(o.facts.same(d, 0) for _, d in w),
                       "the depositor is not credited exactly the ICX sent", o)
    # ICX never leaves or gets stuck elsewhere
    for cc in ctx.P.contracts:
        if cc == c:
            continue
        for n, e in ctx.contract(cc).entries.items():
            for o in ctx.ok(cc, n, **net_kw(cc, n)):
                paid = 0
                for x in o.eff("icx"):
                    paid = add(paid, x.amount if x.ok else 0)
                for x in o.eff("call"):
                    paid = add(paid, x.value if isinstance(x.value, (int, Term)) else 0)
                ctx.ob("icx-passes-through", "%s.%s" % (cc, n), o.facts.same(paid, VALUE if e.payable else 0),
                       lambda: "receives %s ICX but passes on %s" % ("msg.value" if e.payable else 0,
                                                                     show(T(o.facts.canon(paid)))), o)
    ctx.floor("backing", 12)
    ctx.floor("withdraw-pays", 2)
    ctx.floor("payable-set", 60)


def net_kw(c, n):
    return {}


def fallback_calls(o):
    return [x for x in o.eff("call") if x.method == "tokenFallback"]


def c08(ctx):
    for c in TOKENS:
        b = bal(ctx, c)
        if ctx.need(c, "transfer", False) is None:
            continue
        A = lambda p: argsym(ctx, c, "transfer", p)
        to, val, data = A("_to"), A("_value"), A("_data")
        isc = mk("is_contract", (to,), "bool", True)
        for o in ctx.ok(c, "transfer"):
            calls = o.eff("call")
            k = o.facts.decide(isc)
            if k is None:
                # the code did not look: then it must not matter
                ctx.ob("notify", "%s.transfer" % c, False, "the recipient's kind is not considered", o)
                continue
            if not k:
                ctx.ob("no-stray-call", "%s.transfer" % c, not calls, "calls out on a transfer to an ordinary account", o)
                continue
            good = len(calls) == 1 and calls[0].method == "tokenFallback" and o.facts.same(calls[0].target, to)
            ctx.ob("notify", "%s.transfer" % c, good, "a contract recipient is not notified by exactly one tokenFallback", o)
            if not good:
                continue
            x = calls[0]
            isnone = o.facts.decide(eq(data, None))
            args = list(x.args.values())
            want = [SENDER, val, b"None" if isnone else data]
            ctx.ob("notify-arguments", "%s.transfer" % c, len(args) == 3 and isnone is not None and
                   all(o.facts.same(p, q) for p, q in zip(args, want)) and isinstance(x.value, int) and x.value == 0,
                   lambda: "tokenFallback receives %s" % [show(a) for a in args], o, x.where)
            late = [w for w in ledger_writes(ctx, c, o) if w.seq > x.seq and not ctx.noop(o, w)]
            got = merge_deltas(ctx, o, [(w.keys, delta(w)) for w in o.eff("write")
                                        if w.fam[:3] == b.id and w.seq < x.seq] +
                               [(b.at(_owner=SENDER).keys, val), (b.at(_owner=to).keys, neg(val))])
            ctx.ob("notify-after-credit", "%s.transfer" % c, not late and all(o.facts.same(d, 0) for _, d in got),
                   "the recipient is called before both balances are final", o, x.where)
        for n, e in ctx.writers(c, install=True):
            if n == "transfer":
                continue
            for o in ctx.ok(c, n):
                ctx.ob("no-stray-call", "%s.%s" % (c, n), not fallback_calls(o), "notifies outside a transfer", o)
    # every contract that is meant to hold tokens can be notified
    for c in ("Converter", "Network"):
        e = ctx.need(c, "tokenFallback", False)
        if e is not None:
            ctx.ob("receiver", c, e.params == ["_from", "_value", "_data"], "tokenFallback has parameters %s" % e.params)
    ctx.floor("notify", 6)
    ctx.floor("notify-after-credit", 6)


def c09(ctx):
    c = "FlexibleToken"
    sw = ctx.loc(c, "getTransferPossibility")
    for e in ("transfer", "disableTransfer", "issue", "destroy"):
        ctx.need(c, e, False)
    ctx.accept("transfer-gated", c, "transfer", lambda o: token_pre(ctx, c, "transfer", o))
    d = argsym(ctx, c, "disableTransfer", "_disable")
    ctx.accept("switch-authority", c, "disableTransfer", lambda o: [
        ("the caller is the owner", role_cond(ctx, o, c, "owner"))])
    for o in ctx.ok(c, "disableTransfer"):
        fin = ctx.final(o, sw)
        ctx.ob("switch-effect", "FlexibleToken.disableTransfer", same_bool(ctx, o, fin, notl(d)),
               lambda: "the switch ends as %s" % show(T(fin)), o)
        ctx.expect_state("switch-effect", "FlexibleToken.disableTransfer", o, [(sw, fin)])
    # issue and destroy must not depend on the switch
    for e in ("issue", "destroy"):
        for o in ctx.outs(c, e):
            dep = [l for l, v in o.facts.order if any(t.op == "cell" and t.args[0][:3] == sw.id for t in atoms(l))]
            ctx.ob("switch-scope", "FlexibleToken.%s" % e, not dep, "depends on the transfer switch", o)
    for n, e in ctx.writers(c):
        if n == "disableTransfer":
            continue
        for o in ctx.ok(c, n):
            bad = [w for w in ctx.fam_writes(o, sw) if not ctx.noop(o, w)]
            ctx.ob("switch-sole-writer", "FlexibleToken.%s" % n, not bad, "changes the transfer switch", o)
    for o in ctx.ok(c, "on_install"):
        ctx.ob("switch-initial", "FlexibleToken.on_install", o.facts.same(ctx.final(o, sw), True),
               "transfers start disabled", o)
    for o in ctx.ok("IcxToken", "transfer"):
        ctx.ob("icx-not-to-self", "IcxToken.transfer", dict(token_pre(ctx, "IcxToken", "transfer", o))[
            "the recipient is not the token contract itself"] is True, "tokens can be sent to the token contract", o)
    ctx.floor("transfer-gated", 12)
    ctx.floor("switch-sole-writer", 6)


def same_bool(ctx, o, a, b):
    a, b = N(a), N(b)
    if o.facts.same(a, b):
        return True
    x, y = ctx.truth(o, a), ctx.truth(o, b)
    if x is not None and y is not None:
        return x == y
    # two booleans are equal iff one differs from the other's negation
    for p, q in ((a, b), (b, a)):
        if isinstance(q, Term) and q.op == "not" and isinstance(p, Term) and o.facts.differ(p, q.args[0]):
            return True
    return False


GETTERS = {"name": "str", "symbol": "str", "decimals": "int", "totalSupply": "int", "balanceOf": "int"}


def c10(ctx):
    for c in TOKENS:
        k = ctx.contract(c)
        ctx.ob("instantiable", c, not k.abstract, "abstract methods left: %s" % k.abstract)
        for g, ty in GETTERS.items():
            e = ctx.need(c, g, True)
            if e is None:
                continue
            ctx.ob("signature", "%s.%s" % (c, g), e.params == (["_owner"] if g == "balanceOf" else []) and
                   e.returns == ty and (g != "balanceOf" or e.anns["_owner"] == "Address"),
                   "%s%s -> %s" % (g, e.params, e.returns), where=ctx.at_entry(c, g))
            ctx.loc(c, g)
            for o in ctx.outs(c, g):
                ctx.ob("getter-total", "%s.%s" % (c, g), o.status == "ok" or ctx.null_arg(o), "the getter can fail", o)
        locs = {g: (ctx.loc(c, g).fam[:3], ctx.loc(c, g).keys) for g in GETTERS}
        ctx.ob("getter-slots", c, len(set(map(str, locs.values()))) == len(locs), "two getters report the same slot")
        e = ctx.need(c, "transfer", False)
        if e is None:
            continue
        ctx.ob("signature", "%s.transfer" % c, e.params == ["_to", "_value", "_data"] and
               [e.anns[p] for p in e.params] == ["Address", "int", "bytes"] and set(e.defaults) == {"_data"} and
               N(e.defaults["_data"]) is None, "transfer(%s)" % ", ".join("%s: %s" % x for x in e.anns.items()),
               where=ctx.at_entry(c, "transfer"))
        for n, e in ctx.writers(c, install=True):
            A = lambda p: argsym(ctx, c, n, p)
            want = None
            if n == "transfer":
                want = lambda o: (SENDER, A("_to"), A("_value"), b"None" if o.facts.decide(eq(A("_data"), None)) else A("_data"))
            elif n == "issue" and c == "FlexibleToken":
                want = lambda o: (SELF, A("_to"), A("_amount"), b"None")
            elif n == "destroy" and c == "FlexibleToken":
                want = lambda o: (A("_from"), SELF, A("_amount"), b"None")
            elif n in ("deposit", "fallback") and c == "IcxToken":
                want = lambda o: (SELF, SENDER, VALUE, b"None")
            for o in ctx.ok(c, n):
                ev = [x for x in o.eff("event") if x.name == "Transfer"]
                if want is None:
                    ctx.ob("no-false-transfer-event", "%s.%s" % (c, n), not ev, "logs a Transfer that did not happen", o)
                    continue
                w = want(o)
                ctx.ob("transfer-event", "%s.%s" % (c, n), len(ev) == 1 and len(ev[0].args) == 4 and
                       all(o.facts.same(a, b) for a, b in zip(ev[0].args, w)),
                       lambda: "logs %s, expected Transfer%s" % ([tuple(map(show, map(T, x.args))) for x in ev],
                                                                 tuple(show(T(a)) for a in w)), o)
                for x in ev:
                    ctx.ob("transfer-event-shape", c, x.params == ("_from", "_to", "_value", "_data") and
                           x.anns == ("Address", "Address", "int", "bytes") and N(x.indexed) == 3,
                           "Transfer(%s) indexed=%s" % (list(zip(x.params, x.anns)), x.indexed), o, x.where)
    ctx.floor("signature", 18)
    ctx.floor("transfer-event", 12)
