"""C01 administration authority, C02/C03 two-step hand-over, C35 installation and upgrade."""
from .base import *

OWNER = ("owner",)
BOTH = ("owner", "manager")

# public administrative operations and the roles documented for them
ROLES = {
    ("Owned", "transferOwnerShip"): OWNER,
    ("Managed", "transferManagement"): BOTH,
    ("TokenHolder", "withdrawTokens"): OWNER,
    ("Converter", "addConnector"): OWNER,
    ("Converter", "updateConnector"): OWNER,
    ("Converter", "disableConnectorPurchases"): OWNER,
    ("Converter", "transferTokenOwnership"): OWNER,
    ("Converter", "acceptTokenOwnership"): OWNER,
    ("Converter", "disableTokenTransfers"): OWNER,
    ("Converter", "withdrawFromToken"): OWNER,
    ("Converter", "disableRegistryUpdate"): BOTH,
    ("Converter", "disableConversions"): BOTH,
    ("Converter", "setConversionFee"): BOTH,
    ("Converter", "restoreRegistry"): BOTH,
    ("Converter", "updateRegistry"): ("owner", "allowed"),
    ("FlexibleToken", "disableTransfer"): OWNER,
    ("FlexibleToken", "issue"): OWNER,
    ("FlexibleToken", "destroy"): ("owner", "holder"),
    ("Network", "registerIcxToken"): OWNER,
    ("ScoreRegistry", "registerAddress"): OWNER,
    ("ScoreRegistry", "unregisterAddress"): OWNER,
}
OWNED = ("FlexibleToken", "IcxToken", "Converter", "Network", "ScoreRegistry")
HOLDERS = ("FlexibleToken", "IcxToken", "Converter", "Network")
COMMANDS = {"transferOwnerShip", "acceptOwnerShip", "disableTransfer", "withdrawTokens", "transferManagement",
            "acceptManagement", "registerAddress", "unregisterAddress", "registerIcxToken"}


def role_table(ctx):
    out = {}
    for (c, e), r in ROLES.items():
        for k in ({"Owned": OWNED, "Managed": ("Converter",), "TokenHolder": HOLDERS}.get(c) or (c,)):
            out[(k, e)] = r
    return out


def role_cond(ctx, o, c, role):
    if role == "owner":
        return ctx.is_caller(o, ctx.loc(c, "getOwner"))
    if role == "manager":
        return ctx.is_caller(o, ctx.loc(c, "getManager"))
    if role == "allowed":
        return ctx.cell_true(o, ctx.loc(c, "isAllowRegistryUpdate"))
    if role == "holder":
        return ctx.eq3(o, SENDER, sym("arg._from", "addr"))
    raise KeyError(role)


def acts(o, ctx):
    return bool(ctx.changes(o)) or any(e.kind in ("call", "icx", "event") for e in o.effects)


def c01(ctx):
    table = role_table(ctx)
    for (c, e), roles in sorted(table.items()):
        if ctx.need(c, e, readonly=False) is None:
            continue
        hit = {r: False for r in roles}
        for o in ctx.ok(c, e):
            conds = {r: role_cond(ctx, o, c, r) for r in roles}
            for r in roles:
                if conds[r] is True and not any(conds[x] is True for x in roles if x != r):
                    hit[r] = True
            if acts(o, ctx):
                ctx.ob("role-guard", "%s.%s" % (c, e), any3(*conds.values()),
                       "takes effect although the caller is not established to be the %s" % " or ".join(roles), o,
                       where=ctx.at_entry(c, e))
        for r in roles:
            ctx.ob("role-accepted", "%s.%s/%s" % (c, e, r), hit[r], "the %s alone cannot perform this operation" % r,
                   where=ctx.at_entry(c, e))
    # every other state-changing entry point leaves configuration alone and forwards no command
    for c in ctx.P.contracts:
        k = ctx.contract(c)
        user = set()
        for g, f in (("balanceOf", None), ("totalSupply", None), ("getConnector", "virtualBalance")):
            if ctx.has(c, g):
                user.add(ctx.loc(c, g, f).id)
        for n, e in ctx.writers(c):
            if (c, n) in table or n in ("acceptOwnerShip", "acceptManagement"):
                continue
            for o in ctx.ok(c, n):
                owner = role_cond(ctx, o, c, "owner") if ctx.has(c, "getOwner") else None
                for w in ctx.changes(o):
                    ctx.ob("config-untouched", "%s.%s" % (c, n), w.fam[:3] in user or owner is True,
                           "an operation open to everybody changes %s" % w.fam[1], o, w.where)
                for w in o.eff("call"):
                    ctx.ob("no-open-command", "%s.%s->%s" % (c, n, w.method), w.method not in COMMANDS or owner is True,
                           "an operation open to everybody forwards the administrative call %s" % w.method, o, w.where)
    # commands forwarded to the governed token go to that token, with the caller's arguments
    fw = {"transferTokenOwnership": ("transferOwnerShip", {"_newOwner": "_newOwner"}),
          "acceptTokenOwnership": ("acceptOwnerShip", {}),
          "disableTokenTransfers": ("disableTransfer", {"_disable": "_disable"}),
          "withdrawFromToken": ("withdrawTokens", {"_token": "_token", "_to": "_to", "_amount": "_amount"})}
    tok = ctx.loc("Converter", "getToken")
    for e, (m, am) in fw.items():
        for o in ctx.ok("Converter", e):
            calls = o.eff("call")
            args = dict(zip(ctx.contract("Converter").entries[e].params, ctx.contract("Converter").entries[e].params))
            good = len(calls) == 1 and calls[0].method == m and ctx.at_any(o, tok, calls[0].target) is True and \
                set(calls[0].args) == set(am) and all(
                    o.facts.same(calls[0].args[x], argsym(ctx, "Converter", e, y)) for x, y in am.items())
            ctx.ob("forwarded-command", "Converter.%s" % e, good and not ctx.changes(o),
                   "does not forward exactly %s(%s) to the governed token" % (m, ", ".join(am)), o)
        ctx.accept("forwarded-command", "Converter", e, lambda o: [
            ("the caller is the owner", role_cond(ctx, o, "Converter", "owner"))])
    ctx.floor("role-guard", 20)
    ctx.floor("role-accepted", 20)
    ctx.floor("config-untouched", 20)


def argsym(ctx, c, e, p):
    from ..analyze import param_sym
    en = ctx.contract(c).entries[e]
    if p not in en.params:
        raise Broken("%s.%s has no parameter %s" % (c, e, p))
    return param_sym(p, en.anns[p])


def two_step(ctx, c, cur, pend, propose, accept, event, param, roles):
    cl, pl = ctx.loc(c, cur), ctx.loc(c, pend)
    ctx.ob("distinct-slots", "%s.%s" % (c, cur), cl.id != pl.id or cl.keys != pl.keys,
           "current and proposed holder share a storage slot")
    if ctx.need(c, propose, False) is None or ctx.need(c, accept, False) is None:
        return
    a = argsym(ctx, c, propose, param)

    def pre(o):
        return [("the caller holds the role", any3(*[role_cond(ctx, o, c, r) for r in roles])),
                ("the nominee is not the current holder", not3(ctx.at_any(o, cl, a)))]
    ctx.accept("propose", c, propose, pre)
    for o in ctx.ok(c, propose):
        ctx.expect_state("propose-effect", "%s.%s" % (c, propose), o, [(pl, a), (cl, cl.term())])
        ctx.ob("propose-effect", "%s.%s" % (c, propose), not o.eff("call") and not o.eff("icx"), "calls out", o)

    def pre2(o):
        return [("the caller is the proposed holder", ctx.is_caller(o, pl))]
    ctx.accept("accept", c, accept, pre2)
    for o in ctx.ok(c, accept):
        ctx.expect_state("accept-effect", "%s.%s" % (c, accept), o, [(cl, SENDER), (pl, ZERO)])
        ev = o.eff("event")
        ctx.ob("accept-event", "%s.%s" % (c, accept),
               len(ev) == 1 and ev[0].name == event and len(ev[0].args) == 2 and
               o.facts.same(ev[0].args[0], cl.term()) and o.facts.same(ev[0].args[1], SENDER),
               "does not log %s(previous, new)" % event, o)
        ctx.ob("accept-effect", "%s.%s" % (c, accept), not o.eff("call") and not o.eff("icx"), "calls out", o)
    # nobody else
    for n, e in ctx.writers(c):
        if n in (propose, accept):
            continue
        for o in ctx.ok(c, n):
            bad = [w for w in ctx.changes(o) if w.fam[:3] in (cl.id, pl.id)]
            ctx.ob("sole-writers", "%s.%s" % (c, n), not bad,
                   "changes the %s outside the nominate/accept procedure" % cur[3:], o, bad[0].where if bad else None)
    for o in ctx.ok(c, "on_install"):
        ctx.ob("initial-holder", "%s.on_install" % c, o.facts.same(ctx.final(o, cl), SENDER),
               "the deployer does not become the initial holder (%s)" % show(T(ctx.final(o, cl))), o)
        ctx.ob("initial-holder", "%s.on_install/pending" % c, o.facts.same(ctx.final(o, pl), ZERO),
               "a nomination is pending right after installation", o)


def c02(ctx):
    for c in OWNED:
        two_step(ctx, c, "getOwner", "getNewOwner", "transferOwnerShip", "acceptOwnerShip", "OwnerUpdate",
                 "_newOwner", OWNER)
    ctx.floor("propose", 10)
    ctx.floor("accept", 5)
    ctx.floor("sole-writers", 40)


def c03(ctx):
    two_step(ctx, "Converter", "getManager", "getNewManager", "transferManagement", "acceptManagement",
             "ManagerUpdate", "_newManager", BOTH)
    ctx.floor("propose", 4)
    ctx.floor("accept", 1)
    ctx.floor("sole-writers", 20)


def valid_addr(ctx, o, a):
    """address argument is set and not the zero address"""
    return all3(not3(ctx.eq3(o, a, None)), not3(ctx.eq3(o, a, ZERO)))


def c35(ctx):
    # upgrade keeps everything
    for c in ctx.P.contracts:
        k = ctx.contract(c)
        for n in ("on_install", "on_update"):
            e = k.entries.get(n)
            ctx.ob("lifecycle-not-public", "%s.%s" % (c, n), e is not None and not e.external,
                   "%s is missing or callable from outside" % n)
        for o in ctx.outs(c, "on_update"):
            ctx.ob("update-preserves", "%s.on_update" % c, o.status == "ok" and not ctx.changes(o) and
                   not [e for e in o.effects if e.kind in ("call", "icx")],
                   "an upgrade changes state, calls out or fails", o)
        ctx.ob("instantiable", c, not k.abstract, "abstract methods without implementation: %s" % k.abstract)
        if "getOwner" in k.entries:
            cl, pl = ctx.loc(c, "getOwner"), ctx.loc(c, "getNewOwner")
            for o in ctx.ok(c, "on_install"):
                ctx.ob("install-state", "%s.on_install/owner" % c, o.facts.same(ctx.final(o, cl), SENDER) and
                       o.facts.same(ctx.final(o, pl), ZERO), "ownership is not initialised", o)
    A = lambda c, p: argsym(ctx, c, "on_install", p)
    # tokens
    for c in ("IRCToken", "FlexibleToken"):
        n, s, i, d = [A(c, p) for p in ctx.contract(c).entries["on_install"].params[:4]]
        ctx.accept("install-accept", c, "on_install", lambda o: [
            ("the initial supply is not negative", o.facts.decide(ge0(i))),
            ("the number of decimals is not negative", o.facts.decide(ge0(d)))], extra_reasons=lambda o: ctx.null_arg(o))
        for o in ctx.ok(c, "on_install"):
            sup = mul(i, power(10, d))
            for g, v in (("name", n), ("symbol", s), ("decimals", d), ("totalSupply", sup)):
                ctx.ob("install-state", "%s.on_install/%s" % (c, g), o.facts.same(ctx.final(o, ctx.loc(c, g)), v),
                       lambda: "%s is initialised to %s" % (g, show(T(ctx.final(o, ctx.loc(c, g))))), o)
            b = ctx.loc(c, "balanceOf").at(_owner=SENDER)
            ctx.ob("install-state", "%s.on_install/balance" % c, o.facts.same(ctx.final(o, b), sup),
                   "the deployer does not receive the initial supply", o)
            if c == "FlexibleToken":
                ctx.ob("install-state", "FlexibleToken.on_install/transfers", o.facts.same(
                    ctx.final(o, ctx.loc(c, "getTransferPossibility")), True), "transfers start disabled", o)
    for o in ctx.outs("IcxToken", "on_install"):
        ctx.ob("install-state", "IcxToken.on_install/supply", o.status == "ok" and o.facts.same(
            ctx.final(o, ctx.loc("IcxToken", "totalSupply")), 0) and
            not [w for w in ctx.fam_writes(o, ctx.loc("IcxToken", "balanceOf")) if not o.facts.same(w.value, 0)],
            "the ICX token starts with unbacked supply", o)
        ctx.ob("install-state", "IcxToken.on_install/decimals", o.status == "ok" and o.facts.same(
            ctx.final(o, ctx.loc("IcxToken", "decimals")), 18), "the ICX token does not use ICX's 18 decimals", o)
        ctx.ob("install-state", "IcxToken.on_install/symbol", o.status == "ok" and o.facts.same(
            ctx.final(o, ctx.loc("IcxToken", "symbol")), "ICXT"), "the ICX token's symbol is not ICXT", o)
    # score registry knows itself
    for o in ctx.outs("ScoreRegistry", "on_install"):
        if o.status != "ok":
            continue
        sl = score_loc(ctx)
        w = [x for x in o.eff("write") if x.fam[:3] == sl.id]
        ctx.ob("install-state", "ScoreRegistry.on_install/self", len(w) == 1 and o.facts.same(w[0].value, SELF) and
               score_key_is(ctx, o, w[0].keys, "ScoreRegistry"), "the registry does not register itself", o)
    # converter
    c = "Converter"
    tok, reg, mx, ct, cw = [A(c, p) for p in ("_token", "_registry", "_maxConversionFee", "_connectorToken",
                                            "_connectorWeight")]

    def pre(o):
        has = valid_addr(ctx, o, ct)
        act = [v for v in ctx.views(o, "getOwner", tok)]
        inactive = any3(False, *[not3(ctx.eq3(o, v.result, SELF)) for v in act]) if act else None
        conn = all3(inactive, not3(ctx.eq3(o, ct, SELF)), o.facts.decide(gt(cw, 0)), o.facts.decide(le(cw, 1000000)),
                    not3(ctx.eq3(o, ct, tok)))
        return [("a registry is given", valid_addr(ctx, o, reg)), ("a token is given", valid_addr(ctx, o, tok)),
                ("0 <= maximum fee", o.facts.decide(ge0(mx))), ("maximum fee <= 1000000", o.facts.decide(le(mx, 1000000))),
                ("the initial connector, if any, is admissible", any3(not3(has), conn))]
    ctx.accept("install-accept", c, "on_install", pre)
    exp = [("getToken", tok), ("getRegistry", reg), ("getPreviousRegistry", reg), ("getMaxConversionFee", mx),
           ("getConversionFee", 0), ("isConversionsEnabled", True), ("isAllowRegistryUpdate", True),
           ("getManager", SENDER), ("getNewManager", ZERO)]
    for o in ctx.ok(c, "on_install"):
        for g, v in exp:
            l = ctx.loc(c, g)
            ctx.ob("install-state", "Converter.on_install/%s" % g, ctx.same_val(o, ctx.final(o, l), v),
                   lambda: "%s starts as %s" % (g, show(T(ctx.final(o, l)))), o)
        has = valid_addr(ctx, o, ct)
        puts = [e for e in o.eff("arr")]
        if has is True:
            ok = len(puts) == 1 and puts[0].op == "put" and o.facts.same(puts[0].value, ct)
            for f, v in (("weight", cw), ("isSet", True), ("isPurchaseEnabled", True),
                         ("isVirtualBalanceEnabled", False), ("virtualBalance", 0)):
                l = ctx.loc(c, "getConnector", f).at(_address=ct)
                ok = ok and ctx.same_val(o, ctx.final(o, l), v)
            ctx.ob("install-state", "Converter.on_install/connector", ok, "the initial connector is not recorded", o)
        elif has is False:
            ctx.ob("install-state", "Converter.on_install/no-connector", not puts, "a connector appears", o)
    # configuration fixed for the contract's lifetime
    for c, gs in (("Converter", ("getToken", "getMaxConversionFee")), ("IRCToken", ("name", "symbol", "decimals")),
                  ("FlexibleToken", ("name", "symbol", "decimals", "getFlexibleTokenVersion")),
                  ("IcxToken", ("name", "symbol", "decimals"))):
        for g in gs:
            l = ctx.loc(c, g)
            for n, e in ctx.writers(c):
                for o in ctx.ok(c, n):
                    bad = [w for w in ctx.changes(o) if w.fam[:3] == l.id]
                    ctx.ob("install-only", "%s.%s/%s" % (c, n, g), not bad, "changes %s after installation" % g, o,
                           bad[0].where if bad else None)
    ctx.floor("update-preserves", 6)
    ctx.floor("install-state", 25)
    ctx.floor("install-only", 80)


def score_loc(ctx):
    c = "ScoreRegistry"
    if "score_loc" in ctx._loc:
        return ctx._loc["score_loc"]
    cells = {x for o in ctx.ok(c, "getAddress") for x in o.reads}
    if len(cells) != 1:
        ret = {x for o in ctx.ok(c, "getAddress") for x in o.reads if x is N(o.ret)}
        cells = ret if len(ret) == 1 else cells
    if len(cells) != 1:
        ctx.ob("lookup", "ScoreRegistry.getAddress", False, "does not report one stored address",
               where=ctx.at_entry(c, "getAddress"))
        raise Broken("ScoreRegistry.getAddress does not read a single location")
    x = cells.pop()
    l = Loc(x.args[0], x.args[1])
    ctx._loc["score_loc"] = l
    return l


def score_key_is(ctx, o, keys, name):
    want = score_loc(ctx).at(_scoreName=name)
    return ctx.same_keys(o, keys, want.keys)
