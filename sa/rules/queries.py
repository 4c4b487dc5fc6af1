"""C36: every query answers, and answers with the current state.  C37: storage layout of deployed contracts."""
from .base import *
from .converter import C, list_fam, total_weight
from .globals import FIELDS, GETTERS, QUERIES, static_ty
from .network import items_of, lens
from .owner import argsym, score_loc


def answers(ctx, o, ret, loc):
    """the run returns exactly what the location holds"""
    return isinstance(ret, (Term,) + SCALARS) and ctx.same_val(o, ret, loc.term(0))


def c36(ctx):
    for c, qs in QUERIES.items():
        for q in qs:
            ctx.need(c, q, True, rule="query-offered")
    # plain queries: one location each, its present content, always
    for c, gs in GETTERS.items():
        seen = {}
        for g in gs:
            if not ctx.has(c, g):
                continue
            l = ctx.loc(c, g, check=False)
            en = ctx.contract(c).entries[g]
            args = {a.arg: argsym(ctx, c, g, a.arg) for a in en.func.node.args.args[1:]}
            seen.setdefault(l.id, []).append(g)
            for o in ctx.outs(c, g):
                ctx.ob("never-refused", "%s.%s" % (c, g), o.status == "ok", lambda: "fails (%s)" % o.exc, o)
                if o.status == "ok":
                    ctx.ob("reports-state", "%s.%s" % (c, g), answers(ctx, o, o.ret, l),
                           lambda: "answers %s" % (show(T(o.ret)) if isinstance(o.ret, (Term,) + SCALARS) else o.ret), o)
            for a, s in args.items():
                ctx.ob("asked-item", "%s.%s" % (c, g), any(s in atoms(k) for k in l.keys),
                       "the answer does not depend on %s" % a)
            ctx.ob("asked-item", "%s.%s" % (c, g), bool(args) or not any(
                t.op == "sym" for k in l.keys for t in atoms(k)), "the answer depends on more than the stored value")
        for gs2 in seen.values():
            ctx.ob("own-value", "%s.%s" % (c, gs2[0]), len(gs2) == 1, "%s report the same value" % " and ".join(gs2))
    # derived queries of the converter
    tok = ctx.loc(C, "getToken")
    for o in ctx.outs(C, "isActive"):
        own = [v.result for v in ctx.views(o, "getOwner", tok.term(0))]
        ctx.ob("reports-active", "Converter.isActive", o.status == "ok" and len(own) == 1 and
               isinstance(o.ret, (Term,) + SCALARS) and ctx.same_val(o, o.ret, eq(own[0], SELF)) and static_ty(o.ret) == "bool",
               "does not tell whether the converter owns its token at present", o)
    q = argsym(ctx, C, "getConnector", "_address")
    L = lambda f, a: ctx.loc(C, "getConnector", f).at(_address=a)
    for o in ctx.outs(C, "getConnector"):
        st = o.facts.decide(L("isSet", q).term(0))
        good = o.status == "ok" and isinstance(o.ret, DictVal) and st is not None and bool(o.ret.pairs) == st
        if good and st:
            d = dict(o.ret.pairs)
            good = set(d) == set(FIELDS) and all(answers(ctx, o, d[k], L(k, q)) for k in d)
        ctx.ob("reports-connector", "Converter.getConnector", good,
               "does not report the record of a connector, and an empty one for anything else", o)
    q = argsym(ctx, C, "getConnectorBalance", "_connectorToken")
    for o in ctx.outs(C, "getConnectorBalance"):
        st = o.facts.decide(L("isSet", q).term(0))
        if o.status != "ok":
            ctx.ob("reports-balance", "Converter.getConnectorBalance", st is False or ctx.null_arg(o),
                   "refuses a query for a connector", o)
            continue
        vb = o.facts.decide(L("isVirtualBalanceEnabled", q).term(0))
        want = L("virtualBalance", q).term(0) if vb else next(
            (v.result for v in ctx.views(o, "balanceOf", q, _owner=SELF)), None)
        ctx.ob("reports-balance", "Converter.getConnectorBalance", st is True and vb is not None and want is not None and
               o.facts.same(o.ret, want), "does not report the virtual balance if enabled and the actual one otherwise", o)
    fee = ctx.loc(C, "getConversionFee").term(0)
    amt = argsym(ctx, C, "getFinalAmount", "_amount")
    for k in (1, 2):
        for o in ctx.P.explore_entry(C, "getFinalAmount", {"_amount": amt, "_magnitude": k}, []):
            used = atoms(o.ret) if isinstance(o.ret, Term) else set()
            ctx.ob("reports-fee", "Converter.getFinalAmount", o.status == "ok" and fee in used and amt in used,
                   "does not apply the current fee to the amount", o)
    # the list of connectors
    n = argsym(ctx, C, "getConnectorAt", "_index")
    counts = [o.ret for o in ctx.outs(C, "getConnectorTokenCount")]
    for r in counts:
        ctx.ob("reports-list", "Converter.getConnectorTokenCount", isinstance(r, Term) and r.op == "alen",
               "does not count the stored connectors")
    for o in ctx.ok(C, "getConnectorAt"):
        ctx.ob("reports-list", "Converter.getConnectorAt", isinstance(o.ret, Term) and o.ret.op == "cell" and
               o.facts.same(o.ret.args[1][-1], n) and all(isinstance(r, Term) and r.op == "alen" and
                                                          r.args[0][1:3] == o.ret.args[0][1:3] for r in counts),
               "does not answer the asked element of the counted list", o)
    # the registry
    c = "ScoreRegistry"
    n = argsym(ctx, c, "getAddress", "_scoreName")
    for o in ctx.outs(c, "getAddress"):
        cells = [t for t in o.reads if n in [x for k in t.args[1] for x in atoms(k)]]
        un = [ctx.eq3(o, t, None) for t in cells]
        ctx.ob("reports-address", "ScoreRegistry.getAddress", o.status == "ok" and (
            (True in un and o.facts.same(o.ret, ZERO)) or
            (False in un and any(o.facts.same(o.ret, t) for t in cells))),
            "does not report the stored address, or the zero address when there is none", o)
    for o in ctx.outs(c, "getScoreIds"):
        v = items_of(o.ret) if o.status == "ok" else None
        ctx.ob("reports-names", "ScoreRegistry.getScoreIds", bool(v) and all(isinstance(x, str) for x in v),
               "does not list the score names", o)
    # nobody's answer depends on who asks
    for c, qs in QUERIES.items():
        for q in qs:
            if not ctx.has(c, q):
                continue
            for o in ctx.outs(c, q, **({"lens": lens(ctx)} if q == "getExpectedReturnByPath" else {})):
                who = any(SENDER in atoms(l) and l is not eq(SENDER, ZERO) for l, _ in o.facts.order) or \
                    (isinstance(o.ret, Term) and SENDER in atoms(o.ret)) or \
                    (isinstance(o.ret, DictVal) and any(isinstance(x, Term) and SENDER in atoms(x) for _, x in o.ret.pairs))
                ctx.ob("same-for-all", "%s.%s" % (c, q), not who, "the answer depends on the caller", o)
    ctx.floor("reports-state", 25)
    ctx.floor("reports-connector", 2)
    ctx.floor("same-for-all", 40)


# ---------------------------------------------------------------------------------------- C37
# where released versions of the contracts keep what each query reports: container, name, value type
OWNED_L = {"getOwner": ("var", "prev_owner", "Address"), "getNewOwner": ("var", "new_owner", "Address")}
IRC_L = {"name": ("var", "name", "str"), "symbol": ("var", "symbol", "str"), "decimals": ("var", "decimals", "int"),
         "totalSupply": ("var", "total_supply", "int"), "balanceOf": ("dict", "balances", "int")}
LAYOUT = {
    "IRCToken": IRC_L, "IcxToken": dict(IRC_L, **OWNED_L),
    "FlexibleToken": dict(IRC_L, **OWNED_L, getFlexibleTokenVersion=("var", "version", "str"),
                          getTransferPossibility=("var", "transfer_possibility", "bool")),
    "Network": dict(OWNED_L, getIcxTokenRegistered=("dict", "icx_tokens", "bool")),
    "ScoreRegistry": OWNED_L,
    "Converter": dict(OWNED_L, getManager=("var", "manager", "Address"), getNewManager=("var", "new_manager", "Address"),
                      getToken=("var", "token", "Address"), getConversionFee=("var", "conversion_fee", "int"),
                      getMaxConversionFee=("var", "max_conversion_fee", "int"), getRegistry=("var", "registry", "Address"),
                      getPreviousRegistry=("var", "prev_registry", "Address"),
                      isAllowRegistryUpdate=("var", "allow_registry_update", "bool"),
                      isConversionsEnabled=("var", "conversions_enabled", "bool")),
}
RECORD = {"virtualBalance": ("virtual_balance", "int"), "weight": ("weight", "int"),
          "isVirtualBalanceEnabled": ("is_virtual_balance_enabled", "bool"),
          "isPurchaseEnabled": ("is_purchase_enabled", "bool"), "isSet": ("is_set", "bool")}


def c37(ctx):
    def place(what, fam, keys, kind, name, ty, want, where=None, sub=0):
        ctx.ob("stored-in-place", what, fam[0] == kind and fam[1] == name and fam[2] == sub and fam[3] == ty and
               [N(k) for k in keys] == [N(T(k)) for k in want],
               lambda: "is kept in %s %s%s of type %s, deployed contracts keep it in %s %s%s of type %s" % (
                   fam[0], fam[1], "".join("[%s]" % show(k) for k in keys), fam[3], kind, name,
                   "".join("[%s]" % show(T(k)) for k in want), ty), where=where)

    for c, tab in LAYOUT.items():
        for g, (kind, name, ty) in tab.items():
            if ctx.need(c, g, True) is None:
                continue
            l = ctx.loc(c, g, check=False)
            ps = ctx.contract(c).entries[g].params
            place("%s.%s" % (c, g), l.fam, l.keys, kind, name, ty, [argsym(ctx, c, g, p) for p in ps], ctx.at_entry(c, g))
    q = argsym(ctx, C, "getConnector", "_address")
    slot = mk("concat", (T(b"\x03|"), mk("to_bytes", (q,), "bytes", True)), "bytes", True)
    for f, (name, ty) in RECORD.items():
        l = ctx.loc(C, "getConnector", f, check=False)
        place("Converter.getConnector.%s" % f, l.fam, l.keys, "var", name, ty, [slot], ctx.at_entry(C, "getConnector"), 1)
    tw, arr = total_weight(ctx), list_fam(ctx)
    place("Converter/total weight", tw.fam, tw.keys, "var", "total_connector_weight", "int", [])
    place("Converter/connector list", arr, [], "array", "connector_tokens", "Address", [])
    l = score_loc(ctx)
    place("ScoreRegistry.getAddress", l.fam, l.keys, "dict", "score_address", "Address",
          [argsym(ctx, "ScoreRegistry", "getAddress", "_scoreName")])
    ctx.floor("stored-in-place", 45)
