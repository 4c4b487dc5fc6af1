#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

    check.py C04 [--tier quick|thorough] [--repo /repo]

exit 0: the property holds on everything analysed; exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken; exit 2: no verdict (the analysis met a construct it
does not model, or lost an anchor).
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

FINDINGS = os.path.join(HERE, "known_findings.txt")

ASSUMPTIONS = [
    "ICON's execution model: one transaction at a time, a raised exception undoes the whole transaction, "
    "a call to another contract may re-enter this one",
    "the ICON service library behaves as modelled in sa/icon_model.py (VarDB/DictDB/ArrayDB, decorators, msg, tx, "
    "Address, icx.transfer, revert/require)",
    "Python semantics as modelled in sa/interp.py and sa/builtins_model.py",
    "other contracts' read-only methods are functions of the chain state (same arguments, no call in between: same result)",
]


def known():
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition("|")
                d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                d["what"] = what.strip()
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    t0 = time.time()
    from sa.registry import available
    from sa.analyze import Program
    from sa.rules.base import Ctx, Broken
    f = available(a.property)
    if f is None:
        print("no rule for %s" % a.property)
        return 2
    os.makedirs(a.out, exist_ok=True)
    evid = os.path.join(a.out, a.property + ".json")
    replay = os.path.join(a.out, a.property + ".replay.json")
    for p in (evid, replay):
        if os.path.exists(p):
            os.unlink(p)
    err = None
    ctx = None
    try:
        P = Program(a.repo)
        ctx = Ctx(a.property, P, a.tier)
        f(ctx)
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        where = getattr(getattr(ctx, "P", None), "ip", None)
        if where is not None:
            try:
                err += " [%s]" % (where.where(),)
            except Exception:
                pass
    if ctx is None:
        print("ANALYSIS-ERROR property=%s %s" % (a.property, err))
        return 2
    kn = [k for k in known() if k.get("property") == a.property]
    fresh, old = [], []
    for v in ctx.violations:
        m = [k for k in kn if k.get("rule") == v["rule"] and k.get("construct") == v["construct"].replace(" ", "_")]
        (old if m else fresh).append((v, m))
    for v, m in old:
        print("KNOWN-FINDING: property=%s %s" % (a.property, m[0]["what"]))
    from sa.describe import rules_text
    funcs, lines = P.coverage()
    ev = {
        "property": a.property, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other",
        "coverage": {
            "explanation": rules_text(a.property),
            "obligations": ctx.obligations,
            "discharged": ctx.obligations - ctx.failed,
            "obligations_per_rule": ctx.rules,
            "path_partitions": ctx.parts,
            "partition_totals": dict(P.stats),
            "bounded": P.bounded or "nothing: every partition was enumerated",
            "entry_points": sorted(ctx.entries_used),
            "functions_analysed": len(funcs),
            "modules_analysed": sorted(P.modules()),
            "samples": ctx.samples or [{"note": "no discharged obligation"}],
            "notes": ctx.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    if err:
        ev["coverage"]["error"] = err
    with open(evid, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if fresh:
        with open(replay, "w") as fh:
            json.dump([v for v, _ in fresh], fh, indent=1, default=str)
        for v, _ in fresh[:20]:
            print("%s [%s] %s: %s (%s)" % (a.property, v["rule"], v["construct"], v["message"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
        return 1
    if err:
        print("ANALYSIS-ERROR property=%s %s" % (a.property, err))
        return 2
    print("OK property=%s obligations=%d partitions=%d entries=%d wall=%.1fs" % (
        a.property, ctx.obligations, ctx.parts, len(ctx.entries_used), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-ERROR %s" % e)
        rc = 2
    sys.exit(rc)
