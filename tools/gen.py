#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/spec.py (properties without a rule become not_applicable or are left out)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.spec import P, NA
from sa.registry import RULES, available

NOTE = ("Sound for the analysed source up to the stated models (ICON execution model, ICON service library, Python subset): all inputs, callers and "
        "states are symbolic; loops are bounded only by path length (24 elements). Trusts sa/ itself; no solver, nothing of /repo is executed. ")


def main():
    lines, checks = [], []
    for pid in sorted(P):
        p = P[pid]
        lines.append(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}))
        if pid in RULES and available(pid):
            checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": "other",
                           "level_note": (p["note"] or NOTE).strip()})
    na = []
    for n in NA:
        lines.append(json.dumps({
            "id": n["id"], "title": n["title"], "statement": n["statement"],
            "quantifier": {"over": n["over"], "text": n["text"]}, "why_tests_cant": n["why"],
            "anchors": {"files": n["files"], "mechanism": [{"name": a, "where": w} for a, w in n["mech"]]}}))
        na.append({"property": n["id"], "reason": n["reason"]})
    for pid in sorted(P):
        if not (pid in RULES and available(pid)):
            na.append({"property": pid, "reason": "check not built"})
    open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'", "checks": checks,
         "not_applicable": na, "notes": "Static analysis only; see DESIGN.md. No hooks in /repo."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    for x in lines:
        d = json.loads(x)
        assert len(d["title"]) <= 80, d["id"]
    print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")


main()


def design():
    import re
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    out = []
    for pid in sorted(P):
        p = P[pid]
        out += ["### %s %s" % (pid, p["title"]), "", p["statement"], "",
                "* **Quantifier:** %s." % p["text"], "* **Decided by:** %s." % p["technique"],
                "* **Rules / oracle:** %s." % p["rule"].rstrip("."), "* **Beyond tests:** %s" % p["why"],
                "* **Anchors:** %s." % "; ".join("%s - %s" % (n, w) for n, w in p["mech"])]
        if COST.get(pid):
            out.append("* **Cost:** %s." % COST[pid])
        out.append("")

    def put(s, a, b, text):
        i, j = s.index(a) + len(a), s.index(b)
        return s[:i] + "\n\n" + text.strip() + "\n\n" + s[j:]
    s = put(s, "<!-- generated from sa/spec.py by tools/gen.py -->", "<!-- end generated -->", "\n".join(out))
    s = put(s, "<!-- generated na -->", "<!-- end na -->", "\n".join(
        "* **%s %s.** %s" % (n["id"], n["title"], n["reason"]) for n in NA))
    mx = os.path.join(ROOT, "tools", "seed_matrix.json")
    rows = ["| seed | property | needs | reported by |", "|---|---|---|---|"]
    m = json.load(open(mx)) if os.path.exists(mx) else {}
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        f = os.path.join(ROOT, "seeded", d, "meta.json")
        if os.path.exists(f):
            j = json.load(open(f))
            rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"], ", ".join(m.get(d, ["?"])) or "none"))
    s = put(s, "<!-- generated seeds -->", "<!-- end seeds -->", "\n".join(rows))
    open(path, "w").write(s)


COST = {"C22": "about 25 s", "C23": "about 25 s", "C24": "about 30 s", "C25": "about 30 s", "C30": "about 10 s", "C31": "about 10 s",
        "C32": "about 10 s", "C33": "about 20 s"}
if os.path.isdir(os.path.join(ROOT, "seeded")):
    design()
