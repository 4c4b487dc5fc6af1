#!/usr/bin/env python3
"""Run every check against every planted bug (in scratch copies of /repo) and record which report it: tools/seed_matrix.json."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def one(seed):
    from sa.registry import available, RULES
    from sa.analyze import Program
    from sa.rules.base import Ctx
    d = tempfile.mkdtemp(prefix="matrix-")
    try:
        r = os.path.join(d, "r")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + r, os.path.join(ROOT, "seeded", seed, "patch.diff")], cwd="/")
        P, got = Program(r), []
        for i in sorted(RULES):
            ctx = Ctx(i, P, "quick")
            try:
                available(i)(ctx)
            except Exception:
                pass
            if ctx.violations:
                got.append(i)
        return seed, got
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    out = os.path.join(ROOT, "tools", "seed_matrix.json")
    seeds = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    m = json.load(open(out)) if os.path.exists(out) and sys.argv[1:] else {}
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as ex:
        for s, g in ex.map(one, seeds):
            m[s] = g
            print(s, g, flush=True)
    json.dump(m, open(out, "w"), indent=0, sort_keys=True)
