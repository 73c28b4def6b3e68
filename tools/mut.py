#!/usr/bin/env python3
"""Sensitivity sweep: applies each edit of MUTS in a scratch copy and runs checks.  Usage: mut.py FILE.py [ids]

MUTS: list of (id, checks, expect 'caught'|'quiet', [(file, old, new), ...]).
"""
import os, runpy, shutil, subprocess, sys, tempfile, ast
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    mid, checks, expect, edits = m
    root = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("SRC","/repo")+"/conda_recipe_manager", root + "/conda_recipe_manager")
        for fn, old, new in edits:
            p = os.path.join(root, "conda_recipe_manager", fn)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{mid}: EDIT MATCHES {s.count(old)} times"
            s = s.replace(old, new)
            ast.parse(s)
            open(p, "w").write(s)
        out = []
        for c in checks:
            r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), c], capture_output=True, text=True,
                               env=dict(os.environ, CRMSA_REPO=root, CRMSA_NOWRITE="1"))
            out.append((c, r.returncode, r.stdout))
        rcs = [r for _, r, _ in out]
        good = (1 in rcs) if expect == "caught" else all(r == 0 for r in rcs)
        msg = "ok" if good else "*** " + ("MISSED" if expect == "caught" else "FALSE ALARM")
        det = "" if good and expect == "quiet" else " | ".join(f"{c}:{r} " + " ; ".join(
            l[:160] for l in o.splitlines() if "[" in l and not l.startswith("    ") and "VIOLATION" not in l and "functions" not in l or r > 1)[:300] for c, r, o in out)
        return f"{mid}: {msg} {det}"
    finally:
        shutil.rmtree(root)


def main():
    ms = runpy.run_path(sys.argv[1])["MUTS"]
    only = sys.argv[2:]
    ms = [m for m in ms if not only or m[0] in only]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, ms):
            print(r)


main()
