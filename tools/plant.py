#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and keeps them under seeded/.  Usage: plant.py FILE.py...  (each defines BUGS)

BUGS: list of dicts id, property, needs, breaks, edits=[(file, old, new)], demo (python text).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PRE = open(os.path.join(VERIF, "tools", "stub.py")).read()


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, check=False, **kw)


def stable(wc):
    out = os.path.join(wc, ".vp_junit.xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
               GIT_CONFIG_GLOBAL="/dev/null")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o",
        "junit_family=xunit2", f"--junitxml={out}", "tests"], wc, env=env)
    res = os.path.join(wc, ".vp_res.json")
    sh(["python3", "/opt/vp/results.py", res, "junit:" + out], wc)
    ok = set(json.load(open(res))["passed"])
    os.remove(out)
    os.remove(res)
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok


def main():
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        for b in runpy.run_path(f)["BUGS"]:
            if only and b["id"] not in only:
                continue
            root = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
            wc = os.path.join(root, "wc")
            try:
                sh(["cp", "-a", "/repo", wc], "/")
                out = os.path.join(root, "d")
                os.makedirs(out)
                with open(os.path.join(out, "demo.py"), "w") as fh:
                    fh.write(PRE + "\n" + b["demo"].strip() + "\n")
                with open(os.path.join(out, "demo.sh"), "w") as fh:
                    fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                clean = sh(["bash", os.path.join(out, "demo.sh")], wc)
                for fn, old, new in b["edits"]:
                    p = os.path.join(wc, "conda_recipe_manager", fn)
                    s = open(p).read()
                    assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                    open(p, "w").write(s.replace(old, new))
                diff = sh("git diff", wc).stdout
                assert diff, b["id"]
                bad = sh(["bash", os.path.join(out, "demo.sh")], wc)
                miss = stable(wc)
                ok = clean.returncode == 0 and bad.returncode != 0 and not miss
                env = dict(os.environ, CRMSA_REPO=wc, CRMSA_NOWRITE="1")
                c = sh(["python3", "-B", os.path.join(VERIF, "check.py"), b["property"]], VERIF, env=env)
                allr = sh(["python3", "-B", os.path.join(VERIF, "check.py"), "all"], VERIF, env=env)
                hit = [x.split("property=")[1].split()[0] for x in allr.stdout.splitlines() if x.startswith("VIOLATION")]
                print(b["id"], "ok" if ok else f"REJECTED clean={clean.returncode} bad={bad.returncode} missing={sorted(miss)[:3]}",
                      "caught" if c.returncode == 1 else f"MISSED rc={c.returncode}", "by", hit, flush=True)
                if not ok:
                    print("   clean:", (clean.stdout + clean.stderr)[-300:].replace("\n", " | "))
                    print("   bad:", (bad.stdout + bad.stderr)[-300:].replace("\n", " | "))
                if ok:
                    d = os.path.join(VERIF, "seeded", b["id"])
                    shutil.rmtree(d, ignore_errors=True)
                    shutil.copytree(out, d)
                    with open(os.path.join(d, "patch.diff"), "w") as fh:
                        fh.write(diff)
                    with open(os.path.join(d, "meta.json"), "w") as fh:
                        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fh, indent=1)
                        fh.write("\n")
            finally:
                shutil.rmtree(root, ignore_errors=True)


main()
