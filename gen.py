#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the files in props/ (one JSON object per property) and the check registry."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from crmsa import checks  # noqa: E402,F401
from crmsa.report import CHECKS  # noqa: E402
from props import PROPS, NOT_APPLICABLE  # noqa: E402

ORDER = "CFPSXN"


def main() -> None:
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    props = sorted(PROPS, key=lambda p: (ORDER.index(p["id"][0]), p["id"]))
    lines, ch, missing = [], [], []
    na = {n["property"] for n in NOT_APPLICABLE}
    for p in props:
        tech, note = p.get("technique"), p.get("level_note")
        if p["id"] not in na:
            if p["id"] not in CHECKS:
                missing.append(p["id"])
                continue
            ch.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": tech, "level": "other", "level_note": note})
        lines.append(json.dumps({k: v for k, v in p.items() if k not in ("technique", "level_note")}))
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        fh.write("\n".join(lines) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py selftest", "checks": ch, "not_applicable": NOT_APPLICABLE,
           "notes": "Static analysis only: an abstract interpreter and syntax-tree queries (crmsa/, standard library only) read /repo's "
                    "current source on every run; nothing of /repo is imported or executed. Genuine defects: KNOWN_FINDINGS.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    print(len(ch), "checks", len(NOT_APPLICABLE), "n/a; without a check:", missing, "; check without text:",
          sorted(set(CHECKS) - set(ids)))


main()
