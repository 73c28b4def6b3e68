"""Print what a check left undecided: undec.py ID (runs nothing; reads the evidence of the last run)."""
import json, sys
def f(o, p=""):
    if isinstance(o, dict):
        for k, v in o.items(): f(v, p + "/" + k)
    elif isinstance(o, list):
        for v in o: f(v, p)
    elif "ndec" in p and "counts" not in p: print(o)
f(json.load(open(f"/verif/evidence/{sys.argv[1]}.json")))
