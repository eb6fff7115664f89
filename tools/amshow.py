#!/usr/bin/env python3
"""amshow.py FILE...: automut results that passed the tests; -a shows the caught ones too"""
import sys, json
a = [x for x in sys.argv[1:] if x != "-a"]
n = {}
for p in a:
    for l in open(p):
        r = json.loads(l)
        k = r["st"] if r["st"] != "checked" else ("caught" if r["rc"] == 1 else "SURVIVED" if r["rc"] == 0 else "BROKEN")
        n[k] = n.get(k, 0) + 1
        if r["st"] == "checked" and (r["rc"] != 1 or "-a" in sys.argv):
            print(r["n"], k, r["viol"], "und=%d" % r["nund"], r["file"][-16:], r["line"], r["old"][:90].replace("\n", "\\n"), "=>", r["new"][:90].replace("\n", "\\n"), r.get("out", "")[-150:], r["und"][:1])
print(n)
