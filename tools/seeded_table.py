#!/usr/bin/env python3
"""seeded_table.py LOGDIR: rewrites section 5 of DESIGN.md from the logs catch-<bug>.log of checks run against each planted bug"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*")):
    b = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    p = "%s/catch-%s.log" % (sys.argv[1], b)
    t = open(p).read() if os.path.exists(p) else ""
    how = []
    if "failing input:" in t:
        how.append("input")
    fs = sorted(set(x.split(" :: ")[-1].strip(" :") for x in re.findall(r"^failed obligation: (\S+ :: .*? :: \w+):", t, re.M)))
    if fs:
        how.append("obligation in " + ", ".join("`%s`" % f for f in fs))
    elif "failed obligation" in t:
        how.append("obligation")
    if "VIOLATION" not in t:
        how = ["**missed**"]
    rows.append("| %s | %s | %s |" % (b, m["needs"], "; ".join(how)))
s = open(V + "/DESIGN.md").read()
a, z = "<!-- seeded -->\n", "<!-- /seeded -->\n"
i, j = s.index(a) + len(a), s.index(z)
open(V + "/DESIGN.md", "w").write(s[:i] + "| change | needs | named by |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:])
