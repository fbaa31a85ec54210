#!/usr/bin/env python3
"""known.py PID REGEX WHAT: record the findings of the last run of PID whose id matches (maintainer's tool;
no check calls it).  {func} {key} {msg} are replaced in WHAT."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else {"findings": [], "fixed": []}
pid, rx, what = sys.argv[1:4]
if pid == "fixed":
    d["fixed"].append("fixed: " + what)
else:
    rep = open(os.path.join(V, "evidence", pid + ".report.txt")).read().split("\n")
    have = {f["id"] for f in d["findings"]}
    n = 0
    for i, l in enumerate(rep):
        m = re.match(r"    id: (.*)$", l)
        if m and re.search(rx, m.group(1)) and m.group(1) not in have:
            id = m.group(1)
            rule, func, key = id.split("|", 2)
            msg = rep[i - 1].split("] ", 1)[1]
            d["findings"].append({"property": pid, "id": id, "what": what.replace("{func}", func).replace("{key}", key).replace("{msg}", msg)})
            n += 1
    print(n, "recorded")
json.dump(d, open(P, "w"), indent=1)
