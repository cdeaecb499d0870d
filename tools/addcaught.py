#!/usr/bin/env python3
"""addcaught.py LOG...: enters the results of catch.sh in caught.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "caught.json"); d = json.load(open(p))
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 3 and w[2] == "exit" and w[3] == "1":
            i, pr = w[0].split(":")[0], w[1].rstrip(":")
            have = [x for x in d.get(i, "").split(", ") if x]
            if pr not in have: d[i] = ", ".join(have + [pr])
open(p, "w").write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(d.items())) + "\n}\n")
