#!/usr/bin/env python3
"""mkseeds.py FILE [id...]: writes the planted bugs described in FILE (a python file with a list SEEDS) to /verif/seeded."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for s in ns["SEEDS"]:
    if want and s["id"] not in want:
        continue
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = f"{w}/r/{f}"
            t = open(p, newline="").read()
            assert t.count(old) >= 1, (s["id"], f, old)
            assert t.count(old) == 1 or s.get("first"), (s["id"], "ambiguous", old)
            open(p, "w", newline="").write(t.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], check=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run([V + "/tools/mkkit.sh", d], check=True)
    json.dump(s["cases"], open(d + "/cases.json", "w"), indent=1)
    for n, t in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
        if n.endswith(".sh"):
            os.chmod(f"{d}/{n}", 0o755)
    print(s["id"])
