#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes planted bugs from a spec defining SEEDS = [(id, property, [(file, old, new)...], needs, breaks, demo source)]."""
import json, os, subprocess, sys, shutil
V = "/verif"
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    for (i, prop, edits, needs, breaks, demo) in ns["SEEDS"]:
        assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty"
        d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in edits:
                s = open("/repo/" + f).read(); assert s.count(old) == 1, (i, f, s.count(old), old)
                open("/repo/" + f, "w").write(s.replace(old, new))
            subprocess.run("for f in $(git diff --name-only); do gofmt -l $f; done", shell=True, cwd="/repo")
            open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
        finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.txt", "w").write(demo.lstrip())
        for f in ("demo.sh", "lib.txt"): shutil.copy(f"{V}/tools/demolib/{f}", d)
        print("made", i)
