#!/usr/bin/env python3
"""Builds /repo (or DIR), runs its own tests and says whether every stable test passes."""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
subprocess.run(["bash", "/opt/vp/build.sh"], check=True, stdout=subprocess.DEVNULL)
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out)); os.unlink(out)
miss = sorted(set(b["stable"]) - set(o["passed"]))
print("stable %d, passed %d, missing %d" % (len(b["stable"]), len(o["passed"]), len(miss)))
for m in miss[:20]: print("  ", m)
sys.exit(bool(miss))
