#!/usr/bin/env python3
"""seed.py ID...: verifies the planted bugs: the patch applies, builds, passes the stable tests, the demo
tells it apart, and the property's check catches it.   --fast skips the repository's tests, --nocheck the check."""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"; S = V + "/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
fast = "--fast" in sys.argv; nocheck = "--nocheck" in sys.argv
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def demo(i):
    t = tempfile.mkdtemp()
    for f in os.listdir(f"{S}/{i}"):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(f"{S}/{i}/{f}", t)
    try: r = run(["bash", t + "/demo.sh"], cwd="/repo", timeout=300)
    finally: shutil.rmtree(t)
    return r
assert run(["git", "-C", "/repo", "status", "--porcelain"]).stdout == "", "dirty /repo"
for i in args or sorted(os.listdir(S)):
    meta = json.load(open(f"{S}/{i}/meta.json")); res = []
    r = demo(i); res.append("demo-clean:" + ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-600:]))
    try:
        a = run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"])
        if a.returncode: res.append("APPLY-FAIL " + a.stdout)
        else:
            b = run(["bash", "/opt/vp/build.sh"])
            res.append("build:" + ("ok" if b.returncode == 0 else "FAIL " + b.stdout[-600:]))
            r = demo(i); res.append("demo-bug:" + ("ok" if r.returncode else "NOT-DETECTED"))
            if not fast:
                r = run([sys.executable, V + "/tools/basetest.py"]); res.append("tests:" + ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-800:]))
            if not nocheck:
                r = run([sys.executable, V + "/tools/check.py", meta["property"]], timeout=900)
                l = [x for x in r.stdout.splitlines() if x.startswith("property=") or x.startswith("property ")]
                res.append("check:" + ("CAUGHT " + (l[0][:160] if l else "") if r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])))
    finally: run(["git", "-C", "/repo", "checkout", "--", "."])
    print(i, meta["property"], " | ".join(res), flush=True)
