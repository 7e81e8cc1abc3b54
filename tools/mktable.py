#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: the subs with their case counts, and the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subs = []
for f in glob.glob(V + "/harness/c*.go"):
    for m in re.finditer(r'Sub\{Prop: "(C\d+)", Name: "(\w+)", Quick: (\d+), Thorough: (\d+)', open(f).read()):
        subs.append(m.groups())
subs.sort()
t1 = "| sub | quick | thorough |\n|---|---|---|\n" + "".join("| %s `%s` | %s | %s |\n" % s for s in subs)
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| `%s` | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["needs"].rstrip("."), m["property"]))
t2 = "| planted bug | needs | caught by |\n|---|---|---|\n" + "".join(rows)
s = open(V + "/DESIGN.md").read()
for name, t in (("counts", t1), ("planted", t2)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
