#!/usr/bin/env python3
"""Runs checks against hand-written changes (development aid, not a registered check).

  adhoc.py SPEC.py OUT.jsonl [names...]

SPEC.py defines MUTS = [(name, "C01 C05", [(file, old, new), ...]), ...]. Works on copies of /repo under /tmp/mut.
Environment: MUT_WORKERS, MUT_FRAC, MUT_SEED, ADHOC_TESTS=1 also runs the repository's tests of the touched packages.
"""
import importlib.util, json, os, queue, shutil, subprocess, sys, threading

HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, "mutate.py")).read().rsplit("\nmain()", 1)[0]
M = {"__file__": os.path.join(HERE, "mutate.py"), "__name__": "mutate"}
exec(compile(src, "mutate.py", "exec"), M)
M["ck"].HARNESS = os.environ.get("ADHOC_HARNESS", os.path.join(os.path.dirname(HERE), "harness"))
M["ORDER"].clear()


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    out = sys.argv[2]
    names = sys.argv[3:]
    q = queue.Queue()
    done = set()
    if os.path.exists(out) and not names:
        done = {json.loads(l)["name"] for l in open(out)}
    for m in ns["MUTS"]:
        if (not names or m[0] in names) and m[0] not in done:
            q.put(m)
    os.makedirs("/tmp/mut", exist_ok=True)
    lock = threading.Lock()
    e = M["repo_env"]()

    def work(w):
        root = "/tmp/mut/ah%d" % w
        while True:
            try:
                name, ids, reps = q.get_nowait()
            except queue.Empty:
                break
            shutil.rmtree(root, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", root], check=True)
            res = dict(name=name)
            try:
                for f, old, new in reps:
                    p = os.path.join(root, f)
                    s = open(p).read()
                    if s.count(old) != 1:
                        raise Exception("%s: %d matches of %r" % (f, s.count(old), old[:60]))
                    open(p, "w").write(s.replace(old, new))
                if os.environ.get("ADHOC_TESTS"):
                    res["tests"] = ",".join(sorted({M["tests"](root, dict(file=f), e) for f, _, _ in reps}))
                M["ORDER"][name] = ids
                res.update(M["checks"](root, dict(file=name), 40 + w))
                if not res["by"] and os.environ.get("ADHOC_ALL"):
                    os.environ["MUT_ALL"] = "1"
                    res.update(M["checks"](root, dict(file=name), 40 + w))
            except Exception as ex:
                res["err"] = "SPEC " + str(ex)
                res["by"] = ""
            with lock:
                open(out, "a").write(json.dumps(res) + "\n")
                print("%-34s tests=%-10s by=%-16s %s" % (name, res.get("tests", "-"), res["by"], (res.get("err") or "").replace("\n", " ")[:110]), flush=True)
        shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("MUT_WORKERS", "4")))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
