#!/usr/bin/env python3
"""Systematic mutation campaign (development aid, not a registered check).

  mutate.py tests MUTS.jsonl OUT.jsonl      which mutants survive the repository's tests
  mutate.py checks SURV.jsonl OUT.jsonl     which survivors the checks report

Works on copies of /repo under /tmp/mut; MUTS comes from tools/mutgen.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util, queue, threading, time

BASEDIR = "/tmp/mut/pristine"
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("check", os.path.join(HERE, "check.py"))
ck = importlib.util.module_from_spec(spec)
spec.loader.exec_module(ck)
if os.path.isdir("/tmp/mut/harness"):
    ck.HARNESS = "/tmp/mut/harness"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def env():
    e = ck.goenv()
    e["GOMAXPROCS"] = os.environ.get("MUT_PROCS", "2")
    return e


def repo_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout
    e = dict(l.split("=", 1) for l in out.splitlines() if "=" in l)
    e["GOMAXPROCS"] = os.environ.get("MUT_PROCS", "2")
    return e


def apply(root, m):
    p = os.path.join(root, m["file"])
    b = open(os.path.join(BASEDIR, m["file"]), "rb").read()
    open(p, "wb").write(b[:m["start"]] + m["new"].encode() + b[m["end"]:])


def restore(root, m):
    shutil.copy(os.path.join(BASEDIR, m["file"]), os.path.join(root, m["file"]))


def tests(root, m, e):
    pk = "./" + os.path.dirname(m["file"])
    pkgs = [pk] if pk == "./" else [pk, "."]
    r = subprocess.run(["go", "build", "./..."], cwd=root, env=e, capture_output=True, text=True)
    if r.returncode:
        return "nobuild"
    for p in pkgs:
        try:
            r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "90s", p], cwd=root, env=e, capture_output=True, text=True, timeout=150, start_new_session=True)
        except subprocess.TimeoutExpired:
            return "killed"
        if r.returncode:
            # once more, as some tests depend on timing
            try:
                r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "90s", p], cwd=root, env=e, capture_output=True, text=True, timeout=150, start_new_session=True)
            except subprocess.TimeoutExpired:
                return "killed"
            if r.returncode:
                return "killed"
    return "survived"


ORDER = {
    "policy/assertion.go": "C02 C01 C03 C32",
    "policy/daemon.go": "C01 C03 C05 C06 C07 C09 C24 C32 C35 C36 C22 C27",
    "policy/fetcher.go": "C08 C07 C06 C05 C22 C24 C36",
    "policy/signed_policy.go": "C04 C06 C22",
    "policy/option.go": "C27 C24",
    "pubkey/daemon.go": "C20 C22 C24 C31 C36 C30",
    "pubkey/option.go": "C27 C20", "jwk/option.go": "C27 C21",
    "jwk/daemon.go": "C21 C22 C24 C31 C36 C30",
    "access/processor.go": "C11 C12 C13 C23", "access/claim.go": "C11 C12 C23", "access/option.go": "C12 C13 C27",
    "role/processor.go": "C10 C23", "role/token.go": "C10 C28 C23", "role/option.go": "C10",
    "translator.go": "C16 C17 C29", "mask.go": "C25", "principal.go": "C28",
    "client/exp_rt.go": "C26", "option.go": "C27 C12 C13 C15",
    "authorizerd.go": "C14 C18 C19 C29 C15 C30 C28 C24 C25 C27 C33 C34 C35 C23 C11 C10",
}
ALL = ["C%02d" % i for i in range(1, 60)]


def run_sub(bin, sub, n, budget, procs):
    out = tempfile.mkdtemp(prefix="mutout-", dir="/tmp/mut")
    try:
        rc, err = ck.run_child(bin, out, dict(VERIF_MODE="search", VERIF_PROP=sub["Prop"], VERIF_SUB=sub["Name"], VERIF_SEED=os.environ.get("MUT_SEED", "1"),
                               VERIF_SHARD="0", VERIF_CHECKS=str(n), VERIF_BUDGET_S=str(budget), VERIF_HANG_S="40"), budget + 120, procs)
        r = ck.read_json(os.path.join(out, "result.json"))
        if rc == 0 and r is not None:
            if r["Failure"]:
                json.dump(r["Failure"], open("/tmp/mut/fail-%s-%s-%d.json" % (sub["Prop"], sub["Name"], time.time()), "w"))
                return r["Failure"].get("error", "")
            return None
        f = ck.read_json(os.path.join(out, "failure.json"))
        if f:
            return f.get("error", "failure")
        site, msg = ck.crash_site(err)
        return "CRASH rc=%s %s %s" % (rc, site, msg[:200])
    finally:
        shutil.rmtree(out, ignore_errors=True)


def checks(root, m, w):
    tmp = os.path.join("/tmp/mut", "b%d" % w)
    os.makedirs(tmp, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        s = open(os.path.join(ck.HARNESS, f)).read().replace("=> /repo", "=> " + root)
        open(os.path.join(tmp, f), "w").write(s)
    out = os.path.join(tmp, "h.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(tmp, "go.mod"), "-o", out, "."], cwd=ck.HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode:
        return dict(by="", err="build: " + r.stdout[-300:] + r.stderr[-500:])
    lo = os.path.join(tmp, "list")
    ck.run_child(out, lo, dict(VERIF_MODE="list"), 60, 2)
    subs = ck.read_json(os.path.join(lo, "list.json"))
    pref = ORDER.get(m["file"], "").split()
    order = pref + ([c for c in ALL if c not in pref] if os.environ.get("MUT_ALL") else [])
    tried, race = 0, False
    frac = float(os.environ.get("MUT_FRAC", "0.25"))
    for c in order:
        for s in subs:
            if s["Prop"] != c:
                continue
            tried += 1
            b = out
            if s.get("Race"):
                b = os.path.join(tmp, "race.test")
                if not race:
                    race = True
                    subprocess.run(["go", "test", "-c", "-race", "-vet=off", "-modfile=" + os.path.join(tmp, "go.mod"), "-o", b, "."], cwd=ck.HARNESS, env=env(), capture_output=True, text=True, check=True)
            e = run_sub(b, s, max(50, int(s["Quick"] * frac)), 40, 3)
            if e is not None:
                return dict(by=s["Prop"] + "/" + s["Name"], err=e[:400], tried=tried)
    return dict(by="", err="", tried=tried)


def message(m):
    """Mutants of error texts."""
    l = open(os.path.join(BASEDIR, m["file"])).read().split("\n")[m["line"] - 1]
    return "delta" in l or "errMsg :=" in l or (m["op"] == "str" and any(x in l for x in ("errors.", "Errorf(", "errMsg", "glg.")))


def main():
    mode, src, dst = sys.argv[1:4]
    done = set()
    if os.path.exists(dst):
        for l in open(dst):
            r = json.loads(l)
            done.add((r["file"], r["start"], r["end"], r["new"]))
    ms = [json.loads(l) for l in open(src)]
    if mode == "checks":
        ms = [m for m in ms if m.get("tests", "survived") == "survived" and not message(m)]
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["start"], m["end"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()
    e = repo_env()
    nw = int(os.environ.get("MUT_WORKERS", "6"))
    os.makedirs("/tmp/mut", exist_ok=True)
    if not os.path.isdir(BASEDIR):
        subprocess.run(["cp", "-a", "/repo", BASEDIR], check=True)

    def work(w):
        root = "/tmp/mut/r%d" % w
        shutil.rmtree(root, ignore_errors=True)
        subprocess.run(["cp", "-a", BASEDIR, root], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            apply(root, m)
            try:
                if mode == "tests":
                    m["tests"] = tests(root, m, e)
                else:
                    m.update(checks(root, m, w))
            finally:
                restore(root, m)
            with lock:
                open(dst, "a").write(json.dumps(m) + "\n")
        shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i + int(os.environ.get("MUT_BASE", "0")),)) for i in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
