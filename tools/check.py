#!/usr/bin/env python3
"""Runs the property-based check of one property.

  check.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness against /repo's working tree, replays the saved regression plans of
the property, then runs the generated-input search of every sub of the property in
parallel processes. Exit 0: held on everything explored. Exit 1: a VIOLATION line was
printed. Anything else: the check itself could not be carried out.
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
LIB = "github.com/yahoojapan/athenz-authorizer"
NCPU = max(2, os.cpu_count() or 2)


def goenv():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    if os.path.isdir(root):
        e["GOROOT"] = root
        e["PATH"] = root + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


class CheckError(Exception):
    pass


def build(tmp, race=False):
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(tmp, f))
    out = os.path.join(tmp, "race.test" if race else "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(tmp, "go.mod"), "-o", out] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("build failed:\n" + r.stdout + r.stderr)
    return out


def run_child(binary, out, env, timeout, procs):
    e = dict(os.environ)
    e.update(env)
    e["VERIF_OUT"] = out
    e["GOMAXPROCS"] = str(procs)
    e["GOTRACEBACK"] = "all"
    e["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
    os.makedirs(out, exist_ok=True)
    errp = os.path.join(out, "stderr.txt")
    with open(errp, "wb") as ef:
        p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=out, env=e,
                             stdout=ef, stderr=ef, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -1000
    return rc, open(errp, errors="replace").read()


def crash_site(err):
    """'library' when the goroutine that crashed was running library code."""
    if "WARNING: DATA RACE" in err:
        return race_site(err)
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None, ""
    if re.search(r"out of memory|cannot allocate memory|signal arrived|pthread_create", m.group(0)):
        return None, m.group(0)
    rest = err[m.end():]
    g = re.search(r"^goroutine \d+.*?:$", rest, re.M)
    if not g:
        return None, m.group(0)
    blk = rest[g.start():].split("\n\n")[0]
    for line in blk.split("\n")[1:]:
        l = line[len("created by "):] if line.startswith("created by ") else line
        if l.startswith(LIB):
            return "library", m.group(0) + "\n" + "\n".join(x for x in blk.split("\n") if LIB in x and not x.startswith("\t"))
        if l.startswith("verif/harness"):
            return "harness", m.group(0)
    return None, m.group(0)


def race_site(err):
    """'library' when one of the two accesses was made by library code, directly or through a dependency."""
    rep = err[err.index("WARNING: DATA RACE"):].split("==================")[0]
    owners, heads, shown = [], [], []
    for blk in re.split(r"\n\n", rep):
        head = re.search(r"^((?:Previous |Atomic |Previous atomic )?(?:Read|Write|read|write) at 0x\w+ by .*?):$", blk, re.M)
        if not head:
            continue
        kind = re.sub(r" at 0x\w+ by .*", "", head.group(1))
        frames = [l.strip() for l in blk[head.end():].split("\n") if l.startswith("  ") and not l.startswith("   ")]
        own = next((("library" if f.startswith(LIB) else "harness") for f in frames if f.startswith(LIB) or f.startswith("verif/harness")), "")
        owners.append(own)
        heads.append(kind)
        shown.append(kind + " in " + " < ".join([f for f in frames if not f.startswith("runtime.")][:6]))
    msg = "DATA RACE: " + "; against: ".join(shown)
    if "library" in owners:
        return "library", msg
    return "harness" if owners else None, msg


def read_json(p):
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return None


class Checker:
    def __init__(self, a):
        self.a = a
        self.id = a.id
        self.tier = a.tier
        self.seed = os.environ.get("VERIF_SEED", "1")
        try:
            int(self.seed)
        except ValueError:
            self.seed = "1"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
        self.n = 0
        self.lock = threading.Lock()

    def binary(self, sub):
        return self.racebin if sub in self.races else self.bin

    def outdir(self):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "o%d" % self.n)

    def replay_plan(self, f, repeat=1, hang=60, timeout=200, procs=4):
        """Runs one plan in its own process: (verdict, message), verdict in fail/ok/error."""
        out = self.outdir()
        os.makedirs(out)
        path = os.path.join(out, "plan.json")
        json.dump(f, open(path, "w"))
        rc, err = run_child(self.binary(f["sub"]), out, dict(VERIF_MODE="replay", VERIF_REPLAY=path, VERIF_REPEAT=str(repeat), VERIF_HANG_S=str(hang)), timeout, procs)
        r = read_json(os.path.join(out, "replay.json"))
        if rc == 0 and r is not None:
            return ("fail" if r["fails"] else "ok"), r["error"]
        if rc == 7:
            return "hang", open(os.path.join(out, "hang.txt"), errors="replace").read()
        site, msg = crash_site(err)
        if site == "library":
            return "fail", "process crash: " + msg
        return "error", err[-4000:]

    def shrink_crash(self, f, budget=45):
        """Delta-debugs a plan whose execution crashes the process."""
        end = time.time() + budget
        best = f["plan"]

        def variants(v):
            if isinstance(v, list):
                n = len(v)
                if n > 1:
                    yield v[:n // 2]
                    yield v[n // 2:]
                for i in range(n):
                    yield v[:i] + v[i + 1:]
                for i in range(n):
                    for w in variants(v[i]):
                        yield v[:i] + [w] + v[i + 1:]
            elif isinstance(v, dict):
                for k in v:
                    for w in variants(v[k]):
                        d = dict(v)
                        d[k] = w
                        yield d
            elif isinstance(v, str) and len(v) > 1:
                yield v[:len(v) // 2]
                yield v[len(v) // 2:]
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in variants(best):
                if time.time() > end:
                    break
                g = dict(f)
                g["plan"] = cand
                v, _ = self.replay_plan(g, timeout=60)
                if v == "fail":
                    best, progress = cand, True
                    break
        f["plan"] = best

    def task(self, sub, shard, checks, budget, procs):
        out = self.outdir()
        env = dict(VERIF_MODE="search", VERIF_PROP=self.id, VERIF_SUB=sub["Name"], VERIF_SEED=self.seed,
                   VERIF_SHARD=str(shard), VERIF_CHECKS=str(checks), VERIF_BUDGET_S=str(budget), VERIF_HANG_S="90")
        rc, err = run_child(self.binary(sub["Name"]), out, env, budget + 300, procs)
        res = read_json(os.path.join(out, "result.json"))
        if rc == 0 and res is not None:
            return res
        base = dict(Prop=self.id, Sub=sub["Name"], Rule=sub["Rule"], Evaluations=0, NonTrivial=0, NTHashes=[], Labels={}, Samples=[], Failure=None, Stopped="", WallS=0)
        fail = read_json(os.path.join(out, "failure.json"))
        if fail is not None:
            # The search had already found and saved a failing plan.
            base["Failure"] = fail
            base["Evaluations"] = 1
            return base
        plan = read_json(os.path.join(out, "current.json"))
        if rc == 4:
            raise CheckError("sub %s: %s" % (sub["Name"], err[-6000:]))
        if plan is None:
            raise CheckError("sub %s: child ended with %s before the first case\n%s" % (sub["Name"], rc, err[-4000:]))
        f = dict(sub=sub["Name"], property=self.id, plan=plan, kind="crash", error="", failing_executions=1)
        if rc == 7 or rc == -1000:
            v, msg = self.replay_plan(f, repeat=3, hang=60, timeout=400)
            if v == "hang" and LIB in msg:
                f["kind"] = "hang"
                f["error"] = "the execution never finishes; goroutines inside the library:\n" + hang_excerpt(msg)
            elif v == "fail":
                f["error"] = msg
            else:
                raise CheckError("sub %s: no progress (%s), not reproduced\n%s" % (sub["Name"], rc, err[-3000:]))
            base["Failure"] = f
            return base
        site, msg = crash_site(err)
        if site != "library":
            raise CheckError("sub %s: child ended with %s\n%s" % (sub["Name"], rc, err[-6000:]))
        f["error"] = "process crash: " + msg
        ok = sum(self.replay_plan(f)[0] == "fail" for _ in range(3))
        f["reproduced"] = "%d/3" % ok
        if ok == 3:
            self.shrink_crash(f)
        base["Failure"] = f
        base["Evaluations"] = 1
        return base

    def save_replay(self, f):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s.json" % (self.id, f["sub"], self.seed))
        json.dump(f, open(p, "w"), indent=1)
        return p

    def violation(self, f, path):
        msg = (f.get("error") or "").strip()
        print("property %s, sub %s: %s" % (self.id, f["sub"], msg[:3000]))
        if f.get("reproduced"):
            print("reproduced %s when replayed" % f["reproduced"])
        print("VIOLATION property=%s replay=%s" % (self.id, path), flush=True)

    def evidence(self, results, wall, violations, replays):
        subs, labels_all, samples = [], {}, []
        ev = nt = 0
        for name in sorted({r["Sub"] for r in results}):
            rs = [r for r in results if r["Sub"] == name]
            h = set()
            lab = {}
            for r in rs:
                h.update(r["NTHashes"] or [])
                for k, v in (r["Labels"] or {}).items():
                    lab[k] = lab.get(k, 0) + v
            e = sum(r["Evaluations"] for r in rs)
            ev += e
            nt += len(h)
            subs.append(dict(sub=name, evaluations=e, distinct_nontrivial=len(h), rule=rs[0]["Rule"], classes=dict(sorted(lab.items())),
                             processes=len(rs), stopped_early=any(r["Stopped"] for r in rs)))
            for r in rs[:1]:
                for s in (r["Samples"] or [])[:2]:
                    samples.append(dict(sub=name, plan=s))
        cov = dict(evaluations=ev, distinct_nontrivial=nt,
                   rule="Plans are drawn by rapid generators from VERIF_SEED and executed against the library. " + " | ".join("%s: %s" % (s["sub"], s["rule"]) for s in subs),
                   samples=samples, subs=subs, regression_replays=replays)
        level = self.level()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(dict(property=self.id, tier=self.tier, seed=int(self.seed), level=level, coverage=cov, wall_s=round(wall, 2), violations=violations,
                       assumptions=["virtual clock (testing/synctest) and an in-memory HTTP transport stand for time and network",
                                    "the oracle written in /verif/harness is right"]),
                  open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1)

    def level(self):
        m = read_json(os.path.join(VERIF, "MANIFEST.json")) or {}
        for c in m.get("checks", []):
            if c["property"] == self.id:
                return c["level"]
        return "exploration"

    def run(self):
        t0 = time.time()
        self.bin = build(self.tmp)
        t1 = time.time()
        out = self.outdir()
        rc, err = run_child(self.bin, out, dict(VERIF_MODE="list"), 120, 2)
        subs = [s for s in (read_json(os.path.join(out, "list.json")) or []) if s["Prop"] == self.id]
        self.races = {s["Name"] for s in subs if s["Race"]}
        if self.races and (not self.a.replay or json.load(open(self.a.replay))["sub"] in self.races):
            self.racebin = build(self.tmp, race=True)
            t1 = time.time()
        if self.a.replay:
            f = json.load(open(self.a.replay))
            v, msg = self.replay_plan(f, repeat=int(self.a.repeat), timeout=800)
            print(v, msg[:4000])
            if v in ("fail", "hang"):
                print("VIOLATION property=%s replay=%s" % (self.id, os.path.abspath(self.a.replay)))
                return 1
            return 0 if v == "ok" else 3
        if not subs:
            raise CheckError("no subs for %s\n%s" % (self.id, err))
        quick = self.tier == "quick"
        failures = []
        # Saved plans first: each came from a defect that was repaired or from a planted one.
        regs = sorted(glob.glob(os.path.join(VERIF, "regress", self.id, "*.json")))
        with ThreadPoolExecutor(NCPU) as ex:
            def reg(p):
                f = json.load(open(p))
                return p, f, self.replay_plan(f, repeat=f.get("repeat", 3))
            for p, f, (v, msg) in ex.map(reg, regs):
                if v in ("fail", "hang"):
                    f["error"] = msg
                    failures.append((f, p))
                elif v == "error":
                    raise CheckError("regression plan %s: %s" % (p, msg))
        budget = int(os.environ.get("VERIF_BUDGET", "60" if quick else "480"))
        tasks = []
        free = max(1, NCPU // len(subs))
        for s in subs:
            total = s["Quick"] if quick else s["Thorough"]
            shards = min(s["Shards"] or free, max(1, total // 20))
            for i in range(shards):
                tasks.append((s, i, (total + shards - 1) // shards))
        procs = max(2, NCPU // len(tasks))
        results, errors = [], []
        with ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.task, s, i, n, budget, procs) for s, i, n in tasks]
            for f in futs:
                try:
                    results.append(f.result())
                except CheckError as e:
                    errors.append(e)
        best = {}
        for r in results:
            f = r["Failure"]
            if f and (f["sub"] not in best or len(json.dumps(f["plan"])) < len(json.dumps(best[f["sub"]]["plan"]))):
                best[f["sub"]] = f
        for f in best.values():
            failures.append((f, self.save_replay(f)))
        self.evidence(results, time.time() - t0, len(failures), len(regs))
        for l in known_findings(self.id):
            print(l)
        n = sum(r["Evaluations"] for r in results)
        nts = sum(r["NonTrivial"] for r in results)
        print("%s %s seed=%s: %d cases, %d non-trivial, %d regression plans, build %.1fs, total %.1fs" % (
            self.id, self.tier, self.seed, n, nts, len(regs), t1 - t0, time.time() - t0))
        if failures:
            for f, p in failures:
                self.violation(f, p)
            return 1
        if errors:
            raise errors[0]
        if nts == 0:
            raise CheckError("vacuous run: no non-trivial case")
        return 0


def hang_excerpt(dump):
    out = []
    for blk in dump.split("\n\n"):
        if LIB in blk:
            lines = blk.split("\n")
            out.append(lines[0] + " " + " <- ".join(x.split("(")[0] for x in lines[1:] if not x.startswith("\t"))[:300])
        if len(out) > 6:
            break
    return "\n".join(out)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(l.strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--repeat", default="20")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    c = Checker(a)
    try:
        rc = c.run()
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (a.id, e))
        rc = 3
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR %s: %s" % (a.id, e))
        rc = 3
    finally:
        if a.keep:
            print("kept", c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
