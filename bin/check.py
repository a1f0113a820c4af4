#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [quick|thorough]

Builds the property's test binary from /repo's working tree, runs it in shards
with seeds derived from VERIF_SEED in a scratch directory, writes
evidence/<id>.json and reports: exit 0 held, exit 1 + VIOLATION line, exit 2
when the check itself could not do its work.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOENV="off",
           GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           HOME="/root", CGO_ENABLED=os.environ.get("VT_CGO", "0"))
ENV.setdefault("GOCACHE", "/root/.cache/go-build")
if "/usr/local/go/bin" not in ENV.get("PATH", ""):
    ENV["PATH"] = "/usr/local/go/bin:" + ENV.get("PATH", "/usr/bin:/bin")

def load_meta():
    return json.load(open(os.path.join(HARNESS, "checks.json")))

def build(meta, scratch):
    """The test binary (race-detecting if the check asks for it) and avtool."""
    race = meta.get("race")
    binary = os.path.join(scratch, "check.test")
    go_build(["go", "test", "-c", "-vet=off"] + (["-race"] if race else []) + ["-o", binary, "./" + meta["pkg"]],
             HARNESS, meta["pkg"], dict(ENV, CGO_ENABLED="1") if race else ENV)
    if meta.get("avtool"):
        go_build(["go", "build", "-o", os.path.join(scratch, "avtool"), "./cmd/avtool"], REPO, "avtool")
    return binary

def go_build(args, cwd, what, env=ENV):
    r = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("ERROR building %s:\n%s" % (what, r.stdout[-4000:]))
        sys.exit(2)

def limits(race=False):
    if not race: # the race detector reserves much more address space than it uses
        g = 10 << 30
        resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)

def read_log(d):
    return open(os.path.join(d, "log"), errors="replace").read()

def definite(log):
    """Whether the log of a failed shard shows a failure that happened again."""
    return "--- FAIL" in log and "flaky test, can not reproduce" not in log

def run_shards(binary, scratch, pid, tier, seeds, shards, extra, tmo, shrink):
    procs = []
    meta = load_meta()[pid]
    for i, s in enumerate(seeds):
        d = os.path.join(scratch, "s%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = dict(ENV)
        e.update(VT_ID=pid, VT_TIER=tier, VT_OUT=os.path.join(d, "out.json"), VT_SHARDS=str(shards),
                 VT_SHARD=str(i), VT_CASEFILE=os.path.join(d, "case"), VT_SCRATCH=d, TMPDIR=d,
                 VT_AVTOOL=os.path.join(scratch, "avtool"), GOTRACEBACK="all", GOMAXPROCS=e.get("GOMAXPROCS", "4"),
                 VT_SCALE=os.environ.get("VT_SCALE") or str(meta.get("scale", 1) if tier == "quick" else 1),
                 VT_KNOWN=os.path.join(VERIF, "known_findings.json"))
        if meta.get("race"):
            e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([binary, "-test.timeout=0", "-rapid.seed=%d" % s, "-test.failfast", "-rapid.shrinktime=%ds" % shrink] + extra,
                             cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, preexec_fn=lambda: limits(meta.get("race")))
        procs.append((i, s, d, p))
    end = time.time() + tmo
    # one definite failure decides: the others need not come to their end
    while time.time() < end and any(p.poll() is None for _, _, _, p in procs):
        if any(p.poll() == 1 and definite(read_log(d)) for _, _, d, p in procs):
            for _, _, _, p in procs:
                try:
                    if p.poll() is None: os.killpg(p.pid, 9)
                except OSError:
                    pass
            break
        time.sleep(0.05)
    res = []
    for i, s, d, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
            try: # goroutine dump
                os.kill(p.pid, 3)
                p.wait(10)
            except (OSError, subprocess.TimeoutExpired):
                pass
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        res.append(dict(shard=i, seed=s, dir=d, rc=rc, log=read_log(d)))
    return res

def in_library(log):
    """Whether a data race is one in the code under test: of its two accesses,
    at least one is below a function of the library with no harness function
    nearer to the access."""
    part = log[log.find("WARNING: DATA RACE"):]
    for m in re.finditer(r"^(?:Read|Write|Previous read|Previous write|Atomic \S+|Previous atomic \S+) at .*\n((?:  .*\n)+)", part, re.M | re.I):
        for f in re.findall(r"^  (\S+)", m.group(1), re.M):
            if f.startswith("joyverif/"): break
            if f.startswith("github.com/nareix/joy5"): return True
    return False

def crash_kind(r):
    """None: not a failure of the code under test. Otherwise a short description."""
    rc, log = r["rc"], r["log"]
    if rc == 0: return None
    if rc == 1 and "--- FAIL" in log: return "fail"
    if rc == 66 and "WARNING: DATA RACE" in log: return "race" if in_library(log) else None
    if rc == 4 or rc == "timeout": return "hang"
    if rc == 2 and re.search(r"^(panic: |fatal error: |goroutine \d+ \[|runtime: )", log, re.M): return "crash"
    return None

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    meta = load_meta()[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    shards = meta.get("shards_thorough", 8) if tier == "thorough" else meta.get("shards", 4)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vt-%s-" % pid)
    try:
        return go(pid, tier, meta, seed, shards, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def go(pid, tier, meta, seed, shards, t0, scratch):
    binary = build(meta, scratch)
    build_s = time.time() - t0
    extra = []
    if os.environ.get("VT_RUN"): extra.append("-test.run=" + os.environ["VT_RUN"])
    base = (seed * 1000003 + 17) & 0x7fffffff
    seeds = [(base + 7919 * i * i + 104729 * i) % 0x7fffffff + 1 for i in range(shards)]
    shrink = meta.get("shrink", 10)
    # far beyond what a shard takes: one that does not get there hangs
    tmo = (6000 if tier == "thorough" else 540) if not os.environ.get("VT_TMO") else int(os.environ["VT_TMO"])
    res = run_shards(binary, scratch, pid, tier, seeds, shards, extra, tmo, shrink)
    bad = [(r, crash_kind(r)) for r in res if crash_kind(r)]
    err = [r for r in res if r["rc"] != 0 and not crash_kind(r)]
    notes = []
    viol = None
    for r, k in bad:
        flaky = k == "fail" and not definite(r["log"])
        if k == "fail" and not flaky:
            viol = (r, k); break
        # process death, hang or a failure that did not reproduce at once:
        # count it only when a fresh process shows it again.
        again = None
        if r["rc"] == "timeout":
            viol = (r, k); break
        for n in range(3):
            if tier == "quick":
                left = 830 - (time.time() - t0)
                if left < 30: break
                tmo = min(tmo, left / (3 - n))
            d2 = os.path.join(scratch, "again"); os.makedirs(d2, exist_ok=True)
            rr = run_shards(binary, d2, pid, tier, [r["seed"]], shards, extra, tmo, shrink)[0] if not meta.get("avtool") else \
                 run_again(binary, scratch, pid, tier, r, shards, extra, tmo, shrink)
            if crash_kind(rr):
                again = rr; break
        if again:
            keep = dict(r); keep["log"] = r["log"]
            viol = (keep, k); break
        notes.append("shard seed %d ended with '%s' once and did not reproduce" % (r["seed"], k))
        print("NOTE: " + notes[-1]); print(r["log"][-1500:])
    merged = merge(res)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
          "coverage": {"evaluations": merged["evaluations"], "distinct_nontrivial": len(merged["keys"]),
                       "rule": meta["rule"], "samples": merged["samples"][:12] or ["(none)"],
                       "labels": merged["labels"], "cases_per_test": merged["tests"],
                       "excluded_known_findings": merged["known"]},
          "assumptions": meta.get("assumptions", []),
          "violations": [], "wall_s": round(time.time() - t0, 2),
          "build_s": round(build_s, 2), "shards": shards, "notes": notes}
    rcode = 0
    if viol:
        r, k = viol
        path = save_replay(pid, tier, seed, r, k, shards)
        ev["violations"] = [{"kind": k, "replay": path}]
        tail = summarise(r["log"])
        print(tail)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rcode = 1
    elif err:
        for r in err:
            print("ERROR: shard seed %d ended with %s\n%s" % (r["seed"], r["rc"], r["log"][-2500:]))
        rcode = 2
    elif notes and not merged["evaluations"]:
        rcode = 2
    else:
        kf = known_findings().get(pid, [])
        for f in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rcode == 0:
        print("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs" %
              (pid, tier, merged["evaluations"], len(merged["keys"]), time.time() - t0))
    return rcode

def run_again(binary, scratch, pid, tier, r, shards, extra, tmo, shrink):
    d2 = os.path.join(scratch, "again")
    os.makedirs(d2, exist_ok=True)
    if not os.path.exists(os.path.join(d2, "avtool")):
        shutil.copy(os.path.join(scratch, "avtool"), os.path.join(d2, "avtool"))
    return run_shards(binary, d2, pid, tier, [r["seed"]], shards, extra, tmo, shrink)[0]

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return {}
    out = {}
    for f in json.load(open(p)).get("findings", []):
        out.setdefault(f["property"], []).append(f)
    return out

def merge(res):
    m = dict(evaluations=0, keys=set(), labels={}, samples=[], tests={}, known={})
    for r in res:
        try:
            o = json.load(open(os.path.join(r["dir"], "out.json")))
        except Exception:
            continue
        m["evaluations"] += o["evaluations"]
        m["keys"].update(o["keys"] or [])
        for f in ("labels", "tests", "known"):
            for k, v in (o[f] or {}).items():
                m[f][k] = m[f].get(k, 0) + v
        if r["shard"] == 0 or not m["samples"]:
            m["samples"] += o["samples"] or []
    m["labels"] = dict(sorted(m["labels"].items()))
    return m

def summarise(log):
    i = log.find("--- FAIL")
    if i >= 0: return log[max(0, i - 200):i + 3500]
    i = max(log.find("HUNG:"), log.find("WARNING: DATA RACE"), 0)
    return log[i:i + 2500]

def save_replay(pid, tier, seed, r, kind, shards):
    root = os.path.join(VERIF, "replay", pid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    open(os.path.join(root, "log.txt"), "w").write(r["log"][-200000:])
    cf = os.path.join(r["dir"], "case")
    if os.path.exists(cf): shutil.copy(cf, os.path.join(root, "last_case.bin"))
    fails = []
    for dp, _, fs in os.walk(r["dir"]):
        for f in fs:
            if f.endswith(".fail"):
                shutil.copy(os.path.join(dp, f), os.path.join(root, f)); fails.append(f)
    test = None
    m = re.search(r"--- FAIL: (\S+)", r["log"])
    if m: test = m.group(1)
    info = {"property": pid, "tier": tier, "verif_seed": seed, "kind": kind, "test": test, "rapid_seed": r["seed"],
            "shards": shards, "failfiles": fails,
            "how": "python3 bin/replay.py replay/%s/replay.json" % pid}
    p = os.path.join(root, "replay.json")
    json.dump(info, open(p, "w"), indent=1)
    return p

if __name__ == "__main__":
    sys.exit(main())
