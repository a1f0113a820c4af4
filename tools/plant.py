#!/usr/bin/env python3
"""Plants bugs: plant.py DEFS.py [id...]   (development tool, used by no check)

DEFS.py calls bug(id, prop, edits, pkg, test, needs, breaks). For each one: a
scratch copy of /repo gets the edits; it must build, pass the stable tests, and
the demonstration must pass before and fail after. It is then kept under
/verif/seeded/<id>, and the property's check is run against the scratch copy.
  plant.py --kept [id...]   runs the checks against the kept ones again
"""
import json, os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
BUGS = []

def bug(id, prop, edits, pkg, test, needs, breaks, race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks, race=race))

DEMO = '''#!/bin/bash
# exit 0: the property holds in this case, nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/o.json"
%(pre)sTMPDIR="$t" go test %(race)s-overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, tmo=900, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo, env=e, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"

def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif")
    for x in ("harness", "bin"):
        subprocess.run(["cp", "-a", VERIF + "/" + x, d + "/verif/" + x], check=True)
    for x in ("known_findings.json",):
        if os.path.exists(VERIF + "/" + x): shutil.copy(VERIF + "/" + x, d + "/verif/" + x)
    for f in (d + "/verif/harness/go.mod", d + "/verif/bin/check.py"):
        s = open(f).read()
        s = s.replace("=> /repo", "=> %s/repo" % d).replace('REPO = "/repo"', 'REPO = "%s/repo"' % d)
        open(f, "w").write(s)
    return d

def tests(repo):
    rc, out = sh(". /opt/vp/env.sh; go build ./... || exit 9; pk=$(go list -e ./... | grep -v /cmd/avtool$); go test -vet=off -count=1 -json $pk", repo)
    if rc == 9: return "does not build: " + out[-600:]
    ok = set()
    for l in out.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get("Action") == "pass" and "Test" in j: ok.add(j["Package"] + "/" + j["Test"])
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
    return "fails stable tests %s" % miss if miss else ""

def base_lines(repo, patch):
    """Whether the patch changes a line of the original repository."""
    f = None; old = 0; n = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            r = subprocess.run(["git", "-C", repo, "blame", "-l", "-s", "-L%d,%d" % (old, old), "HEAD", "--", f], capture_output=True, text=True).stdout
            if r.lstrip("^")[:30] == BASE[:30]: n += 1
            old += 1
        elif l.startswith(" "): old += 1
    return n

def check(d, prop, tier="quick"):
    env = {"VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
    rc, out = sh("python3 %s/verif/bin/check.py %s %s" % (d, prop, tier), d, env=env)
    return rc, out

def one(b):
    d = copy(); repo = d + "/repo"
    try:
        s = d + "/seed"; os.makedirs(s)
        open(s + "/demo_test.go", "w").write(b["test"].lstrip("\n"))
        pre = 'go build -o "$t/avtool" ./cmd/avtool || exit 3\nexport DEMO_AVTOOL="$t/avtool"\n' if "DEMO_AVTOOL" in b["test"] else ""
        open(s + "/demo.sh", "w").write(DEMO % dict(pkg=b["pkg"], pre=pre, race="-race " if b["race"] else "")); os.chmod(s + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        rc, out = sh("bash %s/demo.sh" % s, repo, 300)
        if rc: return b["id"], "BAD: demo fails on the unchanged tree: " + out[-1500:], ""
        for f, o, n in b["edits"]:
            p = repo + "/" + f; x = open(p).read()
            if x.count(o) != 1: return b["id"], "BAD: %d times in %s: %r" % (x.count(o), f, o), ""
            open(p, "w").write(x.replace(o, n))
        sh(". /opt/vp/env.sh; gofmt -l . ", repo)
        patch = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        open(s + "/patch.diff", "w").write(patch)
        if not base_lines(repo, patch): return b["id"], "BAD: changes no original line", ""
        t = tests(repo)
        if t: return b["id"], "BAD: " + t, ""
        rc, out = sh("bash %s/demo.sh" % s, repo, 300)
        if rc == 0: return b["id"], "BAD: demo passes with the change", ""
        demo = out
        dst = VERIF + "/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(s, dst)
        rc, out = check(d, b["prop"])
        return b["id"], verdict(rc, out, b["prop"]), tail(demo) + "\n   CHECK: " + tail(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tail(o):
    l = [x for x in o.splitlines() if "draw" not in x and x.strip()]
    m = [x for x in l if "failed after" in x or "Original traceback" in x or "demo_test.go" in x or "panic:" in x or "HUNG" in x]
    return (m or l or [""])[0].strip()[:330]

def verdict(rc, out, prop):
    if rc == 1 and "VIOLATION property=%s " % prop in out: return "caught"
    if rc == 0: return "MISSED"
    return "NO ANSWER rc=%s %s" % (rc, out[-500:])

def kept(i):
    m = json.load(open(VERIF + "/seeded/%s/meta.json" % i))
    d = copy(); repo = d + "/repo"
    try:
        rc, out = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i), repo)
        if rc: return i, "BAD: does not apply " + out, ""
        rc, out = check(d, m["property"])
        return i, verdict(rc, out, m["property"]), tail(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    par = int(os.environ.get("PAR", "3"))
    if sys.argv[1] == "--kept":
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        fn, items = kept, ids
    else:
        exec(open(sys.argv[1]).read())
        want = sys.argv[2:]
        fn, items = one, [b for b in BUGS if not want or b["id"] in want]
    bad = 0
    with ThreadPoolExecutor(par) as ex:
        for i, v, o in ex.map(fn, items):
            print("%-28s %s\n   %s" % (i, v, o), flush=True)
            bad += v != "caught"
    print("%d of %d not caught" % (bad, len(items)))
