#!/usr/bin/env python3
"""Runs the checks against machine-made mutants of /repo: mutate.py OUT.jsonl [fraction] [regex of files]
(development tool, used by no check). PAR=n workers, SEED, MUTS=file of mutants instead."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

MAP = [("format/flv/flvio/amf", "C04 C05 C06 C01"), ("format/flv/", "C01 C02 C03 C07 C09"),
       ("format/rtmp/handshake", "C10 C11 C12 C31"), ("format/rtmp/url", "C11 C29"), ("format/rtmp/client", "C11 C29 C07 C31 C32 C33"),
       ("format/rtmp/server", "C11 C29 C07 C12 C28 C27 C31 C32 C33"), ("format/rtmp/wraprw", "C07 C10 C29 C11 C32 C33"),
       ("format/rtmp/", "C07 C08 C09 C11 C12 C10 C28 C29 C27 C31 C32 C33"),
       ("codec/h264", "C13 C14 C15 C23 C19 C28"), ("codec/aac", "C16 C19"), ("utils/bits/pio", "C18 C20"),
       ("utils/bits", "C17 C14"), ("utils/util", "C18 C30 C07"), ("format/mp4/mp4io", "C20 C22 C21 C19"), ("format/mp4/", "C19 C21 C22"),
       ("format/rtsp/sdp", "C24 C25 C23"), ("format/rtsp/", "C23 C25 C26 C29 C33 C31"), ("cmd/avtool/pubsub", "C27"),
       ("cmd/avtool/", "C28 C27"), ("format/format.go", "C29 C28 C32 C31 C33"), ("av/pktop", "C30 C28")]

def checks(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
    return []

def worker(q, out, lock, n):
    d = plant.copy(); repo = d + "/repo"
    cj = d + "/verif/harness/checks.json"
    c = json.load(open(cj))
    for v in c.values(): v.update(shards=2, shrink=0)
    json.dump(c, open(cj, "w"))
    k = 0
    env = dict(VT_SCALE="1", VT_TMO="150", GOCACHE=d + "/gocache", GOMAXPROCS="2", VERIF_SEED="1")
    pre = ". /opt/vp/env.sh; export GOCACHE=%s; " % env["GOCACHE"]
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            if k % 60 == 0:
                shutil.rmtree(env["GOCACHE"], ignore_errors=True)
                subprocess.run(["cp", "-a", "/tmp/mut/gocache", env["GOCACHE"]])
            k += 1
            p = os.path.join(repo, m["file"])
            src = open(p, "rb").read()
            open(p, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
            try:
                t0 = time.time()
                rc, o = plant.sh(pre + "go build ./... && go test -vet=off -run . ./format/flv/flvio ./format/rtsp/sdp ./utils/bits ./utils/bits/pio", repo, 120)
                if rc:
                    m["result"] = "build" if "FAIL" not in o or "[build failed]" in o else "tests"
                else:
                    m["result"] = "SURVIVED"
                    for c in checks(m["file"]):
                        rc, o = plant.sh("python3 %s/verif/bin/check.py %s quick" % (d, c), d, 700, env)
                        if rc:
                            m["result"] = c if rc == 1 else "NOANSWER %s %s" % (c, o[-300:])
                            break
                m["took"] = round(time.time() - t0, 1)
            finally:
                open(p, "wb").write(src)
            with lock:
                out.write(json.dumps(m) + "\n"); out.flush()
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    outf = sys.argv[1]; frac = float(sys.argv[2]) if len(sys.argv) > 2 else 1
    rx = sys.argv[3] if len(sys.argv) > 3 else "."
    files = subprocess.run("cd /repo && git ls-files '*.go' | grep -v _test.go | grep -v /gen/", shell=True, capture_output=True, text=True).stdout.split()
    files = [f for f in files if re.search(rx, f) and checks(f)]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            j = json.loads(l); done.add((j["file"], j["start"], j["end"], j["new"]))
    ms = []
    if os.environ.get("MUTS"):
        ms = [json.loads(l) for l in open(os.environ["MUTS"])]
    else:
        rnd = random.Random(int(os.environ.get("SEED", "1")))
        for f in files:
            o = subprocess.run(["/tmp/mut/mutate", f], cwd="/repo", capture_output=True, text=True).stdout
            l = [json.loads(x) for x in o.splitlines()]
            fr = frac * (0.15 if f.endswith("atoms.go") else 1)
            ms += [m for m in l if rnd.random() < fr]
        rnd.shuffle(ms)
    ms = [m for m in ms if (m["file"], m["start"], m["end"], m["new"]) not in done]
    print(len(ms), "mutants")
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock(); out = open(outf, "a")
    ts = [threading.Thread(target=worker, args=(q, out, lock, i)) for i in range(int(os.environ.get("PAR", "4")))]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == "__main__": main()
