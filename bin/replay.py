#!/usr/bin/env python3
"""Replays a violation: replay.py replay/<id>/replay.json — reruns the saved,
shrunk case (or, for a crash or hang, the same seed) against /repo's tree.
Exit 1: the violation shows again; exit 0: it does not."""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
p = os.path.abspath(sys.argv[1])
info = json.load(open(p)); root = os.path.dirname(p)
meta = check.load_meta()[info["property"]]
scratch = tempfile.mkdtemp(prefix="vt-replay-")
try:
    binary = check.build(meta, scratch)
    extra = []
    if info.get("test"): extra.append("-test.run=^%s$" % info["test"].split("/")[0])
    if info["failfiles"]:
        extra.append("-rapid.failfile=" + os.path.join(root, info["failfiles"][0]))
    extra.append("-rapid.nofailfile")
    r = check.run_shards(binary, scratch, info["property"], info["tier"], [info["rapid_seed"]], info["shards"], extra, 900, 5)[0]
    print(check.summarise(r["log"]) if check.crash_kind(r) else r["log"][-500:])
    sys.exit(1 if check.crash_kind(r) else 0)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
