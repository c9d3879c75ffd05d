#!/usr/bin/env python3
"""Developer helper: run.py HARNESS.cpp [ENTRY...] [-- engine options]: explores the entries and prints a summary."""
import sys, os, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import symlib
a = sys.argv[1:]; opts = []
if "--" in a: i = a.index("--"); opts = a[i+1:]; a = a[:i]
src = os.path.abspath(a[0]); t = time.time(); eng = symlib.engine(); m = symlib.module(src); print("build %.1fs" % (time.time() - t))
for e in a[1:] or symlib.entries(src):
    out = "/tmp/run_%s.json" % e
    subprocess.run(["timeout", "-k", "5", os.environ.get("T", "120"), eng, m, "--entry", e, "--out", out] + opts)
    j = json.load(open(out))
    print(e, "incomplete:", j["incomplete"], "reached:", j["reached"])
    for x in j["errors"][:6]:
        print("  ERROR", x["kind"], x["msg"], x["loc"]); print("     ", " | ".join(x["trace"][:8]) if isinstance(x["trace"], list) else x["trace"]); print("     ", x["vals"][:30])
