#!/usr/bin/env python3
"""replay.py FILE: re-run the call of a replay file on the current /repo and print what the contract demands."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
for k in ("property", "function", "args", "kwargs", "expected", "got", "why", "failed_obligations"): print(k, "=", r.get(k))
if r.get("pickle"):
    code = """
import sys, pickle, base64; sys.path.insert(0, %r); import rt
a, k = pickle.loads(base64.b64decode(%r)); f = rt.resolve(%r)
try: print('now returns', rt.short(f(*a, **k)))
except Exception as e: print('now raises', repr(e))
""" % (os.path.join(HERE, "lib"), r["pickle"], r["function"])
    subprocess.run(["/opt/venv/bin/python", "-c", code])
