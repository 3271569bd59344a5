#!/usr/bin/env python3
"""mkbug.py ID PROPERTY SPEC.json -- writes seeded/ID/patch.diff and meta.json.
SPEC: {"edits": [[file, old, new], ...], "needs": ..., "what_it_breaks": ...}
Edits are applied to a scratch copy of the files, /repo is not touched."""
import json, os, subprocess, sys, tempfile
bid, prop, spec = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3]))
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", bid)
os.makedirs(root, exist_ok=True)
files = {}
for f, old, new in spec["edits"]:
    s = files.get(f) or open("/repo/" + f).read()
    if s.count(old) != 1:
        sys.exit(f"{f}: {s.count(old)} matches for {old!r}")
    files[f] = s.replace(old, new)
patch = ""
with tempfile.TemporaryDirectory() as t:
    for f, s in files.items():
        n = os.path.join(t, "new"); open(n, "w").write(s)
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "/repo/" + f, n], capture_output=True, text=True)
        body = r.stdout[r.stdout.index("@@"):]
        patch += f"diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n{body}"
open(os.path.join(root, "patch.diff"), "w").write(patch)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(os.path.join(root, "meta.json"), "w"), indent=1)
subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(root, "patch.diff")], check=True)
print("ok", bid)
