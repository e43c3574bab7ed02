#!/usr/bin/env python3
"""plant.py ID PROP FILE < spec: write seeded/ID from a spec on stdin:
sections '--- old', '--- new', '--- needs', '--- breaks', '--- demo' (a Rust program), '--- extern' (crates)."""
import json
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, file = sys.argv[1:4]
sec = {}
cur = None
for line in sys.stdin.read().splitlines(keepends=True):
    m = re.match(r"--- (old|new|needs|breaks|demo|extern|file)\d*\s*(.*)\n", line)
    if m:
        cur = m.group(1)
        if cur == "file":
            file = m.group(2)
            continue
        sec.setdefault(cur, []).append([file, ""])
    else:
        sec[cur][-1][1] += line
d = os.path.join(V, "seeded", i)
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
try:
    for (f, old), (_, new) in zip(sec["old"], sec["new"]):
        p = os.path.join("/repo", f)
        t = open(p).read()
        assert t.count(old) == 1, (t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
open(os.path.join(d, "meta.json"), "w").write(json.dumps(dict(
    property=prop, needs=sec["needs"][0][1].strip().replace("\n", " "),
    what_it_breaks=sec["breaks"][0][1].strip().replace("\n", " ")), indent=1) + "\n")
open(os.path.join(d, "demo.rs"), "w").write(sec["demo"][0][1])
ext = sec["extern"][0][1].split()
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# Links the demonstration against the libraries that the build just made, and runs it in a scratch folder.
here=$(dirname "$(realpath "$0")")
. /opt/vp/env.sh
deps=/opt/vp/target/debug/deps
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
ext=()
for c in """ + " ".join(ext) + """; do
    ext+=(--extern "$c=$(ls -t $deps/lib$c-*.rlib $deps/lib$c-*.so 2>/dev/null | head -1)")
done
rustc --edition 2021 -A warnings -L dependency=$deps "${ext[@]}" "$here/demo.rs" -o "$t/demo" || exit 3
cd "$t" && TMPDIR="$t" timeout 120 ./demo
""")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
