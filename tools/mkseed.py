#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DEMO_CPP NEEDS BREAKS: stores the working-tree diff of /repo as a planted bug.

The demonstration is compiled with every source of the tree it runs in and its own copy of the
library stand-in, so it depends on nothing but its sibling files."""
import json, os, shutil, subprocess, sys
sid, prop, demo, needs, breaks = sys.argv[1:6]
here = os.path.dirname(os.path.abspath(__file__))
d = os.path.join(here, "..", "seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", os.environ.get("REPO", "/repo"), "diff"])
assert diff.strip(), "no diff"
open(os.path.join(d, "patch.diff"), "wb").write(diff)
shim = os.path.join(d, "shim")
if os.path.isdir(shim): shutil.rmtree(shim)
shutil.copytree(os.path.join(here, "..", "shim"), shim, ignore=shutil.ignore_patterns("__pycache__"))
shutil.copy(os.path.join(here, "..", "harness", "vh.hpp"), shim)
shutil.copy(os.path.join(here, "..", "harness", "hx.hpp"), shim)
if os.path.abspath(demo) != os.path.abspath(os.path.join(d, "demo.cpp")): shutil.copy(demo, os.path.join(d, "demo.cpp"))
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Builds the sources of the current tree with the stand-in library next to this file and runs demo.cpp.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap '[ -n "$t" ] && [ -d "$t" ] && rm -r -- "$t"' EXIT
mkdir "$t/o" "$t/run"
export here repo t
one() {
  o="$t/o/$(echo "$1" | tr '/.' '__').o"
  g++ -std=c++17 -O1 -g0 -w -fopenmp -DNDEBUG -DSHOW_TIMER_INFORMATION -I"$here/shim" -I"$repo/src" -I"$repo" -I/usr/include/eigen3 -c "$1" -o "$o" 2>"$o.log" || true
}
export -f one
{ echo "$here/demo.cpp"; find "$here/shim" -name '*.cpp'; find "$repo/src" -name '*.cpp' -not -path '*/launcher/*'; } | xargs -P "$(nproc)" -I{} bash -c 'one "{}"'
main="$(ls "$t"/o/*demo_cpp.o)" || { cat "$t"/o/*demo_cpp.o.log; exit 3; }
ar rcs "$t/all.a" $(ls "$t"/o/*.o | grep -v demo_cpp.o) || exit 3
g++ -fopenmp "$main" "$t/all.a" -lpthread -o "$t/demo" || exit 3
cd "$t/run" && timeout 120 "$t/demo" "$repo"
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
print("stored", sid)
