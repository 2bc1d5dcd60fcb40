#!/bin/bash
# tryseed.sh ID [CHECK...]: confirms a planted bug in a scratch copy, then runs checks against it in /repo.
id="$1"; shift
s="$(mktemp -d /tmp/seed.XXXXXX)" || exit 3
git clone -q /repo "$s/repo" || exit 3
cd "$s/repo" || exit 3
bash /verif/seeded/$id/demo.sh > "$s/a" 2>&1; a=$?
git apply /verif/seeded/$id/patch.diff || echo "PATCH DOES NOT APPLY"
bash /verif/seeded/$id/demo.sh > "$s/b" 2>&1; b=$?
echo "demo clean=$a patched=$b :: $(tail -1 "$s/b")"
cd /
[ -n "$s" ] && [ -d "$s" ] && rm -r -- "$s"
if [ $# -gt 0 ]; then
  git -C /repo apply /verif/seeded/$id/patch.diff
  for c in "$@"; do (cd /verif && python3 tools/run_check.py $c 2>&1 | tail -2; ); done
  git -C /repo checkout -- .
fi
