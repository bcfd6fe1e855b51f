#!/bin/bash
# catch.sh [glob] [repo-copy]: apply each planted change to a scratch copy of /repo, run the check of its property on it
# and append one line per change to tools/catch.log (an older line of the same change is replaced)
here=$(cd "$(dirname "$0")/.." && pwd)
rc0=${2:-/tmp/vcatch}
if [ ! -d "$rc0/.git" ]; then git clone -q /repo "$rc0" || exit 2; fi
git -C "$rc0" fetch -q /repo HEAD && git -C "$rc0" checkout -q -f FETCH_HEAD
for d in "$here"/seeded/${1:-*}/; do
  id=$(basename "$d")
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$rc0" apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(cd "$here" && VERIF_REPO=$rc0 VERIF_WORK=$rc0.work timeout 900 ./check.py $p 2>&1); rc=$?; e=$(date +%s)
  git -C "$rc0" checkout -q -f .
  line="$id $p exit $rc $((e-s))s $(echo "$out" | grep '^VIOLATION' | head -2 | tr '\n' ' ')"
  echo "$line"
  touch "$here/tools/catch.log"; grep -v "^$id " "$here/tools/catch.log" > "$rc0.log"; echo "$line" >> "$rc0.log"; sort "$rc0.log" > "$here/tools/catch.log"; rm -f "$rc0.log"
done
