#!/bin/bash
# catch.sh ID[:PROP]...: runs the property's quick check against each planted bug, in a scratch copy of /repo
cd "$(dirname "$0")/.."
for s in "$@"; do i=${s%%:*}; p=${s#*:}
  [ "$p" = "$i" ] && p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/nbcatch.XXXXXX); cp -a /repo/. "$d"/; git -C "$d" apply /verif/seeded/$i/patch.diff || { rm -rf "$d"; continue; }
  s0=$SECONDS; NB_REPO=$d VERIF_TIER=quick timeout 900 python3 tools/nbrun.py check $p > /tmp/catch.$i 2>&1; rc=$?; rm -rf "$d"
  echo "== $i $p rc=$rc $((SECONDS-s0))s"; grep -E "VIOLATION|refuted|violated|undecided|error" /tmp/catch.$i | cut -c1-220 | head -6
done
