#!/bin/bash
# ndev.sh UNIT ENTRY [count secs seed]: build and run one native search, for development; a failing run is repeated under gdb
export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:log_path=/dev/null
d=$(mktemp -d /tmp/ndev.XXXXXX); out=$(python3 "$(dirname "$0")/nbrun.py" build "$1" "$2" N "$d" 2>&1) || { echo "$out" | tail -30; rm -rf "$d"; exit 1; }
exe=$(echo "$out" | tail -1); : > "$d/v"
"$exe" "$d/v" "${5:-1}" "${3:-20000}" "${4:-20}" > "$d/out"; rc=$?; cat "$d/out"
k=$(sed -n 's/^NB-RUN //p' "$d/out")
[ -n "$k" ] && gdb -batch -ex 'break nb_native_fail' -ex "run $d/v ${5:-1} 1 1 $k" -ex bt ${GDBX:+-x "$GDBX"} "$exe" 2>&1 | grep -v "^\[\|^Using\|^This GDB\|^$" | cut -c1-400 | tail -${LINES_:-40}
rm -rf "$d"; exit $rc
