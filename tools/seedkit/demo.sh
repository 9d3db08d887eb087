#!/bin/bash
# Builds the library from the current directory with the little command
# interpreter in h/ and runs demo.py, which says whether the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
export VT_REPO="$PWD" VT_BUILD="${DEMO_BUILD:-$t/build}" DEMO_TMP="$t/w"
mkdir -p "$t/w"
python3 "$d/h/build.py" driver > "$t/log" 2>&1 || { cat "$t/log"; exit 2; }
cd "$t/w" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d/h/py" timeout 200 python3 "$d/demo.py"
