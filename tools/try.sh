#!/bin/bash
# tools/try.sh PATCH ID...  runs checks against a scratch copy of /repo with PATCH applied.
# PATCH may also be a sed expression "FILE::EXPR".
set -u
p="$1"; shift; [ -f "$p" ] && p=$(realpath "$p")
d=$(mktemp -d /tmp/try.XXXXXX)
mkdir "$d/t"
cp -a /repo/ramannoodle "$d/t/"
if [ -f "$p" ]; then (cd "$d/t" && git apply --unsafe-paths --directory="" "$p" 2>/dev/null || patch -p1 -s < "$p") || { echo "patch failed"; rm -rf "$d"; exit 3; }
else f="${p%%::*}"; e="${p#*::}"; cp "$d/t/$f" "$d/orig"; sed -i -E "$e" "$d/t/$f"; cmp -s "$d/t/$f" "$d/orig" && { echo "NO CHANGE"; rm -rf "$d"; exit 3; }; diff "$d/orig" "$d/t/$f" | head -${SHOW:-6}
fi
rc=0
for id in "$@"; do SIM_TREE="$d/t" /verif/bin/check $id ${TIER:-quick} 2>&1 | tail -${TAIL:-4}; done
rm -rf "$d"
