#!/bin/bash
# tools/seedcheck.sh ID...  confirms planted bugs in scratch copies: the patch applies, the
# demonstration passes without and fails with it, and the repository's stable tests still pass.
set -u
one() {
  s=/verif/seeded/$1; d=$(mktemp -d /tmp/seedck.XXXXXX); out=""
  cp -a /repo "$d/r"; cp -r "$s" "$d/demo"; rm -f "$d"/demo/*.diff "$d/demo/meta.json"
  c=$(cd /repo && git -C "$d/r" checkout -q -- . ; cd "$d/r" && timeout 300 bash "$d/demo/demo.sh" >"$d/clean.log" 2>&1; echo $?)
  git -C "$d/r" apply "$s/patch.diff" || out="PATCH DOES NOT APPLY"
  p=$(cd "$d/r" && timeout 300 bash "$d/demo/demo.sh" >"$d/patched.log" 2>&1; echo $?)
  t=skipped
  if [ "${TESTS:-1}" = 1 ]; then
  (cd "$d/r" && PYTHONPATH="$d/r" PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 test >"$d/test.log" 2>&1)
  t=$(tail -1 "$d/test.log"); fi
  echo "$1: clean=$c patched=$p tests: $t $out"
  [ "$c" = 0 ] || tail -3 "$d/clean.log"; [ "$p" != 0 ] && tail -1 "$d/patched.log"
  grep -a '^FAILED' "$d/test.log" 2>/dev/null | head -5
  rm -rf "$d"
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-6} -I{} bash -c 'one {}'
