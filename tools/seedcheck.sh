#!/bin/bash
# tools/seedcheck.sh [-n] DIR...: for each planted change, in a scratch copy of /repo: does the demonstration pass
# without it, does it build, do the baseline tests pass with it, does the demonstration fail with it, and does the
# quick check of its property report it (-n: leave the check out).  Not used by any check.
cd "$(dirname "$0")/.."; n=; [ "$1" = -n ] && { n=1; shift; }
T=$(mktemp -d /tmp/seedcheck.XXXXXX); trap 'rm -rf "$T"' EXIT
V=$PWD  # DIRs are relative to /verif
for d in "$@"; do d=$(cd "$V" && realpath "$d")
  id=$(basename "$d"); S=$(cd "$d" && pwd); W=$T/w; rm -rf "$T/w"; cp -a /repo "$W"; cd "$W"
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -r "$S" "$T/demo"; rm -f "$T"/demo/*.diff "$T"/demo/meta.json
  bash "$T/demo/demo.sh" >"$T/d0" 2>&1; d0=$?
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$T/demo"; continue; }
  rm -rf "$W/_build"; b=ok
  (CC=gcc CXX=g++ cmake -S "$W" -B "$W/_build" -G Ninja --no-warn-unused-cli && ninja -C "$W/_build") >"$T/b" 2>&1 || b=FAIL
  t=$(python3 /opt/vp/run_boost.py "$W/_build" "$T/t.json" >/dev/null 2>&1; python3 - "$T/t.json" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
s=b if isinstance(b,list) else b.get('stable') or b.get('passed') or next(v for v in b.values() if isinstance(v,list))
m=[x for x in s if x not in t['passed']]; print('ok' if not m else 'FAIL:'+','.join(m))
P
)
  bash "$T/demo/demo.sh" >"$T/d1" 2>&1; d1=$?; rm -rf "$T/demo"
  c=-; v=
  if [ -z "$n" ]; then (cd "$V" && ONEX_REPO=$W timeout 900 python3 check.py "$P") >"$T/c" 2>&1; c=$?; v=$(grep -m1 VIOLATION "$T/c"); fi
  echo "$id prop=$P build=$b tests=$t demo=$d0->$d1 ($(tail -1 "$T/d1")) check=$c $v"
done
