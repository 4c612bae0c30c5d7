#!/bin/bash
# trybug.sh ID [notest] [nocheck]: confirm a planted change: builds, passes the stable tests, demo passes without
# and fails with it, and which of the checks report it (the property's own, or those named in CHECKS).
# Works on a scratch copy of /repo.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
s=$here/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
. /opt/vp/env.sh
w=$(mktemp -d /tmp/sb-XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
cp -a "$s" "$w/demo"; rm -f "$w/demo"/patch.diff "$w/demo/meta.json"
git -C "$w/repo" checkout -q -- . 
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/clean.out" 2>&1); c=$?
[ $c = 0 ] || { echo "$id: demo fails on the unchanged tree ($c)"; tail -5 "$w/clean.out"; }
git -C "$w/repo" apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd "$w/repo" && go build ./...) || { echo "$id: does not build"; exit 1; }
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/bug.out" 2>&1); b=$?
[ $b != 0 ] || echo "$id: demo passes with the change"
echo "$id: demo clean=$c changed=$b ($(grep BROKEN "$w/bug.out" | head -1))"
case " $* " in *" notest "*) ;; *)
  sed "s#/repo#$w/repo#g; s#^\. /opt/vp/env.sh#. /opt/vp/env.sh#" /opt/vp/test.sh >"$w/test.sh"
  bash "$w/test.sh" "$w/out.json" >"$w/test.out" 2>&1
  python3 - "$w/out.json" <<'P'
import json,sys
st=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open(sys.argv[1]))
m=sorted(st-set(o["passed"]))
print("tests:", "all %d stable pass"%len(st) if not m else "NOT PASSING %d: %s"%(len(m),m[:6]))
P
  git -C "$w/repo" status --short | head -3
;; esac
case " $* " in *" nocheck "*) ;; *)
  for k in ${CHECKS:-$prop}; do
    (cd "$here" && VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO="$w/repo" timeout 900 ./check.sh $k >"$w/check.out" 2>&1); r=$?
    echo "$id: check $k exit $r: $(grep -m1 "^VIOLATION property=$k" "$w/check.out") $(grep -m1 -A1 "^VIOLATION property=$k" "$w/check.out" | tail -1 | cut -c1-200)"
  done
;; esac
