#!/bin/bash
# tryseed.sh ID [check...]: proves a planted bug in a scratch copy of /repo and
# runs the check of its property (or the given ones) against the copy.
. /tmp/env.sh 2>/dev/null || { export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"; }
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=${SEED:-/verif/seeded}/$id
W=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf -- "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/demo"; for f in "$S"/*; do case $f in *.diff|*/meta.json) ;; *) cp -a "$f" "$W/demo/";; esac; done
cd "$W/repo" || exit 1
bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; c=$?
git apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
go test -json -vet=off -count=1 ./... > "$W/t.log" 2>/dev/null
t=$(python3 - "$W/t.log" <<'P'
import json,sys
ok=0;bad=[]
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test'):
        if d['Action']=='pass': ok+=1
        if d['Action']=='fail': bad.append(d['Test'])
print(ok,bad)
P
)
bash "$W/demo/demo.sh" > "$W/bug.log" 2>&1; b=$?
echo "$id: demo clean=$c bug=$b tests=$t"
if [ $c != 0 ]; then tail -5 "$W/clean.log"; fi
if [ $b = 0 ]; then tail -5 "$W/bug.log"; fi
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in "$@"; do
  VERIF_REPO=$W/repo VERIF_NOEVIDENCE=1 timeout 900 "$V/check.sh" $p > "$W/check.log" 2>&1; r=$?
  echo "   $p exit=$r $(grep -c ^VIOLATION "$W/check.log") violations: $(grep ^VIOLATION "$W/check.log" | head -1 | cut -c1-200)"
  [ $r -gt 1 ] && tail -5 "$W/check.log"
done
