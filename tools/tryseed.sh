#!/usr/bin/env bash
# tryseed.sh <seed id> [check id ...]   (development helper, used by no check)
# Validates one planted bug in a private mount namespace: copies of /repo, /opt/vp and /verif are bound
# over the originals, so that nothing outside the scratch folder changes and several can run at once.
set -u
ID=$1; shift
S=/verif/seeded/$ID
CHECKS=("$@")
[ ${#CHECKS[@]} -eq 0 ] && CHECKS=("$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")")
W=$(mktemp -d /tmp/seed-XXXXXX)
trap 'rm -rf -- "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /opt/vp "$W/vp"
mkdir "$W/verif"; (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence . ) | tar xf - -C "$W/verif"
mkdir -p "$W/demo"; cp -a "$S/." "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cp "$S/patch.diff" "$W/patch.diff"
export W
unshare -Urm bash -s -- "$ID" "${CHECKS[@]}" <<'IN'
ID=$1; shift
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/verif /verif
cd /repo
bash $W/demo/demo.sh >$W/d0 2>&1; d0=$?
git -C /repo apply $W/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if ! bash /opt/vp/build.sh >$W/b 2>&1; then echo "$ID: build FAILS"; grep -E '^error' -A5 $W/b | head -20; exit 1; fi
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('$W/t.json'))
ok=None
for k in ('passed','pass'):
    if k in r: ok=set(r[k])
print('format '+str(list(r))) if ok is None else print([t for t in b if t not in ok][:3])
P
)
cd /repo; bash $W/demo/demo.sh >$W/d1 2>&1; d1=$?
echo "$ID: demo clean=$d0 patched=$d1 tests-missing=$miss :: $(tail -1 $W/d1 | cut -c1-200)"
[ $d0 -ne 0 ] && tail -5 $W/d0
for c in "$@"; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/run.sh $c quick >$W/c.$c 2>&1; rc=$?
  echo "$ID: check $c rc=$rc $(( $(date +%s)-s ))s :: $(grep -m1 VIOLATION $W/c.$c | cut -c1-160)"
done
IN
