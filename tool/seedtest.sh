#!/bin/bash
# seedtest.sh ID [CHECK...]: does the planted bug count, and which checks catch it?
# (works on /repo and undoes the patch afterwards)
id=$1; shift; s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty repo; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
git apply --check $s/patch.diff || exit 1
if [ -z "$NOBASE" ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1; timeout 300 bash $s/demo.sh >/tmp/sd0.log 2>&1; echo "demo on base: $? (want 0)"; fi
git apply $s/patch.diff
echo "checks: "; for c in $prop "$@"; do LDT_EVIDENCE=/tmp/sev python3 /verif/check.py $c >/tmp/sc.log 2>&1; echo " $c exit $?: $(grep -m3 '^src\|^include\|^Rpack\|BROKEN' /tmp/sc.log | cut -c1-220)"; done
[ -n "$CHECKONLY" ] && exit 0
bash /verif/tool/rt.sh
timeout 300 bash $s/demo.sh >/tmp/sd1.log 2>&1; echo "demo with bug: $? (want nonzero)"; tail -3 /tmp/sd1.log | cut -c1-300
