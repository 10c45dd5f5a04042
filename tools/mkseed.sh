#!/bin/bash
# mkseed.sh ID  : /verif/seeded/ID has edit.py-like patch.diff, demo.py, meta.json; verify in scratch copy
ID=$1; S=/verif/seeded/$ID
if [ ! -d /tmp/sd ]; then cp -a /repo /tmp/sd; mkdir -p /tmp/sdvp; cp /opt/vp/* /tmp/sdvp/; sed -i 's#/repo#/tmp/sd#g; s#/opt/vp#/tmp/sdvp#g' /tmp/sdvp/*.sh /tmp/sdvp/*.mk /tmp/sdvp/*.py /tmp/sd/_build/makefile; touch /tmp/sd/_build/config.status /tmp/sd/_build/makefile; fi
cd /tmp/sd && git checkout -q -- . && git fetch -q ${NS_REPO:-/repo} HEAD && git reset -q --hard FETCH_HEAD
[ -f $S/dlib.py ] || cp /verif/harness/dlib.py $S/dlib.py
[ -f $S/demo.sh ] || printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $S/demo.sh
bash /tmp/sdvp/build.sh >/tmp/sd.log 2>&1 || { tail /tmp/sd.log; exit 1; }
T=$(date +%s); bash $S/demo.sh; R0=$?; T1=$(( $(date +%s) - T ))
git apply $S/patch.diff || exit 1
bash /tmp/sdvp/build.sh >/tmp/sd.log 2>&1 || { tail /tmp/sd.log; exit 1; }
bash $S/demo.sh; R1=$?
if [ -z "$NOTEST" ]; then bash /tmp/sdvp/test.sh /tmp/sd.json >/tmp/sd.log 2>&1; grep -o '"failed".*' /tmp/sd.json; python3 -c "import json;print(len(json.load(open('/tmp/sd.json'))['passed']),'pass')"; fi
git checkout -q -- .
echo "$ID demo clean=$R0 (${T1}s) patched=$R1"
