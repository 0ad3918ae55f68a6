#!/bin/bash
# try.sh <seeded id>: confirm a planted bug in a scratch copy of /repo: demo passes without, tests pass and demo fails with the patch
id=$1; d=/verif/seeded/$id; s=/tmp/try_$id; rm -rf "$s"; cp -a /repo "$s"; cd "$s" || exit 2
git apply --check $d/patch.diff || { echo "patch does not apply"; exit 2; }
rm -rf "$s"
cd /repo && bash $d/demo.sh > /tmp/demo_$id.0 2>&1 && echo "$id: demo ok on the unchanged tree" || { echo "$id: DEMO FAILS on the unchanged tree"; tail -5 /tmp/demo_$id.0; }
git apply $d/patch.diff && bash /opt/vp/build.sh > /tmp/b.log 2>&1 || echo "BUILD FAILED"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1; python3 -c "
import json;t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(t['passed']);print('missing tests:',len(m),list(m)[:3])"; fi
bash $d/demo.sh > /tmp/demo_$id.1 2>&1 && echo "$id: DEMO PASSES WITH THE BUG" || { echo "$id: demo fails with the bug, as it should"; tail -2 /tmp/demo_$id.1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif && ./check.sh $p quick 2>&1 | tail -4; echo "check rc=${PIPESTATUS[0]}"
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh > /tmp/b.log 2>&1
