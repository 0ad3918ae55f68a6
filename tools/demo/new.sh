#!/bin/bash
# new.sh <id> <property> <np> <needs> <breaks>: take the uncommitted change in /tmp/seedwork as patch, demo.cpp from stdin
d=${V:-/verif}/seeded/$1; mkdir -p $d; git -C /tmp/seedwork diff > $d/patch.diff; git -C /tmp/seedwork checkout -q -- .
sed "s/@NP@/$3/" ${V:-/verif}/tools/demo/demo.sh > $d/demo.sh; chmod +x $d/demo.sh; cat > $d/demo.cpp
python3 - "$@" <<'P'
import json,sys,os
json.dump({'property':sys.argv[2],'needs':sys.argv[4],'what_it_breaks':sys.argv[5]},open('%s/seeded/%s/meta.json'%(os.environ.get("V","/verif"),sys.argv[1]),'w'),indent=1)
P
wc -l $d/patch.diff
