#!/bin/bash
# mkbug.sh ID PROPERTY NEEDS BREAKS : turns the uncommitted change in /repo into /verif/seeded/ID (demo.rs must be there already)
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ]
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
P
cp /verif/tools/demo/demo.sh $d/demo.sh; chmod +x $d/demo.sh
cp /tmp/kit.txz $d/kit.txz
