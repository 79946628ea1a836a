#!/bin/bash
# bugdiff.sh BUGS.py ID SUBSTR: show the contract differences of one planted change
D=/tmp/bd; C=/tmp/bdc; mkdir -p $C
rm -rf /tmp/bd; mkdir /tmp/bd; (cd /repo; tar c --exclude=./target --exclude=./.git .) | tar x -C /tmp/bd
python3 - "$1" "$2" <<'P'
import sys
ns={}; exec(open(sys.argv[1]).read(),ns)
for f,o,r in ns["BUGS"][sys.argv[2]]:
    s=open("/tmp/bd/"+f).read(); assert s.count(o)>=1; open("/tmp/bd/"+f,"w").write(s.replace(o,r,1))
P
for x in driver target; do [ -e $C/$x ] || cp -a /verif/.cache/$x $C/$x; done
cd /verif; VERIF_REPO=/tmp/bd VERIF_CACHE=$C python3 sa/contract.py diff $3
