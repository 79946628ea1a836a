#!/bin/bash
# try.sh <edits.py|patch.diff> [-v]: apply to a scratch copy, run all checks
# (scratch copy $RF, analysis cache $RFC)
V=$(cd $(dirname $0)/..; pwd); D=${RF:-/tmp/rf}; C=${RFC:-/tmp/rfc}
case $D in /tmp/?*) rm -rf "$D";; *) exit 9;; esac
mkdir $D; (cd /repo; tar c --exclude=./target --exclude=./.git .) | tar x -C $D
P=$(realpath $1)
case $P in *.diff) (cd $D && patch -s -p1 < $P) || exit 9;; *) python3 $V/dev/apply.py $P $D || exit 9;; esac
mkdir -p $C; for d in driver target; do [ -e $C/$d ] || cp -a /verif/.cache/$d $C/$d; done
VERIF_REPO=$D VERIF_CACHE=$C python3 $V/dev/runall.py $2
