#!/bin/bash
# apply all refactoring batches to a scratch copy and report contract differences
set -e
D=/tmp/rf; rm -rf $D; cp -a /repo $D; rm -rf $D/target $D/.git
for f in ${@:-/verif/dev/refactors/r*.py}; do python3 /verif/dev/apply.py $f $D; done
mkdir -p /tmp/rfc; for d in driver target; do [ -e /tmp/rfc/$d ] || cp -a /verif/.cache/$d /tmp/rfc/$d; done
VERIF_REPO=$D VERIF_CACHE=/tmp/rfc python3 /verif/sa/contract.py diff | cut -c1-300
