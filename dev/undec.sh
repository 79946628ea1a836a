#!/bin/bash
# undec.sh: undecided notes over all refactoring sets (frozen copy), with the differing terms
rm -rf /tmp/evv; mkdir /tmp/evv; cp -a /verif/sa /verif/dev /verif/driver /verif/seeded /verif/check.py /verif/*.json /verif/properties.jsonl /tmp/evv/
cd /tmp/evv; export RF=/tmp/evrf RFC=/tmp/evrfc
for r in dev/refactors/*.py; do echo "== $r $(dev/try.sh $r -v 2>&1 | grep -v '^ *note' | head -1 | cut -c1-300)"
VERIF_REPO=/tmp/evrf VERIF_CACHE=/tmp/evrfc python3 sa/contract.py diff > /tmp/evdiff.$(basename $r .py) 2>&1; grep -c '' /tmp/evdiff.$(basename $r .py); done
