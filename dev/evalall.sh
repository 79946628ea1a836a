#!/bin/bash
# evalall.sh: every refactoring set must be quiet, every seed must fire.
# Works from a frozen copy, so that /verif can be edited meanwhile.
rm -rf /tmp/evv; mkdir /tmp/evv; cp -a /verif/sa /verif/dev /verif/driver /verif/seeded /verif/check.py /verif/*.json /verif/properties.jsonl /tmp/evv/
cd /tmp/evv; export RF=/tmp/evrf RFC=/tmp/evrfc
for r in dev/refactors/*.py; do echo "$r $(dev/try.sh $r $1 2>&1 | grep -v '^ *note' | cut -c1-400 | head -${2:-4})"; done
for s in seeded/*/patch.diff; do echo "$s $(dev/try.sh $s | head -1 | cut -c1-150)"; done
