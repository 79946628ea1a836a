#!/bin/bash
# labdiff.sh NAME SUBSTR: contract differences of a tree stored by lab.py
VERIF_FACTS=/tmp/lab/$1 python3 /verif/sa/contract.py diff "$2"
