#!/bin/bash
# Development only. tools/mkplant.sh ID PROPERTY : takes the diff of the scratch
# working tree $PLANT_SRC (default /tmp/psrc) into seeded/ID/patch.diff.
W=${PLANT_SRC:-/tmp/psrc}; D=/verif/seeded/$1; mkdir -p $D
git -C $W diff > $D/patch.diff; git -C $W checkout -q -- .
wc -l $D/patch.diff
