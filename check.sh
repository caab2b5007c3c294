#!/bin/bash
# usage: check.sh <property>   (VERIF_TIER, VERIF_SEED from the environment)
# Rebuilds the verifier from /verif/govc and checks /repo's current tree.
cd /verif || exit 2
. /verif/env.sh
./setup.sh || exit 2
exec /verif/bin/govc check "$1"
