#!/bin/bash
cd /verif/govc || exit 2
. /verif/env.sh
mkdir -p /verif/bin
(flock 9; go build -o /verif/bin/govc.new . && mv /verif/bin/govc.new /verif/bin/govc) 9>/verif/bin/.lock
