#!/bin/bash
# tools/bugs.sh ID...: runs tools/bug.sh for several planted bugs, PAR (2) at a time; logs in /tmp/bt
mkdir -p /tmp/bt; printf '%s\n' "$@" | xargs -P ${PAR:-2} --process-slot-var=SLOT -I{} bash -c 'bash /verif/tools/bug.sh /verif/seeded/{} > /tmp/bt/{}.log 2>&1; echo "== {}"; cat /tmp/bt/{}.log'
