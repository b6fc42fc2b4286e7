#!/bin/bash
# debugging aid: runm.sh file entry...: harness without the block-level specification
f=$1; shift
for e in "$@"; do echo "== $e"; PP=${PP--c} timeout ${T-100} /verif/sa/run.sh mon,none/hook,${PRE:+$PRE,}$f $e 2>&1 | cut -c1-${W-500} | head -${N-20}; done
