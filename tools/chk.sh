#!/bin/bash
# chk.sh ID [k]: run a check and show its first k violations in short
python3 /verif/run.py $1 > /tmp/chk.out 2>&1; rc=$?
grep -v "^\[ *[0-9.]*\] \(instr\|driver\)" /tmp/chk.out | cut -c1-250 | tail -${3:-3}
[ $rc = 1 ] && grep -q "^VIOLATION" /tmp/chk.out && python3 /verif/tools/sv.py $1 ${2:-2} | cut -c1-300
exit 0
