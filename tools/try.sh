#!/bin/bash
# tools/try.sh GROUP SPEC: run one scenario group and validate the whole trace, printing disagreements.
cd /verif; mkdir -p work
f=/verif/work/try_$1.ndjson
timeout ${T:-300} harness/target/release/harness $1 $f $3 || echo "harness status $?"
wc -l $f
cd spec; TRACE=$f timeout 600 java -XX:+UseSerialGC -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir /verif/work/md_try_$1 -noTE -nowarning -config $2.cfg $2.tla > /verif/work/try_$1.out 2>&1
grep -c VIOL /verif/work/try_$1.out; grep -E "Error|states gen" /verif/work/try_$1.out | head -5
