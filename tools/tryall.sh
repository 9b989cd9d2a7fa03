#!/bin/bash
# tools/tryall.sh SPEC GROUP...
s=$1; shift
for g in "$@"; do (/verif/tools/try.sh $g $s > /verif/work/o_$g 2>&1) & done; wait
for g in "$@"; do echo "== $g: $(tr '\n' ' ' < /verif/work/o_$g | sed 's/"ops".*}//')"; done
