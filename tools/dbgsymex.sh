#!/bin/bash
# dbgsymex.sh HARNESS SECS [cbmc args]: counts the loops that symbolic execution unwinds for a harness.
cd /verif
H=$1; S=$2; shift 2
TD=$(python3 -c "import sys; sys.path.insert(0,'/verif'); import check; print(check.TARGET)")
G=$(find $TD/kani -name "*$H*.out" -printf '%T@ %p\n' | sort -n | tail -1 | cut -d' ' -f2)
U=$(python3 -c "import sys; sys.path.insert(0,'/verif'); import check; print(check.harness_source('$H'))")
~/.kani/kani-0.68.0/bin/cbmc $G --unwind $U --unwinding-assertions --slice-formula --no-standard-checks --object-bits 16 --verbosity 8 "$@" > /tmp/symex.log 2>&1 & P=$!
sleep $S; kill $P 2>/dev/null
grep -E "^(Unwinding|Not unwinding)" /tmp/symex.log | sed -E 's/iteration [0-9]+.*(file [^ ]*).*(function [^ ]*).*/\1 \2/' | sort | uniq -c | sort -rn | head -25
tail -3 /tmp/symex.log
