#!/bin/bash
# mut.sh PROP file 'sed-expr' [file sed ...]: run one check against a mutated copy of /repo
P=$1; shift
M=$(mktemp -d /tmp/vfmut.XXXXXX)
(cd /repo && git archive HEAD | tar x -C $M); cp /repo/Cargo.lock $M/ 2>/dev/null; cp /repo/pqcrypto/Cargo.lock $M/pqcrypto/ 2>/dev/null
while [ $# -gt 1 ]; do
 cp $M/$1 $M/$1.orig; sed -i -E "$2" $M/$1; diff $M/$1.orig $M/$1 && echo "NO CHANGE"; rm $M/$1.orig; shift 2; done
cd /verif; VF_REPO=$M timeout 900 ./check $P; echo "exit $?"
rm -rf "$M"
