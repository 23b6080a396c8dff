#!/bin/bash
# usage: seeds.sh FROM TO ID...: run checks at several seeds, print only failing lines
a=$1; b=$2; shift 2
for i in "$@"; do for s in $(seq $a $b); do
  o=$(VERIF_SEED=$s "$(dirname "$0")/../check" $i 2>&1); rc=$?
  [ $rc -ne 0 ] && { echo "seed $s $i rc=$rc"; echo "$o" | grep -v "^$i/" | cut -c1-${W:-500}; break; }
done; done; echo done
