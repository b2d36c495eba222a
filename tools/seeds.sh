#!/bin/bash
# run one property with a range of seeds: seeds.sh C01 1 10
mkdir -p /tmp/seeds
for s in $(seq $2 $3); do
  rm -f /tmp/seeds/$1-$s.txt /verif/work/replay/$1.txt
  VERIF_SEED=$s timeout 800 /verif/check.sh $1 >/tmp/seeds/$1-$s.out 2>&1
  echo "$1 seed $s rc=$? $(tail -1 /tmp/seeds/$1-$s.out | cut -c1-150)"
  cp /verif/work/replay/$1.txt /tmp/seeds/$1-$s.txt 2>/dev/null
done
