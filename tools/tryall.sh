#!/bin/bash
# tryall.sh PROPS PATCH...: runs checks on scratch copies of /repo with each patch applied
props="$1"; shift
for p in "$@"; do
  n=$(basename $p .patch); n2=$(basename $(dirname $p))-$n
  d=/tmp/try/$n2; mkdir -p /tmp/try; rm -rf $d; git clone -q -s /repo $d
  if ! git -C $d apply $(realpath $p); then echo "$n2: does not apply"; continue; fi
  echo "== $n2: $(cd /verif; VP_REPO=$d timeout 600 python3 sa/check.py $props 2>&1 | grep -v '^OK' | cut -c1-260 )"
  rm -rf $d
done
