#!/bin/bash
# random sessions of all profiles: sweep.sh SEED N
cd "$(dirname "$0")/.."
for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C21 C22 C23 C24 C25}; do
  timeout 600 /opt/venv/bin/python tools/dbgp.py $p $1 $2 3 > /tmp/d_${p}_$1.txt 2>&1
  echo "$(head -1 /tmp/d_${p}_$1.txt| cut -c1-200) $(grep -m1 ^Counter /tmp/d_${p}_$1.txt)"
done
