#!/bin/bash
# all (or the given) quick checks, one line each
cd /verif
for i in ${@:-$(seq -f C%02g 1 33)}; do
  timeout 900 ./check.py $i --tier ${TIER:-quick} 2>&1 | grep -v "^ *$" | tail -3
done
