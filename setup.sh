#!/bin/bash
# Nothing is installed: make sure the specifications parse with the installed TLA+ tools.
cd "$(dirname "$0")/spec" || exit 1
for f in *.tla; do
  java -DTLA-Library=. -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/qsv_sany.$$ 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then cat /tmp/qsv_sany.$$; rm -f /tmp/qsv_sany.$$; exit 1; fi
done
rm -f /tmp/qsv_sany.$$
/opt/venv/bin/python -c 'import numpy, numba, scipy, sympy, pandas'
