#!/bin/bash
# Nothing to build: the specification is interpreted by TLC, the drivers by Python.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence/replay
for m in spec/MC_*.tla spec/Trace_*.tla; do
  java -DTLA-Library=spec -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
/opt/venv/bin/python -c "import numpy, tensorflow" 2>/dev/null
