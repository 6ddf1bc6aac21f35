#!/bin/bash
# Nothing to build: specifications are interpreted by TLC, the code under test is Python.
# Parse every specification so that a broken one fails here.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out .work
/opt/venv/bin/python -c 'import numpy, skimage, networkx, numba'
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
