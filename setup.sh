#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the code is
# imported from /repo.  Verifies the toolchain and parses every specification.
set -e
cd "$(dirname "$0")/spec"
java -version >/dev/null 2>&1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
/bin/rm -f /tmp/sany.$$
/opt/venv/bin/python -c "import numpy, scipy, pandas, matplotlib"
echo "setup ok"
