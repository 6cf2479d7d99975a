#!/bin/bash
# Builds the host against /repo and parses every specification (offline).
set -e
cd "$(dirname "$0")/.."
python3 tools/tirobuild.py >/dev/null
(cd tools && python3 -c 'import tirobuild; tirobuild.build(name="cpp", sources=("cpp.cpp",))')
cd specs
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup ok
