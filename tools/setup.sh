#!/bin/bash
# Checks that the tools are here and that every specification module parses.
cd "$(dirname "$0")/.." || exit 1
set -e
mkdir -p evidence
PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import d42, harness.main, harness.gen'
cd spec
for f in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 \
        || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
    if grep -qE "Could not|Fatal|\*\*\* Errors" /tmp/sany.$$; then cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
echo setup ok
