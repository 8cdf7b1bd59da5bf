#!/bin/sh
# Nothing to build: parse every specification, so that a broken one is known of at once
cd "$(dirname "$0")/spec" || exit 1
for f in *.tla; do
    out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" 2>&1) || { echo "$f: $out"; exit 1; }
done
/opt/venv/bin/python -c "import capstone, numpy" || exit 1
echo "specifications parsed"
