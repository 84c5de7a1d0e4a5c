#!/bin/bash
# Checks build everything they need from /repo each time; this only verifies that the tools are there.
set -e
. /opt/vp/env.sh
command -v java javac g++ python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -d "$PREFIX/include/crocoddyl"
cd "$(dirname "$0")/.."
d=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" spec/java/*.java
rm -rf "${d:?}"
echo "setup ok"
