#!/bin/bash
# Checks that the tools are there and that the specification parses; every check builds what it needs itself.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
D=$(mktemp -d /tmp/cmsetup-XXXXXX); trap 'rm -rf "$D"' EXIT
bash "$V/lib/build.sh" "$D/b"
cp "$V"/spec/*.tla "$D"
cd "$D"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla > sany.txt 2>&1 || { cat sany.txt; exit 1; }
echo ready
