#!/bin/bash
# Verifies that the tools the checks need are present and that the specifications parse. Builds nothing that a check
# relies on: every check builds its own harness from /repo's working tree.
set -e
cd "$(dirname "$0")/../spec"
command -v clang++ >/dev/null
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp ./*.tla "$T"
cd "$T"
for m in *.tla; do
	java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$m.log" 2>&1 || { cat "$m.log"; exit 1; }
done
echo "setup ok"
