#!/bin/bash
# Checks that the tools are there and that the framework builds; the checks themselves keep nothing between runs
set -e
cd "$(dirname "$0")"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$tmp" java/*.java
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'harness'); import registry; print(len(registry.CHECKS), 'checks')"
