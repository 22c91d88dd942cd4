#!/bin/bash
# Checks compile what they need themselves; this only shows early that the tools are there.
set -e
cd "$(dirname "$0")/.."
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" specs/java/*.java
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '/repo'); import openscm.core"
echo ready
