#!/bin/bash
# Nothing is built: this checks that the tools the checks use are there.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pcollections"
mkdir -p evidence
echo "setup ok"
