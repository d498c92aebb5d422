#!/bin/bash
# Nothing has to be built: the specification is checked by TLC directly and the harness is Python. This makes sure that the tools work.
set -e
cd "$(dirname "$0")"
export PYTHONPATH=/repo/databind/src PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import databind.json"
cd spec; java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY SessionTrace.tla >/dev/null
