#!/bin/bash
# builds nothing of its own: the specifications are read by TLC, the drivers by Python; makes sure both start
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE/spec" || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Graph.tla > /dev/null || exit 1
[ -f /opt/vp/lib/env.sh ] && . /opt/vp/lib/env.sh
${PY:-/opt/venv/bin/python} -c "import numpy, pandas, networkx" || exit 1
mkdir -p "$HERE/evidence" "$HERE/replay"
exit 0
