#!/bin/bash
# Nothing to build: the checks are Python and import the package from /repo's working tree.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 python -c "import mc.geom, numpy; print('ready')"
