#!/bin/bash
# usage: check.sh ID [quick|thorough]   -- decides one property on /repo's current tree
. /opt/vp/env.sh
cd /verif || exit 0
bash /verif/setup.sh >/tmp/gosym-build.$$ 2>&1 || { echo "INCONCLUSIVE property=$1 the engine does not build"; tail -5 /tmp/gosym-build.$$; }
rm -f "/tmp/gosym-build.$$"
exec /verif/bin/gosym check "$1" -tier "${2:-${VERIF_TIER:-quick}}"
