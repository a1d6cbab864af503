#!/bin/sh
# syntax check of the specifications: sany.sh [MODULE...]
cd "$(dirname "$0")/spec" || exit 2
[ $# -eq 0 ] && set -- *.tla
for m in "$@"; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "${m%.tla}.tla" > /tmp/sany.out 2>&1
    grep -qE 'rror|Could not|xception' /tmp/sany.out && { echo "== $m"; cat /tmp/sany.out; }
done
exit 0
