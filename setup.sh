#!/bin/bash
# nothing to compile: parse every TLA+ module once so that a broken spec is noticed here
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence ../replay
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rc=1; }
done
rm -f /tmp/sany.$$
exit $rc
