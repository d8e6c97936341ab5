#!/bin/sh
# Nothing to build: specifications and drivers run from source.  This only
# makes sure that the tools are there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for f in *Trace.tla *MC*.tla; do
    java -cp $JARS tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p ../evidence
exit 0
