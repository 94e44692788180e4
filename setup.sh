#!/bin/bash
# Builds the TLC operator overrides and parses every specification module.
set -eu
cd "$(dirname "$0")"
T=/opt/veriftools/tla
mkdir -p build
javac -cp $T/tla2tools.jar -d build java/*.java
cd spec
for m in *.tla; do
  java -cp ../build:$T/tla2tools.jar:$T/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup done
