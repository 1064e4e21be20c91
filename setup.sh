#!/bin/bash
# Nothing to install: checks that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d); trap 'rm -rf -- "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" spec/F64.java
for m in spec/*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=spec \
    -Djava.io.tmpdir="$d" tla2sany.SANY "$m" > "$d/out" || { cat "$d/out"; exit 1; }
done
/opt/venv/bin/python -c "import numpy, scipy, pandas, sklearn"
echo ok
