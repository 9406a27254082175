#!/bin/bash
# Nothing to build: check that the specifications parse and the code imports.
set -e
cd "$(dirname "$0")/.."
chmod +x harness/check.py
d=$(mktemp -d)
cp spec/*.tla "$d"/
cd "$d"
CP=/opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for f in *.tla; do
  if ! java -cp "$CP" tla2sany.SANY "$f" > out.txt 2>&1; then
    cat out.txt; exit 1
  fi
done
cd /
rm -rf "$d"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -B -c 'import citrine, jsonld'
echo setup done
