#!/bin/sh
# Nothing has to be compiled: TLC interprets the specifications, the drivers are Python.
# This only makes sure that everything the checks use is here.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
python3 -m json.tool MANIFEST.json >/dev/null
python3 -m json.tool known_findings.json >/dev/null
echo setup ok
