#!/bin/bash
# Nothing has to be built ahead: every check rebuilds what it needs. Parse the specifications once, as a self test.
cd "$(dirname "$0")/.." || exit 2
test -f /opt/veriftools/tla/tla2tools.jar && python3 -c 'import json; json.load(open("MANIFEST.json"))'
