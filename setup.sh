#!/bin/bash
# nothing to build: the specifications are interpreted by TLC, the code is Python
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
