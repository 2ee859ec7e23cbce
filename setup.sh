#!/bin/sh
# Nothing to build: the harness is plain Python and TLC runs the .tla sources
# directly.  Check that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
python3 -c 'import sys; assert sys.version_info >= (3, 8)'
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
echo setup ok
