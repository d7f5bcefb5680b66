#!/bin/bash
# Checks that the tools the checks need are there; every check builds what it needs itself.
set -e
java -version 2>&1 | head -1
cargo --version
python3 --version
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p /verif/evidence /verif/replays
