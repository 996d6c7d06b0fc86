#!/bin/bash
# Compiles the TLC accelerator and checks that the tools the checks need are there.
set -eu
cd "$(dirname "$0")/.."
mkdir -p work/classes evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d work/classes spec/java/*.java
command -v gcc g++ make java python3 >/dev/null
echo setup done
