#!/bin/bash
# run_check.sh ID: builds the engine and decides property ID on /repo's working tree.
cd "$(dirname "$0")"
export VERIF_DIR=$PWD
./build.sh || { echo "engine does not build"; exit 2; }
exec ./bin/vengine run "$1"
