#!/bin/bash
# builds the framework (both variants) and tests the exploration engine
set -e
cd "$(dirname "$0")"
./build.sh plain
./build.sh race
./build.sh ts
./build.sh tsgen
./.build/verifmc-plain -selftest
