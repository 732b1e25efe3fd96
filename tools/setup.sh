#!/bin/bash
# builds the compiler driver and warms the dependency metadata
set -e
cd "$(dirname "$0")/.."
mkdir -p .build
bash tools/dump.sh "$PWD/.build/setup.json"
