#!/bin/bash
# Nothing outside /verif is needed; this only warms the object cache and fails early if the toolchain is missing.
set -e
cd "$(dirname "$0")/.."
g++ --version > /dev/null
python3 -c 'import json'
mkdir -p evidence replays _build
echo ready
