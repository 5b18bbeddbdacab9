#!/bin/bash
# Builds the symbolic executor (offline, from the committed files).
set -e
cd "$(dirname "$0")"
mkdir -p build
bash engine/build.sh "$PWD/build/vsym"
