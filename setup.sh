#!/bin/sh
# Builds the harness once, so that the toolchain's cache is warm.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
exec python3 ./check setup
