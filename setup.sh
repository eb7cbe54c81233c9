#!/bin/bash
# Builds everything once, to fill the build cache and to fail early.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V"
mkdir -p evidence
./check.sh C01 build
./check.sh C18 build
