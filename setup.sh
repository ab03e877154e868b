#!/bin/bash
# Nothing is cached between runs: every check builds the library and its harness from /repo's working tree.
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence out
clang++ --version | head -n1
