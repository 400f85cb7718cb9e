#!/bin/bash
# Nothing to install: the verifier is Python run by python3-vt; each check compiles what it needs itself.
set -e
cd "$(dirname "$0")"
for t in clang++-18 opt-18 python3-vt c++filt; do command -v $t >/dev/null || { echo "missing tool $t" >&2; exit 1; }; done
mkdir -p build evidence
