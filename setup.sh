#!/bin/bash
# Compiles the harness once against /repo, to fail early when a tool is missing. Keeps nothing.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
VERIF_CASES=64 bash "$here/run.sh" C01 > /dev/null
echo ready
