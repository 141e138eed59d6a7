#!/bin/bash
# Builds the harness and the command line tools once, so that later checks only rebuild what changed.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_BUILD_ONLY=1
"$here/check.sh" C21
