#!/bin/bash
# nothing is prebuilt: every check compiles what it needs from /repo's tree.
set -e
command -v tlc g++ python3 >/dev/null
cd "$(dirname "$0")/.." && mkdir -p evidence && echo "setup ok"
