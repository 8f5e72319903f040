#!/bin/bash
# Nothing to install: checks build what they need from /repo's working tree.
set -e
cd "$(dirname "$0")"
for t in clang clang++ gcc python3 ld objcopy valgrind; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replays
python3 -c "import json;json.load(open('MANIFEST.json'))"
echo ok
