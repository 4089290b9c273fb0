#!/bin/bash
# Everything is built by the checks themselves from /repo's working tree; this only verifies that the toolchain is there.
set -e
cd "$(dirname "$0")"
for t in clang++ ninja flatc python3; do command -v $t > /dev/null; done
python3 -c "import json; json.load(open('MANIFEST.json'))"
mkdir -p evidence replays
echo "setup ok"
