#!/bin/bash
# Nothing is prebuilt: every check compiles its own harness against /repo. Only verify the tools exist.
set -e
cd "$(dirname "$0")"
command -v python3 >/dev/null
test -x /usr/bin/clang++-18 || command -v clang++ >/dev/null
python3 -c "import json; [json.loads(l) for l in open('properties.jsonl')]; json.load(open('MANIFEST.json'))"
mkdir -p evidence build
echo setup ok
