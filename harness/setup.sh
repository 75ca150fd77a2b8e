#!/bin/bash
# Nothing is kept from here: every check builds what it needs. This only verifies that the tools are there.
set -e
cd "$(dirname "$(realpath "$0")")"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -Wall -c vf_main.cpp -o "$T/vf_main.o"
python3 -c 'import json; json.load(open("../MANIFEST.json"))'
