#!/bin/sh
# The checks build what they need themselves; this only shows that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/.."
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
cp spec/*.tla "$d"
CP=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for f in "$d"/*.tla; do (cd "$d" && java -cp "$CP" tla2sany.SANY "$f" >"$d/log" 2>&1) || { cat "$d/log"; exit 1; }; done
cargo --version >/dev/null
python3 -c 'import sys; sys.path.insert(0,"lib"); sys.dont_write_bytecode=True; import main'
echo ok
