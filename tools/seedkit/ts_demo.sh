#!/bin/bash
# Generates TypeScript code for demo.prot with the CLI built in the current tree, and runs main.ts over it.
D=$(cd "$(dirname "$0")" && pwd)
CLI=$PWD/cli/target/release/clibri
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$D/main.ts" "$D/demo.prot" "$W/"
cd "$W" || exit 2
"$CLI" -s demo.prot -ts protocol.ts -o -e > gen.log 2>&1
tail -n 1 gen.log | grep -q '^\[OK\]' || { cat gen.log; exit 1; }
/opt/veriftools/node/node_modules/.bin/esbuild --bundle --platform=node --target=es2020 --log-level=error --outfile=main.js main.ts || exit 1
timeout 120 node main.js
