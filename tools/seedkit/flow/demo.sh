#!/bin/bash
# Generates producers or consumers with the CLI built in the current tree and runs the scenario of demo.py against them.
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 python3 "$D/kit/demo.py"
