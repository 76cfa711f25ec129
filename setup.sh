#!/bin/sh
# nothing to install: every check builds what it needs from /repo's working tree into build/
mkdir -p "$(dirname "$0")/build" "$(dirname "$0")/evidence"
exit 0
