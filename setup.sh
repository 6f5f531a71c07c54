#!/bin/bash
# Nothing has to be kept: every check builds the harness from /repo's working
# tree.  This only proves that the harness builds offline.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/harness" && go build -o /dev/null .
