#!/bin/bash
# check.sh PROPERTY [options of `zksql-sim check`]: rebuild from /repo's working
# tree, then simulate. 0 held, 1 violation (printed), 2 could not decide.
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "build of /repo's working tree failed" >&2; exit 2; }
exec sim/target/bin/zksql-sim check "$@"
