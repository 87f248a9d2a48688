#!/bin/sh
# Builds what the check of property $1 needs from /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
"$here/build.sh" || exit 2
if [ "$1" = C08 ]; then
  "$here/program.sh" || exit 2
fi
exec "$here/../target/sim/release/dynsim" check "$1"
