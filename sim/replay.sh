#!/bin/sh
# replay.sh FILE: rebuilds and runs a replay file; exit 1 when it shows its violation again.
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
f="$(realpath "$1")" || exit 2
"$here/build.sh" || exit 2
if grep -q '^PROPERTY C08' "$f"; then
  "$here/program.sh" || exit 2
fi
exec "$here/../target/sim/release/dynsim" replay "$f"
