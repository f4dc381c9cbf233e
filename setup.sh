#!/bin/bash
# setup.sh: confirm once that the simulator and the library build and run.
set -e
cd "$(dirname "$0")"
T=$(mktemp -d /tmp/pigosim-setup.XXXXXX)
trap 'rm -rf "$T"' EXIT
bash build.sh "$T" "${VERIF_REPO:-/repo}"
"$T/pigosim" props >/dev/null
echo "simulator built"
