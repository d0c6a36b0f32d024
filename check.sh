#!/bin/bash
# check.sh ID quick|thorough: rebuilds from /repo's working tree and checks one property.
HERE=$(cd "$(dirname "$0")" && pwd)
bash "$HERE/mc/build.sh" || { echo "build failed" >&2; exit 3; }
exec "$HERE/build/verifmc" -prop "$1" -tier "${2:-quick}" -verif "$HERE"
