#!/bin/bash
# run.sh PROPERTY [quick|thorough]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || bash engine/build.sh || exit 2
exec ./bin/gosym check -root "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
