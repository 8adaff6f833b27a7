#!/bin/bash
# check.sh <property> <tier>: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
tools/build.sh || exit 2
if [ "$1" = C23 ]; then tools/build_san.sh || exit 2; fi
exec harness/target/release/vmon check "$1" --tier "${2:-quick}" --seed "${VERIF_SEED:-1}" --root "$PWD"
