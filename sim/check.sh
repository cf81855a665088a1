#!/bin/bash
# check.sh C05 [options of sim]: builds from /repo, searches, writes evidence/C05.json.
# check.sh replay FILE:         executes a recorded run again.
# VERIF_SEED and VERIF_TIER (quick, thorough) as in MANIFEST.json.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
verif="$(dirname "$here")"
kind=edges
what="${1:-}"
[ "$what" = replay ] && what="$(sed -n 's/^"property": "\(C[0-9]*\)",$/\1/p' "${2:?}")"
[ "$what" = digest ] || [ "$what" = one ] && what="${2:?}"
[ "$what" = C18 ] && kind=plain
bash "$here/build.sh" $kind || exit 2
scratch="$(mktemp -d /tmp/jbcrs-sim.XXXXXX)" || exit 2
trap 'rm -rf "$scratch"' EXIT
export SIM_SCRATCH="$scratch"
cd "$verif" || exit 2
"$here/target/$kind/release/sim" "$@"
