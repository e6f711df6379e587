#!/bin/bash
# usage: check.sh ID [quick|thorough] [extra vmon args]
# Builds the monitor against /repo's working tree (or $VERIF_REPO) and runs one property's check.
id=${1:?property id}; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
tmp=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
race=""
case " $RACE_PROPS " in *" $id "*) race=-race;; esac
build_vmon "$tmp" $race || { echo "build failed" >&2; exit 3; }
"$tmp/vmon" -prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$root" -scratch "$tmp/s" $race "$@"
