#!/bin/bash
# Builds the monitor once (plain and with the race detector) so that the build cache is warm.
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
tmp=$(mktemp -d /tmp/vsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
build_vmon "$tmp" && build_vmon "$tmp" -race
