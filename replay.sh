#!/bin/bash
# Replays a violation against /repo's current tree: exit 1 if it reproduces. usage: replay.sh FILE
D=$(mktemp -d /tmp/jpsim-XXXXXX); trap 'rm -rf "$D"' EXIT
"$(dirname "$0")"/sim/build.sh "$D" >/dev/null || exit 3
"$D"/sim replay "$1"
