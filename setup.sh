#!/bin/bash
# Builds everything once, which fills the Go build cache; each check rebuilds from /repo's working tree.
. "$(dirname "${BASH_SOURCE[0]}")/lib.sh"
out=$(mktemp -d /tmp/vmonbin.XXXXXX) || exit 1
BUILD=$out
genmod || exit 1
trap 'rm -rf "$out"' EXIT
build "$out/vmon" . && build "$out/vmon-race" . -race && build "$out/vmon-ui" . -tags ui && build "$out/vmon-ui-race" . -tags ui -race && build "$out/node" $M/saratoga -race && sed -i '/gocui =>/d;/termbox-go =>/d' "$GOWORK" && build "$out/node-tty" $M/saratoga
