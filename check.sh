#!/bin/bash
# ./check.sh ID: rebuild the monitor of property ID from /repo's working tree and run it.
. "$(dirname "${BASH_SOURCE[0]}")/lib.sh"
export VERIF_HOME=$VERIF VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=$1
out=$(mktemp -d /tmp/vmonbin.XXXXXX) || exit 2
chmod 755 "$out"
BUILD=$out
genmod || exit 2
trap 'rm -rf "$out"' EXIT
race=
grep -qx "$id" "$VERIF/harness/race.list" && race=-race
tags=
grep -qx "$id" "$VERIF/harness/ui.list" && tags="-tags ui"
build "$out/vmon" . $race $tags || exit 2
if grep -qx "$id" "$VERIF/harness/node.list"; then
	build "$out/node" $M/saratoga $race || exit 2
	export VMON_NODE=$out/node
	if [ "$id" = C29 ]; then # Also with the real toolkit
		sed -i '/gocui =>/d;/termbox-go =>/d' "$GOWORK"
		build "$out/node-tty" $M/saratoga || exit 2
		export VMON_NODE_TTY=$out/node-tty
	fi
fi
export VMON_CONF=$REPO/saratoga/saratoga.json
"$out/vmon" check "$id"
