# Sourced by setup.sh and check.sh: how the harness is built against /repo's working tree.
# Nothing is written in /repo; the build lives in $BUILD, a scratch directory.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=/repo
export HOME=/root
export PATH="$PATH:/usr/local/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS= GOSUMDB=off
M=github.com/charlesetsmith/saratoga

genmod() {
	mkdir -p "$BUILD" || return 1
	local goroot; goroot=$(go env GOROOT) || return 1
	# syscall.SO_REUSEPORT is missing on linux/amd64; with it every package of the repository builds here.
	local extra=""
	if ! grep -qrs '\bSO_REUSEPORT\b' "$goroot/src/syscall/zerrors_linux_amd64.go"; then
		extra="\"$goroot/src/syscall/zz_verif_reuseport_linux_amd64.go\": \"$VERIF/gomod/zz_reuseport.go.txt\","
	fi
	cat > "$BUILD/overlay.json" <<-J
	{"Replace": {
	  $extra
	  "$REPO/go.mod": "$VERIF/gomod/root.go.mod",
	  "$REPO/sarflags/go.mod": "$VERIF/gomod/sarflags.go.mod"
	}}
	J
	cat > "$BUILD/go.work" <<-J
	go 1.21.4

	use (
		$VERIF/harness
		$REPO
		$REPO/beacon
		$REPO/data
		$REPO/dirent
		$REPO/frames
		$REPO/sarflags
		$REPO/timestamp
	)

	replace (
		$M/frames v0.0.0-20231125221206-e3b4c81defea => $REPO/frames
		$M/sarflags v0.0.0-20231125221206-e3b4c81defea => $REPO/sarflags
		$M/timestamp v0.0.0-20231125221206-e3b4c81defea => $REPO/timestamp
		github.com/jroimartin/gocui => $VERIF/stubs/gocui
		github.com/nsf/termbox-go => $VERIF/stubs/termbox-go
	)
	J
	[ -f "$VERIF/gomod/go.work.sum" ] && cp "$VERIF/gomod/go.work.sum" "$BUILD/go.work.sum"
	export GOWORK="$BUILD/go.work"
}

# build OUT PKG [flags]
build() {
	local out=$1 pkg=$2; shift 2
	(cd "$VERIF/harness" && go build -overlay "$BUILD/overlay.json" "$@" -o "$out" "$pkg")
}
