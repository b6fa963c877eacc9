#!/bin/bash
# hostbuild.sh OUT [REPO]: builds the host simulator. System calls on files below /simdisk and HTTP round trips get a
# seam through a build overlay of the Go distribution; nothing in the repository changes.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"; repo="${2:-/repo}"
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
w="$(mktemp -d /tmp/zkbuild.XXXXXX)"
trap 'rm -rf "$w"' EXIT
cd "$here"
# this Go refuses overlays in the module cache, so gnark is patched in a copy
gnark="$(go list -m -f '{{.Dir}}' github.com/consensys/gnark)"
cp -r "$gnark" "$w/gnark"; chmod -R u+w "$w/gnark"
sed -e "s#=> /repo\$#=> $repo#" -e "s#^\(replace \|\t\)github.com/consensys/gnark => .*#\1github.com/consensys/gnark => $w/gnark#" go.mod > "$w/go.mod"; cp go.sum "$w/go.sum"
python3 "$here/overlay/host.py" "$w" "$GOROOT" "$here/overlay" "$w/gnark"
timeout 900 go build -trimpath -modfile "$w/go.mod" -overlay "$w/overlay.json" -o "$out" ./cmd/hostsim
