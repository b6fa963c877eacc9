#!/bin/bash
# Warms the Go build cache; every check builds its own simulator from /repo's working tree again.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
out="$(mktemp -d /tmp/zksim.XXXXXX)"
trap 'rm -rf "$out"' EXIT
"$here/sim/build.sh" "$out/circsim" circsim
"$here/sim/hostbuild.sh" "$out/hostsim"
echo ready
