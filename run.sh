#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property against /repo's working tree
# run.sh replay FILE                 re-execute a violation file
# Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else: the check itself failed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
seed="${VERIF_SEED:-1}"
cmd="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
bin="$(mktemp -d /tmp/zksim.XXXXXX)" || exit 3
trap 'rm -rf "$bin"' EXIT
mkdir -p "$here/evidence" "$here/replays"
kind() { case "$1" in C0*|C1*|C20) echo circsim;; *) echo hostsim;; esac; }
build() {
  local b=("$here/sim/build.sh" "$bin/sim" "$1")
  [ "$1" = hostsim ] && b=("$here/sim/hostbuild.sh" "$bin/sim")
  timeout 800 "${b[@]}" >"$bin/log" 2>&1 || { echo "build failed:"; cat "$bin/log"; exit 4; }
}
if [ "$cmd" = replay ]; then
  file="$(realpath "$2")"
  p="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)"
  build "$(kind "$p")"
  exec_args=(-replay "$file")
else
  build "$(kind "$cmd")"
  exec_args=(-prop "$cmd" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$cmd.json" -replays "$here/replays" -known "$here/known-findings.json")
fi
"$bin/sim" "${exec_args[@]}"
exit $?
