#!/usr/bin/env bash
# usage: run.sh <property-id> [extra args]   -- runs one check against /repo's working tree
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="$1"; shift
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export MC_REPO="${MC_REPO:-/repo}" MC_VERIF="$V"
BASE=/dev/shm; [ -w "$BASE" ] || BASE=/tmp
SCR="$(mktemp -d "$BASE/mc-$ID-XXXXXX")" || exit 3
cleanup() { case "$SCR" in "$BASE"/mc-*) chmod -R u+rwX "$SCR" 2>/dev/null; for _ in 1 2 3 4 5; do rm -rf -- "$SCR" 2>/dev/null && break; sleep 0.4; done;; esac; }
trap cleanup EXIT
mkdir -p "$SCR/home" "$SCR/tmp" "$V/evidence" "$V/replays"
export MC_SCRATCH="$SCR" HOME="$SCR/home" TMPDIR="$SCR/tmp"
export INSRC_LOG_LEVEL=fatal NODE_NO_WARNINGS=1 TSX_DISABLE_CACHE=1
unset INSRC_MODE NODE_OPTIONS XDG_CONFIG_HOME XDG_DATA_HOME
mkdir -p "$HOME/.insrc"; printf '{"logLevel":"fatal"}\n' > "$HOME/.insrc/config.json"
if [ -f "$V/checks/$ID.py" ]; then
  cd "$SCR" && exec_py() { /opt/vp/pyvenv/bin/python "$V/checks/$ID.py" "$@"; }
  exec_py "$@"; RC=$?
else
  cd "$MC_REPO" || exit 3
  export MC_STUB="${MC_STUB-@lancedb/lancedb=lance-stub.mjs,@parcel/watcher=parcel-stub.mjs}"
  case "$ID" in C12) MC_STUB="$MC_STUB,node:net=net-stub.mjs";; C22|C27|C29|C33|C41) MC_STUB="$MC_STUB,node:child_process=cp-stub.mjs";; esac
  node --expose-gc --stack-size=4000 --import "file://$MC_REPO/node_modules/tsx/dist/loader.mjs" --import "file://$V/lib/preload.mjs" "$V/checks/$ID.mts" "$@"; RC=$?
fi
exit $RC
