#!/usr/bin/env bash
# nothing to build: the checks load /repo's TypeScript sources directly; verify that the tools they need are there
set -e
cd "$(dirname "$0")"; mkdir -p evidence replays
R="${MC_REPO:-/repo}"
test -f "$R/node_modules/tsx/dist/loader.mjs"; node --version >/dev/null
