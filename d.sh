#!/bin/bash
# Runs a harness file with the repository's own runtime and dependencies, offline.
# The import map is the repository's, with node's sockets replaced by simulated ones.
export HOME=/root DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1 NO_COLOR=1 TZ=UTC LANG=C.UTF-8
export DENO_DIR="${DENO_DIR:-/opt/deno/cache}"
root="$(dirname "$(readlink -f "${BASH_SOURCE[0]}")")"
mkdir -p "$root/.cache"
map="$root/.cache/import_map.json"
new="$map.$$"
sed -e 's#": "\./#": "/opt/mtkruto-deps/#' -e 's#^  "imports": {#  "imports": {\n    "node:net": "'"$root"'/sim/stubs/net.ts",#' /opt/mtkruto-deps/import_map.json > "$new"
if cmp -s "$new" "$map"; then rm -f "$new"; else mv -f "$new" "$map"; fi
exec /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config /repo/deno.jsonc --import-map "$map" --unstable-kv -A "$@"
