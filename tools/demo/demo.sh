#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken.
export HOME=/root DENO_DIR=/opt/deno/cache DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1 NO_COLOR=1 TZ=UTC
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 120 /opt/deno/deno run --no-check --cached-only --no-remote --no-npm --config /repo/deno.jsonc --import-map /opt/mtkruto-deps/import_map.json --unstable-kv -A "$here/demo.ts" < /dev/null
