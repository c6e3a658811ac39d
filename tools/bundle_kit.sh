#!/bin/bash
# Bundles the demo kit into the folder given.
/opt/veriftools/node/node_modules/.bin/esbuild /verif/tools/demo/kit.ts --bundle --format=esm --platform=neutral --external:node:* '--external:/repo/*' '--external:jsr:*' '--external:npm:*' --outfile="$1/kit.js" --log-level=warning
