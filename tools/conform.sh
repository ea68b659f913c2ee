#!/bin/bash
# checks the stand-in for the TypeScript plugin library against the generated files in the repository
cd "$(dirname "$0")/../ts"
R=${REPO:-/repo} N=/opt/veriftools/node/node_modules o=$(mktemp -d)
export NODE_PATH=$N
$N/.bin/esbuild conform.ts --bundle --platform=node --format=cjs --outfile=$o/c.cjs --log-level=warning --tsconfig-raw='{}' --external:typescript \
  --alias:@repo=$R --alias:@aptre/protobuf-es-lite/protoplugin/ecmascript=./stubs/protoplugin.ts --alias:@aptre/protobuf-es-lite=./stubs/es-lite.ts && node $o/c.cjs
rc=$?
rm -rf "${o:?}"
exit $rc
