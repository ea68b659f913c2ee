#!/bin/bash
# runs the repository's TypeScript generator and bundles what it produces with the harness
# exit 3: the generator fails or its output does not compile
R=${REPO:-/repo}
cd "$(dirname "$0")"
out=${OUT:-../.build/tsgen}
N=/opt/veriftools/node/node_modules
rm -rf "$out/gen"
mkdir -p "$out/gen" || exit 1
out=$(cd "$out" && pwd)
export NODE_PATH=$N
cat > "$out/tsconfig.json" <<X
{"compilerOptions":{"target":"es2022","verbatimModuleSyntax":false}}
X
$N/.bin/esbuild gentool.ts --bundle --platform=node --format=esm --target=node22 --outfile="$out/gentool.mjs" --log-level=warning \
  --tsconfig="$out/tsconfig.json" --alias:@repo=$R --alias:@aptre/protobuf-es-lite/protoplugin/ecmascript=./stubs/protoplugin.ts \
  --alias:@aptre/protobuf-es-lite=./stubs/es-lite.ts || exit 1
node "$out/gentool.mjs" "$out/gen" || exit $?
# the generator's output has to type-check (errors elsewhere do not count: the stubs are not typed)
cat > "$out/gen/tsconfig.json" <<X
{"compilerOptions":{"target":"ES2022","module":"ESNext","moduleResolution":"Bundler","strict":true,"noEmit":true,"skipLibCheck":true,
"types":[],"paths":{"starpc":["$R/srpc/index.ts"],"@aptre/protobuf-es-lite":["$PWD/stubs/es-lite.ts"]}},"include":["."]}
X
(cd "$out/gen" && node $N/typescript/bin/tsc -p . > "$out/tsc.log" 2>&1)
rc=$?
if [ $rc -gt 2 ]; then cat "$out/tsc.log"; exit 1; fi
grep -E '^[a-zA-Z0-9_][^ ]*\.ts\(' "$out/tsc.log" > "$out/tsc.err"
if [ -s "$out/tsc.err" ]; then
  echo "GENERATOR: what was generated does not type-check:"; head -20 "$out/tsc.err"
  exit 3
fi
OUT=$out ENTRY=main30.ts ./build.sh --alias:@gen="$out/gen" > "$out/bundle.log" 2>&1
rc=$?
cat "$out/bundle.log"
if [ $rc -ne 0 ]; then
  if grep -q '_srpc.pb.ts' "$out/bundle.log"; then echo "GENERATOR: what was generated does not compile"; exit 3; fi
  exit 1
fi
