#!/bin/bash
# bundles the harness with the repository's TypeScript files
set -e
R=${REPO:-/repo}
cd "$(dirname "$0")"
out=${OUT:-../.build/ts}
mkdir -p $out
export NODE_PATH=/opt/veriftools/node/node_modules
cat > $out/tsconfig.json <<E
{"compilerOptions":{"target":"es2022","verbatimModuleSyntax":false}}
E
/opt/veriftools/node/node_modules/.bin/esbuild ${ENTRY:-main.ts} --bundle --platform=node --format=esm --target=node22 \
  --outfile=$out/main.mjs --log-level=warning --tsconfig=$out/tsconfig.json --banner:js='' \
  --alias:it-pushable=./stubs/it-pushable.ts --alias:it-pipe=./stubs/it-pipe.ts --alias:it-first=./stubs/it-first.ts \
  --alias:event-iterator=./stubs/event-iterator.ts --alias:uint8arraylist=./stubs/uint8arraylist.ts \
  --alias:@aptre/protobuf-es-lite=./stubs/es-lite.ts --alias:@chainsafe/libp2p-yamux=./stubs/yamux.ts \
  --alias:@libp2p/logger=./stubs/none.ts --alias:@libp2p/interface=./stubs/none.ts --alias:@aptre/it-ws/duplex=./stubs/it-ws.ts \
  --alias:starpc=$R/srpc/index.ts --alias:@repo=$R "$@"
