#!/bin/bash
# usage: build.sh plain|race|gen|ts|tsgen  -> builds .build/verifmc-{plain,race,gen} from /repo's working tree
# exit 3: /repo's code generator fails or its output does not compile
set -e
cd "$(dirname "$0")"
V=$PWD
if [ "$1" = ts ]; then
	mkdir -p .build/ts
	OUT=$V/.build/ts ts/build.sh
	cp .build/ts/main.mjs .build/verifmc-ts
	exit 0
fi
if [ "$1" = tsgen ]; then
	OUT=$V/.build/tsgen ts/gen.sh
	cp .build/tsgen/main.mjs .build/verifmc-tsgen
	exit 0
fi
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod HOME=/root GOSUMDB=off GONOSUMDB=* GOFLAGS="-mod=mod"
export GOCACHE=$V/.build/gocache PATH=$GOROOT/bin:$PATH CGO_ENABLED=1
mkdir -p .build/mod
python3 mc/overlay/gen.py $GOROOT $V/.build/overlay
python3 - <<'PY'
import re
t=open('/repo/go.mod').read()
t=re.sub(r'(?m)^module .*$','module verifmc',t,count=1)
t=re.sub(r'(?m)^toolchain .*$','',t)
t+='\nrequire github.com/aperturerobotics/starpc v0.0.0\nreplace github.com/aperturerobotics/starpc => /repo\n'
def put(p,s):
    try: old=open(p).read()
    except OSError: old=None
    if old!=s: open(p,'w').write(s)
put('.build/mod/go.mod.in',t)
open('.build/mod/go.mod','w').write(t)
open('.build/mod/go.sum','w').write(open('/repo/go.sum').read())
PY
cd mc
K=$1 R=() F=("-gcflags=github.com/libp2p/go-yamux/v4=-d=ssa/intrinsics/off" "-gcflags=github.com/aperturerobotics/starpc/...=-d=ssa/intrinsics/off")
if [ "$K" = race ]; then R=(-race) F=(); fi
O=$V/.build/overlay/$K.json
M=-modfile=$V/.build/mod/go.mod
if [ "$K" = gen ]; then
	go build $M -o $V/.build/gentool ./gentool
	go build $M -o $V/.build/plugin github.com/aperturerobotics/starpc/cmd/protoc-gen-go-starpc
	$V/.build/gentool $V/.build/plugin $V/.build/gen $V/mc
	python3 - $V <<'PY'
import json,sys
d=sys.argv[1]+"/.build/"
o=json.load(open(d+"overlay/plain.json"))
o["Replace"].update(json.load(open(d+"gen/overlay.json")))
json.dump(o,open(d+"overlay/gen.json","w"))
PY
	go build $M "${F[@]}" -overlay $O verifmc/gen/index || exit 3
	R=(-tags gen)
fi
go build $M "${R[@]}" "${F[@]}" -overlay $O -o $V/.build/verifmc-$K .
