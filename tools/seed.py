#!/usr/bin/env python3
"""Planted-bug workbench (development only).
  seed.py new ID PROPERTY  < edited worktree /tmp/seedwt -> seeded/ID/patch.diff (+ demo.sh template)
  seed.py wt               fresh worktree /tmp/seedwt of /repo HEAD
  seed.py verify [ID..]    build, stable tests, demo clean/patched in a scratch copy
  seed.py run [ID..]       apply to /repo, run the property's quick check, undo"""
import json, os, re, shutil, subprocess, sys, time
V = "/verif"
WT = "/tmp/seedwt"
DEMO = '''#!/bin/bash
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s %(flags)s-run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = "export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off; "
def ids(a): return a or sorted(os.listdir(V + "/seeded"))
def wt():
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq" % (WT, WT))
def removed(d):
    """removed lines that a fix commit added"""
    out, f, n = [], None, 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -s -L %d,%d 20d173a..HEAD -- %s" % (n, n, f)).stdout
            if not b.startswith("^"): out.append(b.strip())
            n += 1
        elif not l.startswith("+"): n += 1
    return out
cmd, a = sys.argv[1], sys.argv[2:]
if cmd == "wt":
    wt()
elif cmd == "new":
    d = "%s/seeded/%s" % (V, a[0])
    os.makedirs(d, exist_ok=True)
    p = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(p)
    pkg = a[2] if len(a) > 2 else "srpc"
    flags = "-race " if "race" in a[3:] else ""
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=flags))
    os.chmod(d + "/demo.sh", 0o755)
    print(len(p.splitlines()), "lines of patch")
elif cmd == "verify":
    for i in ids(a):
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        wt()
        t = "/tmp/seeddemo"
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        res = []
        r = sh("%s/demo.sh" % t, cwd=WT); res.append(("clean demo", r.returncode == 0, r.stdout))
        own = [l for l in removed(d) if l]
        if own: res.append(("own lines", False, str(own)))
        r = sh("git apply %s/patch.diff" % d, cwd=WT); res.append(("apply", r.returncode == 0, r.stdout))
        r = sh(ENV + "go build ./... && GOOS=js GOARCH=wasm go build ./srpc ./rpcstream ./echo ./mock", cwd=WT); res.append(("build", r.returncode == 0, r.stdout))
        r = sh(ENV + "go test -vet=off -count=2 ./...", cwd=WT); res.append(("tests", r.returncode == 0, r.stdout))
        s = time.time()
        r = sh("%s/demo.sh" % t, cwd=WT); res.append(("patched demo fails", r.returncode != 0 and "build failed" not in r.stdout, r.stdout))
        bad = [x for x in res if not x[1]]
        print(i, meta["property"], "OK %.1fs" % (time.time() - s) if not bad else "BAD " + str([b[0] for b in bad]) + bad[0][2][-1500:])
    shutil.rmtree(WT, ignore_errors=True)
elif cmd == "run":
    assert not sh("git -C /repo status --porcelain").stdout
    for i in ids(a):
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        for prop in [meta["property"]] if "all" not in os.environ else os.environ["all"].split(","):
            sh("git -C /repo apply %s/patch.diff" % d)
            s = time.time()
            r = sh("python3 %s/check.py %s quick" % (V, prop))
            sh("git -C /repo checkout -- .")
            v = re.findall(r"VIOLATION property=(\S+)", r.stdout)
            sc = re.findall(r"scenario (\S+): (.*)", r.stdout)
            print("%-24s %s rc=%d %s %.0fs %s" % (i, prop, r.returncode, "CAUGHT" if r.returncode == 1 and prop in v else "MISSED", time.time() - s, [x[0] + ": " + x[1][:100] for x in sc]), flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
