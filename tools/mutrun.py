#!/usr/bin/env python3
"""Mutation run (development only): mutrun.py MUTS.jsonl OUT.jsonl WALL [filter]
Applies each mutation in a scratch copy of /repo, drops those that do not compile or fail
the stable tests, and explores all plain quick scenarios for WALL seconds."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
M = "/tmp/mut"
src, out, wall = sys.argv[1], sys.argv[2], sys.argv[3]
flt = sys.argv[4] if len(sys.argv) > 4 else ""
os.makedirs(M, exist_ok=True)
for d in ("repo", "verif"):
    shutil.rmtree(M + "/" + d, ignore_errors=True)
subprocess.check_call("cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/mc /verif/build.sh /verif/check.py /verif/known-findings.json %s/verif/" % (M, M, M), shell=True)
for f in ("build.sh", "mc/overlay/gen.py", "mc/gentool/main.go", "check.py"):
    p = M + "/verif/" + f
    t = open(p).read()
    t = t.replace("/repo", M + "/repo")
    t = t.replace("GOCACHE=$V/.build/gocache", "GOCACHE=/tmp/mut/gocache")
    open(p, "w").write(t)
os.environ["VERIF_WALL"] = wall
sys.argv = ["x"]
sys.path.insert(0, M + "/verif")
import check
check.confirm = lambda b, r: True
check.B = M + "/verif/.build"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=readonly", GOWORK="off", GOCACHE="/tmp/mut/gocache")
done = set()
if os.path.exists(out):
    done = {json.loads(l)["key"] for l in open(out)}
muts = [json.loads(l) for l in open(src)]
for m in muts:
    key = hashlib.sha1(json.dumps(m, sort_keys=True).encode()).hexdigest()[:12]
    if key in done or flt and flt not in m["file"]:
        continue
    p = M + "/repo/" + m["file"]
    orig = open(p, "rb").read()
    open(p, "wb").write(orig[:m["start"]] + m["text"].encode() + orig[m["end"]:])
    res, what, t0 = "", "", time.time()
    try:
        r = subprocess.run(["go", "build", "./..."], cwd=M + "/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            res = "nobuild"
        else:
            try:
                r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "20s", "./..."],
                                   cwd=M + "/repo", env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                if "FAIL:" in r.stdout or "panic:" in r.stdout:
                    res = "tests"
            except subprocess.TimeoutExpired:
                res = "tests"
        if not res:
            try:
                b = check.build("plain")
                l = subprocess.run([b, "-list", "-tier", "quick"], stdout=subprocess.PIPE, check=True, env=check.env())
                scs = [s for s in json.loads(l.stdout) if not s["race"] and not s.get("gen")]
                # spread the properties
                tmp = tempfile.mkdtemp(dir=check.B)
                so = os.dup(1)
                fd = os.open(M + "/log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                try:
                    rc = check.explore("ALL", "quick", scs, {"plain": b}, tmp, time.time(), 0)
                    sys.stdout.flush()
                finally:
                    os.dup2(so, 1); os.close(so); os.close(fd)
                    shutil.rmtree(tmp, ignore_errors=True)
                    os.unlink(b)
                log = open(M + "/log").read()
                first = [x for x in log.splitlines() if x.startswith("scenario ")]
                res = "killed" if rc == 1 else "survived" if rc == 0 else "rc%d" % rc
                what = first[0][:200] if first else ("" if rc == 0 else log[-300:])
            except SystemExit as e:
                res = "exit%s" % e.code
    finally:
        open(p, "wb").write(orig)
    rec = dict(m, key=key, result=res, what=what, s=round(time.time() - t0, 1))
    with open(out, "a") as f:
        f.write(json.dumps(rec) + "\n")
    print(res, m["file"], m["line"], m["op"], repr(m["old"][:60]), "->", repr(m["text"][:60]), what[:100], rec["s"], flush=True)
