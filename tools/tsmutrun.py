#!/usr/bin/env python3
"""Mutation testing of the TypeScript half (development only).
usage: tsmutrun.py MUTANTS.jsonl OUT.jsonl WORKERS [SECONDS]   (resumable)"""
import json, os, shutil, subprocess, sys, threading, queue
src, out, nw = sys.argv[1], sys.argv[2], int(sys.argv[3])
sec = sys.argv[4] if len(sys.argv) > 4 else "2"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = [json.loads(l) for l in open(src)]
done = {(r["file"], r["start"], r["end"], r["new"]) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
q = queue.Queue()
for m in muts:
    if (m["file"], m["start"], m["end"], m["new"]) not in done:
        q.put(m)
FIRST = {"rpcstream": ["P26"], "srpc/channel": ["P27"], "watchdog": ["P27"], "value-ctr": ["P27"], "handle-stream": ["P27"], "pushable": ["P27", "P23"], "mux": ["P28"], "handler": ["P28"],
         "invoker": ["P28", "P23"], "errors": ["P28", "P24"], "srpc/packet": ["P25", "P24"], "length": ["P25"], "array-list": ["P25", "P29"], "message-port": ["P27", "P29"],
         "broadcast": ["P27", "P29"], "srpc/conn": ["P29"], "websocket": ["P29"], "echo/echo_srpc": ["P28"], "echo/server": ["P26", "P28"], "srpc/stream": ["P25", "P29"], "message.ts": ["P25", "P28"],
         "client": ["P23", "P24"], "common": ["P24", "P23"], "server": ["P23", "P24"], "open-stream": ["P23"]}
lock = threading.Lock()
def work(i):
    d = "/tmp/tsmut/w%d" % i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run("mkdir -p %s/repo && git -C /repo archive HEAD | tar x -C %s/repo && cp -r %s/ts %s/ts" % (d, d, V, d), shell=True, check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(d, "repo", m["file"])
        orig = open(p, encoding="utf-8").read()
        # offsets are in UTF-16 units
        u = orig.encode("utf-16-le")
        open(p, "w").write((u[:2*m["start"]] + m["new"].encode("utf-16-le") + u[2*m["end"]:]).decode("utf-16-le"))
        gen = m["file"].startswith("cmd/")
        o = d + "/out"
        try:
            r = subprocess.run([d + ("/ts/gen.sh" if gen else "/ts/build.sh")], env=dict(os.environ, REPO=d + "/repo", OUT=o), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res = None
            if r.returncode == 3: res = "killed:generator"
            elif r.returncode: res = "nobuild"
            else:
                ls = json.loads(subprocess.run(["node", o + "/main.mjs", "-list"], stdout=subprocess.PIPE).stdout)
                names = [s["name"] for s in ls]
                first = [ps for k, ps in FIRST.items() if k in m["file"]]
                first = first[0] if first else []
                if first:
                    names = [n for n in names if n.split("/")[0] in first]
                names.sort(key=lambda n: (n.split("/")[0] not in first, n))
                for n in names:
                    try:
                        r = subprocess.run(["node", o + "/main.mjs", "-run", n, "-budget", sec, "-out", o + "/r.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
                    except subprocess.TimeoutExpired:
                        res = "killed:%s stall" % n
                        break
                    if r.returncode:
                        res = "killed:%s crash" % n
                        break
                    v = json.load(open(o + "/r.json")).get("violation")
                    if v:
                        res = "killed:%s %s" % (n, v[:100])
                        break
                else:
                    res = "survived"
        finally:
            open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(dict(m, result=res)) + "\n")
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
