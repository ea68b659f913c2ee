#!/usr/bin/env python3
"""Model-check one property against /repo's working tree.

usage: check.py ID [quick|thorough]     run the property's scenarios
       check.py --replay FILE [--trace] re-run a recorded violation
       check.py --selftest              test the exploration engine

exit 0: the property held on everything explored; exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed; exit 2: no answer (build failure,
engine error)."""
import fcntl, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
NCPU = min(8, os.cpu_count() or 1)
QUICK_WALL = 60.0        # seconds of exploration, all scenarios together
THOROUGH_WALL = 600.0
QUICK_MORE = 0.0         # with time left before this, scenarios that are done go beyond their bound
STALL = 25.0             # seconds inside one execution (normally < 1 ms)


def build(kind):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run([os.path.join(V, "build.sh"), kind], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 3:
            raise GenFailure(p.stdout[-12000:])
        if p.returncode != 0:
            print(p.stdout[-8000:])
            print("build failed (%s)" % kind)
            sys.exit(2)
        dst = os.path.join(B, "run-%s-%d" % (kind, os.getpid()))
        shutil.copy2(os.path.join(B, "verifmc-" + kind), dst)
        if kind in ("ts", "tsgen"):
            os.rename(dst, dst + ".mjs")
            with open(dst, "w") as f:
                f.write('#!/bin/sh\nexec node "$0.mjs" "$@"\n')
            os.chmod(dst, 0o755)
        return dst


def drop(binary):
    for p in (binary, binary + ".mjs"):
        if os.path.exists(p):
            os.unlink(p)


RULE = {
    "go": "Each execution runs the real code of /repo under the controlled scheduler; a state is a decision point "
          "with a distinct happens-before fingerprint; every execution is itself a trace of the implementation. "
          "'exhaustive' means every scenario finished its deviation bound.",
    "ts": "Each execution runs the real TypeScript of /repo (bundled as it is) on a virtual clock; a state is a point between two "
          "events with a distinct history of events and inputs; every execution is itself a trace of the implementation. "
          "'exhaustive' means every scenario finished its deviation bound.",
}
ASSUME = {
    "go": [
        "schedules with at most the stated number of deviations from the run-until-blocked schedule (or all of them where fully_explored_without_bound)",
        "preemption before channel, mutex, condition, atomic, timer, pool and harness operations; interleavings of plain memory accesses are covered by the race-detector scenarios",
        "Go 1.24.13 runtime with the scheduler overlay in mc/overlay",
    ],
    "ts": [
        "event orders with at most the stated number of deviations from the first-come order (or all of them where fully_explored_without_bound); between two events JavaScript is deterministic",
        "npm packages that are not installed here are replaced by the reconstructions in ts/stubs",
        "node 22, esbuild (types are not checked)",
    ],
}


class GenFailure(Exception):
    """/repo's code generator fails or its output does not compile"""


class Worker:
    def __init__(self, binary, sc, tier, budget, tmp, n, bound=-1):
        self.binary, self.sc, self.budget, self.tier, self.bound = binary, sc, budget, tier, bound
        self.status = os.path.join(tmp, "st%d" % n)
        self.out = os.path.join(tmp, "out%d.json" % n)
        self.err = os.path.join(tmp, "err%d" % n)
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen([binary, "-run", sc["name"], "-tier", tier, "-budget", "%.1f" % budget,
                                   "-bound", str(bound), "-status", self.status, "-out", self.out],
                                  stdout=self.f, stderr=subprocess.STDOUT, env=env(os.path.join(tmp, "race%d" % n)))
        self.seen, self.seen_t = None, time.time()
        self.stalled = False

    def state(self):
        try:
            with open(self.status, "rb") as f:
                b = f.read(1 << 17)
        except OSError:
            return None
        if len(b) < 32:
            return None
        begin, end, cost, n = struct.unpack_from("<QQQQ", b)
        return begin, end, cost, list(b[32:32 + min(n, len(b) - 32)])

    def poll(self):
        if self.p.poll() is not None:
            self.f.close()
            return True
        s = self.state()
        key = s and (s[0], s[1])
        if key != self.seen:
            self.seen, self.seen_t = key, time.time()
        elif s and s[0] > s[1] and time.time() - self.seen_t > STALL:
            self.stalled = True
            self.p.kill()
            self.p.wait()
            self.f.close()
            return True
        return False


def env(log=None):
    e = dict(os.environ)
    e.update(GOMAXPROCS="1", GOGC="off", GOMEMLIMIT="6GiB", GOTRACEBACK="all",
             GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2" + (" log_path=" + log if log else ""))
    return e


def run_replay(binary, rec, trace=False, timeout=90):
    """returns (verdict, text): verdict in violated, held, crash, stall"""
    tmp = tempfile.mkdtemp(prefix="replay-", dir=B)
    f = open(os.path.join(tmp, "sites.json"), "w")
    with f:
        json.dump({"filter": rec.get("filter", False), "site_list": rec.get("site_list") or []}, f)
    cmd = [binary, "-run", rec["scenario"], "-tier", rec.get("tier", "quick"), "-do-replay",
           "-replay", ",".join(map(str, rec.get("prefix") or [])), "-sites", f.name]
    if trace:
        cmd.append("-trace")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env(os.path.join(tmp, "race")))
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            return "held", out
        if p.returncode == 1 and "VIOLATED:" in out:
            return "violated", out
        return "crash", out
    except subprocess.TimeoutExpired as e:
        return "stall", (e.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def kind_of(s):
    if s.get("ts"):
        return "tsgen" if s["name"].startswith("P30/") else "ts"
    return "race" if s["race"] else "gen" if s.get("gen") else "plain"


# properties of the TypeScript half of the repository
TS = {"P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31"}


def confirm(binary, rec):
    """replays in fresh processes; True when the failure is reproducible"""
    n = 2 if rec["kind"] == "stall" else 5
    hits = 0
    for _ in range(n):
        v, out = run_replay(binary, rec, timeout=STALL if rec["kind"] == "stall" else 90)
        if v == {"violation": "violated"}.get(rec["kind"], rec["kind"]):
            hits += 1
    rec["replayed"] = "%d of %d" % (hits, n)
    return hits == n if rec["kind"] == "stall" else hits >= (1 if "data race" in rec["what"] else 3)


def known_findings():
    p = os.path.join(V, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--selftest":
        sys.exit(subprocess.call([build("plain"), "-selftest"], env=env()))
    if a and a[0] == "--replay":
        rec = json.load(open(a[1]))
        if rec["kind"] == "generator":
            try:
                drop(build("tsgen" if rec["property"] == "P30" else "gen"))
                print("verdict: held")
                sys.exit(0)
            except GenFailure as e:
                print("%s\nverdict: violated" % e)
                sys.exit(1)
        binary = build(kind_of(dict(rec, name=rec["scenario"])))
        if rec["property"] == "P31":
            os.environ["VERIF_FAR"] = build("plain")
        v, out = run_replay(binary, rec, trace="--trace" in a)
        drop(binary)
        if "VERIF_FAR" in os.environ:
            drop(os.environ["VERIF_FAR"])
        print(out)
        print("verdict:", v)
        sys.exit(0 if v == "held" else 1)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    first = "tsgen" if prop == "P30" else "ts" if prop in TS else "plain"
    binaries, scs = {}, []
    try:
        binaries[first] = build(first)
        if prop == "P31":
            binaries["plain"] = os.environ["VERIF_FAR"] = build("plain")
        lst = subprocess.run([binaries[first], "-list", "-prop", prop, "-tier", tier], stdout=subprocess.PIPE, check=True, env=env())
        scs = json.loads(lst.stdout)
        if not scs:
            print("no scenarios for", prop)
            sys.exit(2)
        for k in {kind_of(s) for s in scs} - {first}:
            binaries[k] = build(k)
    except GenFailure as e:
        rec = {"property": prop, "scenario": prop + "/generator", "tier": tier, "race": False, "gen": True, "kind": "generator",
               "what": "the generated code cannot be built\n%s" % e}
        rc = report(prop, tier, scs, [], [rec], [], t0, time.time() - t0)
        for b in binaries.values():
            drop(b)
        sys.exit(rc)
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-", dir=B)
    try:
        rc = explore(prop, tier, scs, binaries, tmp, t0, tbuild)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for b in binaries.values():
            drop(b)
    sys.exit(rc)


def explore(prop, tier, scs, binaries, tmp, t0, tbuild):
    wall = THOROUGH_WALL if tier == "thorough" else QUICK_WALL
    wall = float(os.environ.get("VERIF_WALL", wall))
    limit = wall if tier == "thorough" else min(wall, float(os.environ.get("VERIF_MORE", QUICK_MORE)))
    start = time.time()
    done, viol, errors, more = [], [], [], []
    n = rnd(prop, tier, [(s, -1) for s in scs], wall, start, binaries, tmp, 0, done, viol, errors)
    # Every scenario has had its turn. With time left, those that reached their bound go
    # beyond it, the cheapest first; what that covers is reported separately.
    last = {s["name"]: (s, r) for s, r in done}
    while not viol and not errors and time.time() - start < limit - 3:
        todo = [(s, r) for s, r in last.values() if not r["fully_explored"] and r["completed"] == r["bound"]]
        todo.sort(key=lambda x: x[1]["wall_s"])
        if not todo:
            break
        got = []
        n = rnd(prop, tier, [(dict(s, weight=1), r["bound"] + 1) for s, r in todo[:4 * NCPU]], limit, start, binaries, tmp, n, got, viol, errors)
        more += got
        for s, r in got:
            last[s["name"]] = (s, r)
    return report(prop, tier, scs, done, viol, errors, t0, tbuild, more)


def rnd(prop, tier, jobs, wall, start, binaries, tmp, n, done, viol, errors):
    total_w = sum(s["weight"] for s, _ in jobs)
    todo = sorted(jobs, key=lambda s: -s[0]["weight"])
    running = []
    # With at most NCPU scenarios each one may use the whole time; otherwise shares. Time
    # that finished scenarios did not use is handed on.
    left_w = total_w
    while todo or running:
        while todo and len(running) < NCPU:
            s, bound = todo.pop(0)
            remain = max(wall - (time.time() - start), 2.0)
            slots = NCPU
            share = remain if len(todo) + len(running) < slots else remain * slots * s["weight"] / max(left_w, 1)
            share = max(2.0, min(share, remain))
            left_w -= s["weight"]
            running.append(Worker(binaries[kind_of(s)], s, tier, share, tmp, n, bound))
            n += 1
        time.sleep(0.02)
        for w in list(running):
            if not w.poll():
                continue
            running.remove(w)
            rep, rec = None, None
            if os.path.exists(w.out) and w.p.returncode == 0:
                rep = json.load(open(w.out))
            base = {"property": prop, "scenario": w.sc["name"], "tier": tier, "race": w.sc["race"], "gen": w.sc["gen"], "ts": bool(w.sc.get("ts"))}
            text = open(w.err, "rb").read().decode("utf-8", "replace")
            if rep is not None:
                done.append((w.sc, rep))
                if rep.get("err"):
                    errors.append("%s: %s" % (w.sc["name"], rep["err"]))
                if rep.get("violation"):
                    rec = dict(base, kind="violation", what=rep["violation"], prefix=rep.get("prefix") or [],
                               site_list=rep.get("site_list"), filter=rep.get("filter"))
            else:
                st = w.state()
                kind = "stall" if w.stalled else "crash"
                what = ("an execution does not terminate and performs no operation" if w.stalled
                        else "the process crashed (exit status %s)" % w.p.returncode)
                if st is None or st[0] == st[1]:
                    errors.append("%s: worker failed outside an execution: %s" % (w.sc["name"], text[-2000:]))
                else:
                    m = re.search(r"(?m)^(fatal error: .*|panic: .*|runtime: .*)$", text)
                    if m:
                        what += ": " + m.group(1)
                    # the shared-site set of a dead worker is unknown: replay with none recorded
                    rec = dict(base, kind=kind, what=what + "\n" + text[:12000], prefix=st[3], sites_from=w.sc["name"])
                    sf = w.status + ".sites"
                    if os.path.exists(sf):
                        rec.update(json.load(open(sf)))
            if rec is not None:
                binary = binaries[kind_of(w.sc)]
                if confirm(binary, rec):
                    viol.append(rec)
                else:
                    errors.append("%s: %s did not reproduce in a fresh process (%s): %s" % (
                        w.sc["name"], rec["kind"], rec["replayed"], rec["what"][:3000]))
            if viol:
                new = [v for v in viol if not is_known(prop, v)]
                if new:
                    for o in running:
                        o.p.kill()
                        o.p.wait()
                        o.f.close()
                    running, todo = [], []
                    break
    return n


def is_known(prop, rec):
    first = rec["what"].split("\n")[0]
    for k in known_findings():
        if k["property"] == prop and k["scenario"] == rec["scenario"] and re.fullmatch(k["match"], first):
            return k
    return None


def report(prop, tier, scs, done, viol, errors, t0, tbuild, more=()):
    rc = 0
    printed = set()
    new = []
    for v in viol:
        k = is_known(prop, v)
        if k:
            printed.add(k["what"])
        else:
            new.append(v)
    for w in sorted(printed):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for i, v in enumerate(new):
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        p = os.path.join(V, "replays", "%s-%d.json" % (prop, i))
        json.dump(v, open(p, "w"), indent=1)
        print("scenario %s: %s" % (v["scenario"], v["what"][:6000]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    ex = sum(r["executions"] for _, r in done) + sum(r["executions"] for _, r in more)
    scen = []
    for s, r in sorted(done, key=lambda x: x[0]["name"]):
        scen.append({
            "scenario": s["name"], "what": r.get("doc", ""), "race_detector": s["race"],
            "executions": r["executions"], "input_cases_enumerated_inside_executions": r.get("input_cases", 0), "states": r["states"], "transitions": r["transitions"],
            "operations": r["events"], "max_decisions_per_execution": r["max_decisions"],
            "preemptible_call_sites": r["shared_sites"], "passes": r["passes"],
            "deviation_bound": r["bound"], "deviation_bound_completed": r["completed"],
            "fully_explored_without_bound": r["fully_explored"], "levels": r["levels"],
            "distinct_outcomes": r["distinct_outcomes"], "outcomes": r["outcomes"], "wall_s": round(r["wall_s"], 2)})
    beyond = [{"scenario": s["name"], "deviation_bound": r["bound"], "deviation_bound_completed": r["completed"],
               "fully_explored_without_bound": r["fully_explored"], "executions": r["executions"], "states": r["states"],
               "transitions": r["transitions"], "operations": r["events"], "wall_s": round(r["wall_s"], 2)} for s, r in more]
    exhaustive = (not errors and len(done) == len(scs) and not new and
                  all(r["completed"] == r["bound"] for _, r in done))
    samples = []
    for s, r in done:
        for x in (r.get("samples") or [])[:2]:
            samples.append("%s: %s" % (s["name"], x))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for _, r in done),
            "transitions": sum(r["transitions"] for _, r in done),
            "traces_validated_against_impl": ex,
            "exhaustive": exhaustive,
            "samples": samples[:24],
            "rule": RULE["ts" if prop in TS else "go"],
            "scenarios": scen,
            "beyond_the_bound_in_the_time_left": beyond,
        },
        "assumptions": ASSUME["ts" if prop in TS else "go"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if errors:
        ev["coverage"]["engine_errors"] = errors
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for s in scen:
        print("%-40s exec=%-8d cases=%-8d states=%-9d bound=%d completed=%d%s outcomes=%d %.1fs" % (
            s["scenario"], s["executions"], s["input_cases_enumerated_inside_executions"], s["states"], s["deviation_bound"], s["deviation_bound_completed"],
            " (full)" if s["fully_explored_without_bound"] else "", s["distinct_outcomes"], s["wall_s"]))
    if beyond:
        print("beyond: " + ", ".join("%s %d%s" % (x["scenario"].split("/", 1)[1], x["deviation_bound_completed"],
              " (full)" if x["fully_explored_without_bound"] else "") for x in beyond))
    for e in errors:
        print("engine:", e)
    if rc == 0 and errors:
        rc = 2
    print("%s %s: %s, %d executions, %.1fs (build %.1fs)" % (prop, tier, {0: "held", 1: "VIOLATED", 2: "NO ANSWER"}[rc], ex, time.time() - t0, tbuild))
    return rc


if __name__ == "__main__":
    main()
