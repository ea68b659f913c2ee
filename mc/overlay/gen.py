#!/usr/bin/env python3
"""Generate the `go build -overlay` tree that turns the Go 1.24.13 runtime into a
controlled scheduler (see DESIGN.md, "Engine").  Every edit is an exact anchored
replacement: if an anchor is not found exactly once the generator fails loudly.

usage: gen.py GOROOT OUTDIR      -> writes OUTDIR/{plain,race}.json + patched files
"""
import json, os, re, sys

GOROOT, OUT = sys.argv[1], sys.argv[2]
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(GOROOT, "src")
ver = open(os.path.join(GOROOT, "VERSION")).readline().strip()
if ver != "go1.24.13":
    sys.exit("overlay is pinned to go1.24.13, found " + ver)

files = {}

def load(rel):
    if rel not in files:
        files[rel] = open(os.path.join(SRC, rel)).read()
    return files[rel]

def sub(rel, old, new, count=1):
    t = load(rel)
    if t.count(old) != count:
        sys.exit("%s: anchor found %d times, want %d:\n%s" % (rel, t.count(old), count, old))
    files[rel] = t.replace(old, new)

def after(rel, anchor, text):
    sub(rel, anchor, anchor + text)

# ---------------------------------------------------------------- net: harness transports for Dial and Listen
sub("net/dial.go", """	if ctx == nil {
		panic("nil context")
	}
""", """	if VerifDial != nil {
		return VerifDial(ctx, network, address)
	}
	if ctx == nil {
		panic("nil context")
	}
""")
sub("net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", """// VerifDial and VerifListen replace Dial and Listen when set (see /verif).
var (
	VerifDial   func(ctx context.Context, network, address string) (Conn, error)
	VerifListen func(ctx context.Context, network, address string) (Listener, error)
)

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if VerifListen != nil {
		return VerifListen(ctx, network, address)
	}
""")

# ---------------------------------------------------------------- runtime
after("runtime/runtime2.go", "	gcAssistBytes int64\n", """
	// verif: controlled-scheduler state (see verif.go)
	verif    uint32 // != 0: goroutine of the controlled execution
	vnop     int32  // depth of no-preemption regions
	vquiet   int32  // depth of unobservable regions
	vid      uint64 // schedule-independent identity
	vh       uint64 // happens-before hash of this goroutine's history
	vc       uint64 // current contribution to the state fingerprint
	vchild   uint64 // children spawned so far
	vrng     uint64
	vobj     uintptr // object a VerifBlock'ed goroutine waits on
	vidx     int32   // index in verif.all
	vtimer   int32   // timer entry + 1 while in time.Sleep
	vstat    uint8
	vci      int32  // vector clock index
	vsite    uint64 // call site of the pending operation
	vclk     [verifMaxCl]uint32
	vfn      *funcval // function of a controlled goroutine
	vtf      func(arg any, seq uintptr, delay int64)
	vtarg    any
""")

P = "runtime/proc.go"
sub(P, """	systemstack(func() {
		newg := newproc1(fn, gp, pc, false, waitReasonZero)
""", """	if gp.verif != 0 && verif.active {
		verifEvent(gp, verifKSpawn, 0, true)
		f := verifStartF
		vfn := fn
		systemstack(func() {
			newg := newproc1(*(**funcval)(unsafe.Pointer(&f)), gp, pc, false, waitReasonZero)
			newg.vfn = vfn
			runqput(getg().m.p.ptr(), newg, true)
		})
		return
	}
	systemstack(func() {
		newg := newproc1(fn, gp, pc, false, waitReasonZero)
""")
after(P, """	if readgstatus(newg) != _Gdead {
		throw("newproc1: new g is not Gdead")
	}
""", """	verifInit(newg, callergp)
""")
sub(P, """	if !haveSysmon && next {
		// A runnext""", """	if gp.verif != 0 && verif.active {
		verifReady(gp)
		return
	}
	if !haveSysmon && next {
		// A runnext""")
sub(P, """	assertLockHeld(&sched.lock)

	sched.runq.pushBack(gp)
	sched.runqsize++
""", """	assertLockHeld(&sched.lock)
	if gp.verif != 0 && verif.active {
		verifReady(gp)
		return
	}

	sched.runq.pushBack(gp)
	sched.runqsize++
""")
sub(P, """	casgstatus(gp, _Grunning, _Gwaiting)
	if trace.ok() {
		traceRelease(trace)
	}

	dropg()

	if fn := mp.waitunlockf; fn != nil {
		ok := fn(gp, mp.waitlock)
		mp.waitunlockf = nil
		mp.waitlock = nil
		if !ok {
			trace := traceAcquire()
			casgstatus(gp, _Gwaiting, _Grunnable)
""", """	casgstatus(gp, _Grunning, _Gwaiting)
	if trace.ok() {
		traceRelease(trace)
	}
	if gp.verif != 0 && verif.active {
		verifSetStat(gp, verifSBlocked)
	}

	dropg()

	if fn := mp.waitunlockf; fn != nil {
		ok := fn(gp, mp.waitlock)
		mp.waitunlockf = nil
		mp.waitlock = nil
		if !ok {
			if gp.verif != 0 && verif.active {
				verifSetStat(gp, verifSRunnable)
			}
			trace := traceAcquire()
			casgstatus(gp, _Gwaiting, _Grunnable)
""")
after(P, """	casgstatus(gp, _Grunning, _Gdead)
	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))
""", """	verifDestroy(gp)
""")
sub(P, """	// Poll network.
	// This netpoll is only an optimization before we resort to stealing.
""", """	if verif.active {
		if gp := verifPick(); gp != nil {
			return gp, false, false
		}
	}

	// Poll network.
	// This netpoll is only an optimization before we resort to stealing.
""")
after(P, "func retake(now int64) uint32 {\n", """	if verif.active {
		return 0
	}
""")
sub("runtime/stack.go", "		if !canPreemptM(thisg.m) {\n", "		if !canPreemptM(thisg.m) || (verif.active && gp.verif != 0) {\n")

C = "runtime/chan.go"
after(C, """		gopark(nil, nil, waitReasonChanSendNilChan, traceBlockForever, 2)
		throw("unreachable")
	}
""", "	verifPoint(verifKSend, uintptr(unsafe.Pointer(c)), true)\n")
after(C, """		gopark(nil, nil, waitReasonChanReceiveNilChan, traceBlockForever, 2)
		throw("unreachable")
	}
""", "	verifRecv(c)\n")
after(C, """		panic(plainError("close of nil channel"))
	}
""", "	verifPoint(verifKClose, uintptr(unsafe.Pointer(c)), true)\n")
# len(ch)/cap(ch) reads are compiled inline and are not scheduling points.

S = "runtime/select.go"
sub(S, """	if debugSelect {
		print("select: cas0=", cas0, "\\n")
	}
""", """	if debugSelect {
		print("select: cas0=", cas0, "\\n")
	}
	vctl := gp.verif != 0 && verif.active && gp.m.locks == 0
	if vctl {
		verifPoint(verifKSelect, 0, false)
	}
""")
sub(S, "		j := cheaprandn(uint32(norder + 1))\n", """		j := uint32(norder)
		if !vctl {
			j = cheaprandn(uint32(norder + 1))
		}
""")
sub(S, """	// pass 1 - look for something already waiting
	var casi int
""", """	var vskip int
	if vctl {
		vskip = verifSelect(gp, scases, pollorder, nsends)
	}

	// pass 1 - look for something already waiting
	var casi int
""")
sub(S, """		cas = &scases[casi]
		c = cas.c

		if casi >= nsends {
			sg = c.sendq.dequeue()
""", """		cas = &scases[casi]
		c = cas.c
		if vskip > 0 && verifCaseReady(c, casi < nsends) {
			vskip--
			continue
		}

		if casi >= nsends {
			sg = c.sendq.dequeue()
""")
sub(S, """	gopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)
	gp.activeStackChans = false
""", """	gopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)
	gp.activeStackChans = false
	if vctl {
		verifSelectDone(gp, scases)
	}
""")

M = "runtime/sema.go"
sub(M, """		goparkunlock(&root.lock, reason, traceBlockSync, 4+skipframes)
		if s.ticket""", """		goparkunlock(&root.lock, reason, traceBlockSync, 4+skipframes)
		verifEvent(gp, verifKSema, uintptr(unsafe.Pointer(addr)), true)
		if s.ticket""")
sub(M, """	// Easy case.
	if cansemacquire(addr) {
		return
	}
""", """	verifEvent(gp, verifKSema, uintptr(unsafe.Pointer(addr)), true)
	// Easy case.
	if cansemacquire(addr) {
		return
	}
""")
sub(M, """	root := semtable.rootFor(addr)
	atomic.Xadd(addr, 1)
""", """	verifEvent(getg(), verifKSema, uintptr(unsafe.Pointer(addr)), true)
	root := semtable.rootFor(addr)
	atomic.Xadd(addr, 1)
""")
sub(M, "	return l.wait.Add(1) - 1\n", """	verifPoint(verifKCond, uintptr(unsafe.Pointer(l)), true)
	return l.wait.Add(1) - 1
""")
sub(M, "func notifyListWait(l *notifyList, t uint32) {\n", """func notifyListWait(l *notifyList, t uint32) {
	verifPoint(verifKCond, uintptr(unsafe.Pointer(l)), true)
""")
sub(M, "func notifyListNotifyAll(l *notifyList) {\n", """func notifyListNotifyAll(l *notifyList) {
	verifPoint(verifKCond, uintptr(unsafe.Pointer(l)), true)
""")
sub(M, "func notifyListNotifyOne(l *notifyList) {\n", """func notifyListNotifyOne(l *notifyList) {
	verifPoint(verifKCond, uintptr(unsafe.Pointer(l)), true)
""")
sub(M, """func internal_sync_nanotime() int64 {
	return nanotime()
""", """func internal_sync_nanotime() int64 {
	if verif.active && getg().verif != 0 {
		return verif.now
	}
	return nanotime()
""")

R = "runtime/rand.go"
sub(R, """	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next""", """	if gp := getg(); gp.verif != 0 && verif.active {
		return verifRand(gp)
	}
	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next""")

T = "runtime/time.go"
sub(T, """func time_runtimeNow() (sec int64, nsec int32, mono int64) {
""", """func time_runtimeNow() (sec int64, nsec int32, mono int64) {
	if verif.active && getg().verif != 0 {
		t := verif.now
		return 1700000000 + t/1000000000, int32(t % 1000000000), t
	}
""")
sub(T, """func time_runtimeNano() int64 {
	gp := getg()
""", """func time_runtimeNano() int64 {
	gp := getg()
	if verif.active && gp.verif != 0 {
		return verif.now
	}
""")
sub(T, """	if ns <= 0 {
		return
	}

	gp := getg()
""", """	if ns <= 0 {
		return
	}

	gp := getg()
	if gp.verif != 0 && verif.active {
		verifSleep(gp, ns)
		return
	}
""")
sub(T, """	t := new(timeTimer)
	t.timer.init(nil, nil)
	t.trace("new")
""", """	t := new(timeTimer)
	t.timer.init(nil, nil)
	t.trace("new")
	if gp := getg(); gp.verif != 0 && verif.active {
		t.init = true
		verifTimerSet(gp, t, when, period, f, arg)
		return t
	}
""")
sub(T, """func stopTimer(t *timeTimer) bool {
""", """func stopTimer(t *timeTimer) bool {
	if gp := getg(); gp.verif != 0 && verif.active {
		return verifTimerStop(gp, t)
	}
""")
sub(T, """func resetTimer(t *timeTimer, when, period int64) bool {
""", """func resetTimer(t *timeTimer, when, period int64) bool {
	if gp := getg(); gp.verif != 0 && verif.active {
		return verifTimerReset(gp, t, when, period)
	}
""")

# deterministic hash seeds (map layout must not differ between processes)
AL = "runtime/alg.go"
t = load(AL)
if t.count("= uintptr(bootstrapRand())") != 1 or t.count("= bootstrapRand()") != 1:
    sys.exit("alg.go: anchors")
t = t.replace("= uintptr(bootstrapRand())", "= uintptr(0x9e3779b97f4a7c15 + uint64(i)*0x1234567)").replace("= bootstrapRand()", "= 0x9e3779b97f4a7c15 + uint64(i)*0x7654321")
files[AL] = t

files["runtime/verif.go"] = open(os.path.join(HERE, "verif.go.in")).read()

# ---------------------------------------------------------------- internal/sync
I = "internal/sync/mutex.go"
sub(I, """func (m *Mutex) Lock() {
""", """func (m *Mutex) Lock() {
	verifPoint(verifKLock, uintptr(unsafe.Pointer(m)), true)
""")
sub(I, """func (m *Mutex) TryLock() bool {
""", """func (m *Mutex) TryLock() bool {
	verifPoint(verifKLock, uintptr(unsafe.Pointer(m)), true)
""")
sub(I, """func (m *Mutex) Unlock() {
""", """func (m *Mutex) Unlock() {
	verifEv(verifKUnlock, uintptr(unsafe.Pointer(m)), true)
""")
after(I, "			runtime_SemacquireMutex(&m.sema, queueLifo, 2)\n", "			verifEv(verifKLock, uintptr(unsafe.Pointer(m)), true)\n")
sub(I, "		if old&(mutexLocked|mutexStarving) == mutexLocked && runtime_canSpin(iter) {", "		if !verifOn() && old&(mutexLocked|mutexStarving) == mutexLocked && runtime_canSpin(iter) {")
after("internal/sync/runtime.go", """//go:linkname fatal
func fatal(string)
""", """
const (
	verifKLock   = 1
	verifKUnlock = 2
)

//go:linkname verifPoint runtime.verifPoint
func verifPoint(kind uint8, obj uintptr, write bool)

//go:linkname verifEv runtime.verifEv
func verifEv(kind uint8, obj uintptr, write bool)

//go:linkname verifOn runtime.verifOn
func verifOn() bool
""")

# ---------------------------------------------------------------- sync.Pool
# Contents are dropped at the start of every execution (no state leaks from one
# execution to the next); the lazy per-P setup is not observable.
PO = "sync/pool.go"
sub(PO, "		if runtime_randn(4) == 0 {\n", "		if !verifOn() && runtime_randn(4) == 0 {\n")
sub(PO, """	noCopy noCopy

	local """, """	noCopy   noCopy
	verifGen uint64

	local """)
sub(PO, """	if x == nil {
		return
	}
	if race.Enabled {
""", """	if x == nil {
		return
	}
	p.verifEnter()
	if race.Enabled {
""")
sub(PO, """func (p *Pool) Get() any {
""", """func (p *Pool) Get() any {
	p.verifEnter()
""")
sub(PO, """	runtime_procUnpin()
	allPoolsMu.Lock()
	defer allPoolsMu.Unlock()
""", """	runtime_procUnpin()
	verifQuiet(1)
	defer verifQuiet(-1)
	allPoolsMu.Lock()
	defer allPoolsMu.Unlock()
""")
after(PO, "func runtime_randn(n uint32) uint32\n", """
const verifKPool = 13

//go:linkname verifPoint runtime.verifPoint
func verifPoint(kind uint8, obj uintptr, write bool)

//go:linkname verifOn runtime.verifOn
func verifOn() bool

//go:linkname verifQuiet runtime.verifQuiet
func verifQuiet(d int32)

//go:linkname verifGeneration runtime.verifGeneration
func verifGeneration() uint64

func (p *Pool) verifEnter() {
	g := verifGeneration()
	if g == 0 {
		return
	}
	verifPoint(verifKPool, uintptr(unsafe.Pointer(p)), true)
	if p.verifGen != g {
		p.verifGen = g
		p.local, p.localSize, p.victim, p.victimSize = nil, 0, nil, 0
	}
}
""")

# ---------------------------------------------------------------- sync/atomic
A = "sync/atomic/type.go"
t = load(A)
hooked = 0
def hook(m):
    global hooked
    recv, name = m.group(1), m.group(2)
    hooked += 1
    w = "false" if name == "Load" else "true"
    return m.group(0) + "\n	verifAtomic(verifKAtomic, uintptr(unsafe.Pointer(&x.v)), %s)\n" % w
# one-line bodies: `func (x *T) M(..) r { stmt }`
t = re.sub(r"(?m)^(func \(x \*\w+(?:\[T\])?\) (Load|Store|Swap|CompareAndSwap|Add|And|Or)\(.*) \{ (.*) \}$",
           r"\1 {\n\t\3\n}", t)
t = re.sub(r"(?m)^func \(x (\*\w+(?:\[T\])?)\) (Load|Store|Swap|CompareAndSwap|Add|And|Or)\(.*\{$", hook, t)
if hooked != 43:
    sys.exit("sync/atomic: hooked %d methods, want 43" % hooked)
files[A] = t
V = "sync/atomic/value.go"
for sig, w in (("func (v *Value) Load() (val any) {\n", "false"), ("func (v *Value) Store(val any) {\n", "true"),
               ("func (v *Value) Swap(new any) (old any) {\n", "true"), ("func (v *Value) CompareAndSwap(old, new any) (swapped bool) {\n", "true")):
    after(V, sig, "	verifAtomic(verifKAtomic, uintptr(unsafe.Pointer(v)), %s)\n" % w)
after(V, "func runtime_procUnpin()\n", """
const verifKAtomic = 12

//go:linkname verifAtomic runtime.verifPoint
func verifAtomic(kind uint8, obj uintptr, write bool)
""")

plain = dict(files)
# functional atomics (only reached from packages built with -d=ssa/intrinsics/off)
D = "sync/atomic/doc.go"
D64 = "sync/atomic/doc_64.go"
asm = open(os.path.join(SRC, "sync/atomic/asm.s")).read()
nf = 0
def fn(m):
    global nf, asm
    name, params, res = m.group(1), m.group(2), m.group(3)
    names = [x.strip().split()[0] for x in params.split(",")]
    w = "false" if name.startswith("Load") else "true"
    sym = "TEXT ·%s(SB)" % name
    if asm.count(sym) != 1:
        sys.exit("asm.s: no " + sym)
    asm = asm.replace(sym, "TEXT ·verif%s(SB)" % name)
    nf += 1
    call = "verif%s(%s)" % (name, ", ".join(names))
    if res.strip():
        call = "return " + call
    return ("func %s(%s)%s {\n\tverifAtomic(verifKAtomic, uintptr(unsafe.Pointer(addr)), %s)\n\t%s\n}\n\n//go:noescape\nfunc verif%s(%s)%s"
            % (name, params, res, w, call, name, params, res))
for d in (D, D64):
    plain[d] = load(d).replace('package atomic\n', 'package atomic\n\nimport "unsafe"\n', 1) if d == D64 else load(d)
    plain[d] = re.sub(r"(?m)^//go:noescape\nfunc ((?:Swap|CompareAndSwap|Add|And|Or|Load|Store)(?:Int32|Uint32|Int64|Uint64))\((.*?)\)(.*)$", fn, plain[d])
if nf != 28:
    sys.exit("doc.go: %d functional atomics, want 28" % nf)
plain["sync/atomic/asm.s"] = asm
race = dict(files)
race.pop(D, None)
race.pop(D64, None)

def emit(name, fs):
    d = os.path.join(OUT, name)
    rep = {}
    for rel, txt in fs.items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        old = open(p).read() if os.path.exists(p) else None
        if old != txt:
            open(p, "w").write(txt)
        rep[os.path.join(SRC, rel)] = p
    json.dump({"Replace": rep}, open(os.path.join(OUT, name + ".json"), "w"), indent=1, sort_keys=True)

emit("plain", plain)
emit("race", race)
