// Package mc is a stateless model checker for Go code.
//
// A Scenario is a closed driver around real code. Run enumerates every execution of
// the scenario whose number of deviations (preemptions, and whatever else the
// scenario declares to cost a deviation) is within a bound, using the scheduler
// patched into the Go runtime (see ../overlay). Executions reaching a state that has
// already been expanded (same happens-before fingerprint, same running goroutine)
// are not expanded again.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Prop, Name string
	// Main runs as the root goroutine of every execution.
	Main func(t *T)
	// Free lists choice kinds: BlockCost is the cost of not running the first ready
	// goroutine when the running one blocks; SelCost of not taking the first ready case.
	// 0 means one deviation; use Free for no cost.
	BlockCost, SelCost uint8
	// MaxCost bounds deviations per tier.
	Quick, Thorough int
	// Weight is the share of the property's time budget (default 1).
	Weight int
	// ThoroughOnly scenarios are skipped in the quick tier.
	ThoroughOnly bool
	MaxEvents    int64
	Horizon      time.Duration
	// Leaks allows goroutines to remain blocked at the end.
	Leaks bool
	// Race scenarios run only in the race-detector build.
	Race bool
	// Gen scenarios run only in the build that contains the generated services.
	Gen bool
	// RaceOnly scenarios report nothing but data races and crashes.
	RaceOnly bool
	// Doc says what is enumerated.
	Doc string
}

// T is the handle of one execution.
type T struct {
	mu       sync.Mutex
	failed   string
	outcomes []string
	gors     []*gor
	Tier     string
}

// gor is a goroutine started with Go.
type gor struct {
	name string
	done uint32
}

// Failf records a violation (the first one wins).
func (t *T) Failf(format string, a ...any) {
	quiet(func() {
		t.mu.Lock()
		if t.failed == "" {
			t.failed = fmt.Sprintf(format, a...)
		}
		t.mu.Unlock()
	})
}

// Failed reports whether a violation was recorded.
func (t *T) Failed() bool { return t.failed != "" }

// Outcome records an observable result of this execution (for non-vacuity statistics).
func (t *T) Outcome(format string, a ...any) {
	quiet(func() {
		t.mu.Lock()
		t.outcomes = append(t.outcomes, fmt.Sprintf(format, a...))
		t.mu.Unlock()
	})
}

func quiet(f func()) {
	runtime.VerifQuiet(1)
	f()
	runtime.VerifQuiet(-1)
}

// Quiet runs f (which must not block) without scheduling points and without recording events.
func Quiet(f func()) { quiet(f) }

// Choose enumerates all values in [0,n) at no deviation cost.
func (t *T) Choose(n int) int { return runtime.VerifChoose(n, 0) }

// Deviate enumerates [0,n); every value but 0 costs one deviation.
func (t *T) Deviate(n int) int { return runtime.VerifChoose(n, 1) }

// Bool is Choose(2)==1.
func (t *T) Bool() bool { return runtime.VerifChoose(2, 0) == 1 }

// Go starts a named goroutine whose completion Pending reports.
func (t *T) Go(name string, f func()) {
	g := &gor{name: name}
	quiet(func() {
		t.mu.Lock()
		t.gors = append(t.gors, g)
		t.mu.Unlock()
	})
	go func() {
		defer atomic.StoreUint32(&g.done, 1)
		defer t.Publish()
		f()
	}()
}

// Idle waits until no other goroutine can make progress (before virtual time advances).
func (t *T) Idle() {
	runtime.VerifIdle()
	raceAcquire(unsafe.Pointer(t))
}

// Publish makes what the calling goroutine did so far visible to Idle for the race
// detector, as finishing does for goroutines started with Go.
func (t *T) Publish() { raceRelease(unsafe.Pointer(t)) }

// Pending lists the goroutines started with Go that did not finish.
func (t *T) Pending() []string {
	var out []string
	quiet(func() {
		t.mu.Lock()
		for _, g := range t.gors {
			if atomic.LoadUint32(&g.done) == 0 {
				out = append(out, g.name)
			}
		}
		t.mu.Unlock()
	})
	sort.Strings(out)
	return out
}

// MustFinish runs to quiescence and fails if a Go goroutine is still blocked.
func (t *T) MustFinish(what string) bool {
	t.Idle()
	if p := t.Pending(); len(p) != 0 {
		t.Failf("%s: blocked forever: %s", what, strings.Join(p, ","))
		return false
	}
	return true
}

// Live returns the number of live goroutines other than the caller.
func (t *T) Live() int { return runtime.VerifLive() - 1 }

// Var is a piece of harness-owned shared state. Every access is one atomic operation.
type Var struct {
	mu sync.Mutex
	n  uint64
}

// Do runs f atomically as one write to v and wakes waiters. f must not block.
func (v *Var) Do(f func()) {
	runtime.VerifPoint(unsafe.Pointer(&v.n), true)
	runtime.VerifNoPreempt(1)
	quietLock(&v.mu)
	f()
	quietUnlock(&v.mu)
	runtime.VerifWake(unsafe.Pointer(&v.n))
	runtime.VerifNoPreempt(-1)
}

// NoPoint is Do without a preceding scheduling point.
func (v *Var) NoPoint(f func()) {
	runtime.VerifEvent(unsafe.Pointer(&v.n), true)
	runtime.VerifNoPreempt(1)
	quietLock(&v.mu)
	f()
	quietUnlock(&v.mu)
	runtime.VerifWake(unsafe.Pointer(&v.n))
	runtime.VerifNoPreempt(-1)
}

// Wait runs f atomically until it returns true, blocking in between. f must only
// change state when it returns true.
func (v *Var) Wait(f func() bool) {
	for {
		var ok bool
		runtime.VerifPoint(unsafe.Pointer(&v.n), true)
		runtime.VerifNoPreempt(1)
		quietLock(&v.mu)
		ok = f()
		quietUnlock(&v.mu)
		if ok {
			runtime.VerifWake(unsafe.Pointer(&v.n))
		}
		runtime.VerifNoPreempt(-1)
		if ok {
			return
		}
		runtime.VerifBlock(unsafe.Pointer(&v.n))
	}
}

func quietLock(m *sync.Mutex) {
	if RaceOn {
		runtime.VerifQuiet(1)
		m.Lock()
		runtime.VerifQuiet(-1)
	}
}

func quietUnlock(m *sync.Mutex) {
	if RaceOn {
		runtime.VerifQuiet(1)
		m.Unlock()
		runtime.VerifQuiet(-1)
	}
}

// Flag is a one-shot event.
type Flag struct {
	v   Var
	set bool
}

// Set sets the flag.
func (f *Flag) Set() { f.v.Do(func() { f.set = true }) }

// IsSet reads the flag.
func (f *Flag) IsSet() (r bool) { f.v.Do(func() { r = f.set }); return }

// Wait blocks until the flag is set.
func (f *Flag) Wait() { f.v.Wait(func() bool { return f.set }) }

// ---------------------------------------------------------------- explorer

// Report is the outcome of exploring a scenario.
type Report struct {
	Scenario   string         `json:"scenario"`
	Doc        string         `json:"doc,omitempty"`
	Executions int64          `json:"executions"`
	States     int64          `json:"states"`
	Trans      int64          `json:"transitions"`
	Events     int64          `json:"events"`
	Pruned     int64          `json:"pruned_executions"`
	MaxPts     int            `json:"max_decisions"`
	MaxEvents  int64          `json:"max_events"`
	Levels     []Level        `json:"levels"`
	Bound      int            `json:"bound"`          // deviations requested
	Completed  int            `json:"completed"`      // largest bound fully explored, -1 if none
	Unbounded  bool           `json:"fully_explored"` // no unexplored alternative at any cost
	Sites      []string       `json:"-"`
	NSites     int            `json:"shared_sites"`
	Passes     int            `json:"passes"`
	Outcomes   map[string]int `json:"outcomes"`
	NOutcomes  int            `json:"distinct_outcomes"`
	Samples    []string       `json:"samples"`
	WallS      float64        `json:"wall_s"`
	Violation  string         `json:"violation,omitempty"`
	Prefix     []int          `json:"prefix,omitempty"`
	SiteList   []uint64       `json:"site_list,omitempty"`
	Filter     bool           `json:"filter"`
	Cost       int            `json:"cost,omitempty"`
	Err        string         `json:"err,omitempty"`
	Diverged   int            `json:"diverged"`
	Cases      int64          `json:"input_cases"` // inputs enumerated inside executions
}

var cases int64

// Case counts one input checked by a loop inside an execution (see Quiet).
func Case() { cases++ }

// Level is the statistics of one deviation count.
type Level struct {
	Cost       int   `json:"deviations"`
	Executions int64 `json:"executions"`
	States     int64 `json:"new_states"`
	Done       bool  `json:"done"`
}

type pending struct {
	run int32 // index of the parent's choices
	idx int32 // decision to change
	key uint64
	alt uint8
}

// Status is shared with the driver through a mapped file.
type Status interface {
	Begin(cost int, prefix []uint8)
	End()
	Sites(filter bool, l []uint64)
}

// Free makes a choice kind cost no deviation.
const Free = 255

func cost(c uint8) uint8 {
	switch c {
	case 0:
		return 1
	case Free:
		return 0
	}
	return c
}

// Exec runs one execution.
func (s *Scenario) Exec(tier string, prefix []uint8, expKey uint64, tracing bool) (runtime.VerifResult, *T, string) {
	t := &T{Tier: tier}
	maxEv := s.MaxEvents
	if maxEv == 0 {
		maxEv = 200000
	}
	hor := s.Horizon
	if hor == 0 {
		hor = time.Hour
	}
	res := runtime.VerifExec(func() { s.Main(t) }, prefix, expKey, cost(s.BlockCost), cost(s.SelCost), maxEv, int64(hor), tracing)
	v := newRaces()
	switch {
	case v != "":
	case res.Diverged, s.RaceOnly:
	case res.Panicked:
		v = "panic: " + res.PanicMsg + "\n" + string(res.PanicStk)
	case res.Aborted:
		v = fmt.Sprintf("no termination within %d operations (livelock)", maxEv)
	case t.failed != "":
		v = t.failed
	case res.Live != 0 && !s.Leaks && !res.Pruned:
		v = fmt.Sprintf("%d goroutine(s) blocked forever at the end of the execution", res.Live)
		if p := t.pendingNames(); p != "" {
			v += " (" + p + ")"
		}
		v += "\n" + blockedStacks()
	}
	return res, t, v
}

func (t *T) pendingNames() string { return strings.Join(t.Pending(), ",") }

func blockedStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "runtime.verifStart") || strings.Contains(g, "created by") && strings.Contains(g, "starpc") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 12000 {
		s = s[:12000]
	}
	return s
}

var gcTick int

// MaybeGC collects garbage now and then.
func MaybeGC() { maybeGC() }

func maybeGC() {
	gcTick++
	if gcTick&63 == 0 {
		var ms uint64 = runtime.VerifHeapLive()
		if ms > 192<<20+gcFloor {
			runtime.GC()
			gcFloor = runtime.VerifHeapLive()
		}
	}
}

var gcFloor uint64

// explorer is the state of one exploration.
type explorer struct {
	s        *Scenario
	tier     string
	st       Status
	rep      *Report
	deadline time.Time
	prune    bool

	visited []uint64
	runs    [][]uint8
	queues  [][]pending
	beyond  bool
	sites   map[uint64]bool
	fresh   bool
	filter  bool
	// installed is the site set in force (sites may hold newer ones)
	installed []uint64
	bound     int
}

func (x *explorer) reset() {
	runtime.VerifSetVisited(nil, 0, false)
	x.visited = make([]uint64, 1<<18)
	runtime.VerifSetVisited(x.visited, 0, x.prune)
	x.runs = nil
	x.queues = make([][]pending, x.bound+2)
	x.beyond = false
	x.fresh = false
	x.installSites()
}

func (x *explorer) siteList() []uint64 {
	l := make([]uint64, 0, len(x.sites))
	for s := range x.sites {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (x *explorer) installSites() {
	l := x.siteList()
	x.installed = l
	runtime.VerifSetShared(l, x.filter)
	x.st.Sites(x.filter, l)
}

func (x *explorer) grow() {
	n := runtime.VerifVisited()
	if (n+int64(x.rep.MaxPts)*2+4096)*2 <= int64(len(x.visited)) {
		return
	}
	nv := make([]uint64, len(x.visited)*2)
	m := uint64(len(nv) - 1)
	for _, k := range x.visited {
		if k == 0 {
			continue
		}
		i := (k * 0x9e3779b97f4a7c15) >> 20 & m
		for nv[i] != 0 {
			i = (i + 1) & m
		}
		nv[i] = k
	}
	x.visited = nv
	runtime.VerifSetVisited(nv, n, x.prune)
}

// one runs one execution and queues its alternatives.
func (x *explorer) one(prefix []uint8, key uint64, cost int) bool {
	rep, s := x.rep, x.s
	var r runtime.VerifResult
	var t *T
	var v string
	for try := 0; ; try++ {
		x.st.Begin(cost, prefix)
		r, t, v = s.Exec(x.tier, prefix, key, false)
		x.st.End()
		if !r.Diverged {
			break
		}
		rep.Diverged++
		if try == 3 {
			rep.Err = fmt.Sprintf("replay diverged (prefix %s, %d decisions)", compact(prefix), len(r.Pts))
			return false
		}
	}
	rep.Executions++
	rep.Events += r.Events
	if len(r.Pts) > rep.MaxPts {
		rep.MaxPts = len(r.Pts)
	}
	if r.Events > rep.MaxEvents {
		rep.MaxEvents = r.Events
	}
	if r.NFresh != 0 {
		for _, site := range runtime.VerifSites() {
			x.sites[site] = true
		}
		x.fresh = true
	}
	if v != "" {
		rep.violate(x, v, r.Pts, cost)
		return false
	}
	o := ""
	if r.Pruned {
		rep.Pruned++
	} else {
		sort.Strings(t.outcomes)
		o = strings.Join(t.outcomes, "; ")
		if _, ok := rep.Outcomes[o]; ok || len(rep.Outcomes) < 4000 {
			rep.Outcomes[o]++
		}
	}
	runIdx := int32(-1)
	last := int32(0)
	for i := len(prefix); i < len(prefix)+r.NNew && i < len(r.Pts); i++ {
		p := &r.Pts[i]
		rep.States++
		rep.Trans++ // the default edge
		c := cost + int(p.Cost)
		if c > x.bound {
			x.beyond = true
			continue
		}
		for a := 1; a < int(p.N); a++ {
			if runIdx < 0 {
				ch := make([]uint8, len(r.Pts))
				for j := range r.Pts {
					ch[j] = uint8(r.Pts[j].Chosen)
				}
				runIdx = int32(len(x.runs))
				x.runs = append(x.runs, ch)
			}
			last = int32(i)
			x.queues[c] = append(x.queues[c], pending{run: runIdx, idx: int32(i), key: p.Key, alt: uint8(a)})
		}
	}
	if runIdx >= 0 {
		x.runs[runIdx] = append([]uint8(nil), x.runs[runIdx][:last]...)
	}
	if len(rep.Samples) < 3 && !r.Pruned {
		rep.Samples = append(rep.Samples, fmt.Sprintf("choices=[%s] decisions=%d events=%d outcome=%q", compact(prefix), len(r.Pts), r.Events, o))
	}
	x.grow()
	maybeGC()
	return true
}

// level runs everything queued at a cost. max > 0 bounds the number of executions.
func (x *explorer) level(cost int, max int64) (ok, done bool) {
	if cost == 0 {
		if !x.one(nil, 0, 0) {
			return false, false
		}
	}
	n := int64(0)
	for len(x.queues[cost]) > 0 {
		q := x.queues[cost]
		p := q[len(q)-1]
		x.queues[cost] = q[:len(q)-1]
		prefix := make([]uint8, p.idx+1)
		copy(prefix, x.runs[p.run][:p.idx])
		prefix[p.idx] = p.alt
		x.rep.Trans++
		if !x.one(prefix, p.key, cost) {
			return false, false
		}
		n++
		if n&15 == 0 && (time.Now().After(x.deadline) || max > 0 && n >= max) && len(x.queues[cost]) > 0 {
			return true, false
		}
	}
	return true, true
}

// Options of an exploration.
type Options struct {
	Tier     string
	Bound    int // when not negative, instead of the scenario's
	Budget   time.Duration
	Prune    bool // stop executions that reach a visited state
	NoFilter bool // consider every operation a preemption point
}

// Explore enumerates the scenario.
func Explore(s *Scenario, opt Options, st Status) *Report {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	cases0 := cases
	rep := &Report{Scenario: s.Name, Doc: s.Doc, Outcomes: map[string]int{}, Completed: -1}
	x := &explorer{s: s, tier: opt.Tier, st: st, rep: rep, prune: opt.Prune, sites: map[uint64]bool{}}
	x.bound = s.Quick
	if opt.Tier == "thorough" && s.Thorough > x.bound {
		x.bound = s.Thorough
	}
	if opt.Bound >= 0 {
		x.bound = opt.Bound
	}
	rep.Bound = x.bound
	start := time.Now()
	x.deadline = start.Add(opt.Budget)
	defer func() {
		rep.WallS = time.Since(start).Seconds()
		rep.NSites = len(x.sites)
		rep.Filter = x.filter
		if rep.Violation != "" {
			rep.SiteList = x.installed
		}
	}()

	// Warm up lazily initialized globals, then check determinism.
	var ref runtime.VerifResult
	runtime.VerifSetVisited(nil, 0, false)
	runtime.VerifSetShared(nil, false)
	for i := 0; i < 4; i++ {
		st.Begin(0, nil)
		r, _, v := s.Exec(opt.Tier, nil, 0, false)
		st.End()
		if v != "" {
			rep.violate(x, v, r.Pts, 0)
			return rep
		}
		if i == 3 && (len(r.Pts) != len(ref.Pts) || r.F != ref.F || r.Events != ref.Events) {
			rep.Err = fmt.Sprintf("nondeterministic default execution: %d/%d decisions, %d/%d events", len(r.Pts), len(ref.Pts), r.Events, ref.Events)
			return rep
		}
		ref = r
	}

	// Learn which call sites conflict, with preemption everywhere.
	if !opt.NoFilter {
		learn := int64(1500)
		full := x.bound
		if full == 0 {
			learn = 64 // sites matter to deviations only
		}
		x.bound = 1
		x.reset()
		d := x.deadline
		x.deadline = start.Add(opt.Budget / 4)
		for c := 0; c <= 1; c++ {
			ok, done := x.level(c, learn)
			if !ok {
				return rep
			}
			if !done {
				break
			}
		}
		x.deadline = d
		x.bound = full
		x.filter = true
	}
	for {
		rep.Passes++
		rep.Levels = nil
		rep.Completed = -1
		rep.States, rep.Trans = 0, 0
		x.reset()
		again := false
		for cost := 0; cost <= x.bound; cost++ {
			e0, s0 := rep.Executions, rep.States
			ok, done := x.level(cost, 0)
			if !ok {
				return rep
			}
			if x.fresh && x.filter && (done || time.Now().Before(x.deadline)) {
				again = true // newly discovered conflicting sites: start over
				break
			}
			rep.Levels = append(rep.Levels, Level{Cost: cost, Executions: rep.Executions - e0, States: rep.States - s0, Done: done})
			if !done {
				break
			}
			rep.Completed = cost
			more := x.beyond
			for _, q := range x.queues {
				if len(q) > 0 {
					more = true
				}
			}
			if !more {
				rep.Unbounded = true
				rep.Completed = x.bound
				break
			}
			if cost < x.bound && time.Now().After(x.deadline) {
				break
			}
		}
		if !again || time.Now().After(x.deadline) {
			break
		}
	}
	rep.NOutcomes = len(rep.Outcomes)
	rep.Cases = cases - cases0
	if len(rep.Outcomes) > 12 {
		keys := make([]string, 0, len(rep.Outcomes))
		for k := range rep.Outcomes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		small := map[string]int{}
		for i := 0; i < 12; i++ {
			k := keys[i*len(keys)/12]
			small[k] = rep.Outcomes[k]
		}
		rep.Outcomes = small
	}
	return rep
}

func compact(p []uint8) string {
	var sb strings.Builder
	for i, c := range p {
		if c != 0 {
			fmt.Fprintf(&sb, "%d:%d ", i, c)
		}
	}
	return strings.TrimSpace(sb.String())
}

func (rep *Report) violate(x *explorer, v string, pts []runtime.VerifPt, cost int) {
	full := make([]uint8, len(pts))
	for i := range pts {
		full[i] = uint8(pts[i].Chosen)
	}
	// strip trailing defaults
	for len(full) > 0 && full[len(full)-1] == 0 {
		full = full[:len(full)-1]
	}
	// replay before believing it
	runtime.VerifSetVisited(nil, 0, false)
	same := 0
	for i := 0; i < 5; i++ {
		x.st.Begin(cost, full)
		_, _, v2 := x.s.Exec(x.tier, full, 0, false)
		x.st.End()
		if v2 != "" && firstLine(v2) == firstLine(v) {
			same++
		}
	}
	if same == 0 && !strings.HasPrefix(v, "data race") {
		// A race is reported once per process; everything else must reproduce.
		rep.Err = fmt.Sprintf("violation did not reproduce on replay: %s", v)
		return
	}
	rep.Violation = v
	rep.Cost = cost
	rep.Prefix = make([]int, len(full))
	for i, c := range full {
		rep.Prefix[i] = int(c)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
