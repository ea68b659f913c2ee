package props

import (
	"context"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifmc/mc"
)

// Self-tests of the engine: toy systems whose set of behaviours is known.
type selfTest struct {
	s        mc.Scenario
	outcomes int    // number of distinct outcomes, 0: do not care
	finds    string // violation that must be found ("" none)
	atCost   int
}

func selfTests() []selfTest {
	inter := func(n, k int) mc.Scenario {
		return mc.Scenario{Name: fmt.Sprintf("interleave-%dx%d", n, k), Quick: 40, BlockCost: mc.Free, SelCost: mc.Free, Main: func(t *mc.T) {
			var v mc.Var
			var log []byte
			for g := 0; g < n; g++ {
				t.Go("g", func() {
					for i := 0; i < k; i++ {
						v.Do(func() { log = append(log, byte('a'+g)) })
					}
				})
			}
			t.MustFinish("x")
			t.Outcome("%s", log)
		}}
	}
	return []selfTest{
		{s: inter(2, 3), outcomes: 20},
		{s: inter(2, 4), outcomes: 70},
		{s: inter(3, 2), outcomes: 90},
		{s: mc.Scenario{Name: "mutex-order", Quick: 40, BlockCost: mc.Free, Main: func(t *mc.T) {
			var mu sync.Mutex
			var log []byte
			for g := 0; g < 3; g++ {
				t.Go("g", func() {
					mu.Lock()
					log = append(log, byte('a'+g))
					mu.Unlock()
				})
			}
			t.MustFinish("x")
			t.Outcome("%s", log)
		}}, outcomes: 6},
		{s: mc.Scenario{Name: "atomic-lost-update", Quick: 2, Main: func(t *mc.T) {
			var n atomic.Int32
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() { n.Store(n.Load() + 1); wg.Done() }()
			}
			wg.Wait()
			if n.Load() != 2 {
				t.Failf("lost update")
			}
		}}, finds: "lost update", atCost: 1},
		{s: mc.Scenario{Name: "abba", Quick: 2, Main: func(t *mc.T) {
			var a, b sync.Mutex
			t.Go("1", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
			t.Go("2", func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
			t.MustFinish("abba")
		}}, finds: "abba: blocked forever: 1,2", atCost: 1},
		{s: mc.Scenario{Name: "close-panic", Quick: 2, Main: func(t *mc.T) {
			ch := make(chan int, 1)
			done := make(chan struct{})
			go func() {
				select {
				case <-done:
				default:
					ch <- 1
				}
			}()
			close(done)
			close(ch)
			t.MustFinish("x")
		}}, finds: "panic: send on closed channel", atCost: 2},
		{s: mc.Scenario{Name: "starved", Quick: 2, Main: func(t *mc.T) {
			var a atomic.Int32
			ch1, ch2, ch3 := make(chan int), make(chan int), make(chan int)
			t.Go("slow", func() {
				if a.Load() == 0 {
					if a.Add(1) > 3 {
						t.Failf("starved")
					}
				}
			})
			t.Go("1", func() { a.Add(1); ch1 <- 1; ch2 <- <-ch3 })
			t.Go("2", func() { <-ch1; a.Add(1); ch3 <- 1 })
			t.Go("3", func() { <-ch2; a.Add(1) })
			t.MustFinish("x")
		}}, finds: "starved", atCost: 1},
		{s: mc.Scenario{Name: "select", Quick: 3, SelCost: mc.Free, Main: func(t *mc.T) {
			a, b := make(chan int, 1), make(chan int, 1)
			a <- 1
			b <- 1
			select {
			case <-a:
				t.Outcome("a")
			case <-b:
				t.Outcome("b")
			}
		}}, outcomes: 2},
		{s: mc.Scenario{Name: "unbuffered", Quick: 40, BlockCost: mc.Free, SelCost: mc.Free, Main: func(t *mc.T) {
			ch := make(chan byte)
			var got []byte
			for g := 0; g < 3; g++ {
				t.Go("s", func() { ch <- byte('a' + g) })
			}
			for i := 0; i < 3; i++ {
				got = append(got, <-ch)
			}
			t.Outcome("%s", got)
			t.MustFinish("x")
		}}, outcomes: 6},
		{s: mc.Scenario{Name: "cond", Quick: 3, Main: func(t *mc.T) {
			var mu sync.Mutex
			c := sync.NewCond(&mu)
			ready := false
			t.Go("w", func() {
				mu.Lock()
				for !ready {
					mu.Unlock() // lost wakeup window
					mu.Lock()
					c.Wait()
				}
				mu.Unlock()
			})
			t.Go("s", func() { mu.Lock(); ready = true; c.Signal(); mu.Unlock() })
			t.MustFinish("cond")
		}}, finds: "cond: blocked forever: w", atCost: 1},
		{s: mc.Scenario{Name: "timers", Quick: 2, Main: func(t *mc.T) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			defer cancel()
			t0 := time.Now()
			select {
			case <-ctx.Done():
				t.Outcome("ctx %v", time.Since(t0))
			case <-time.After(2 * time.Second):
				t.Outcome("after")
			}
		}}, outcomes: 1},
		{s: mc.Scenario{Name: "livelock", Quick: 0, MaxEvents: 5000, Main: func(t *mc.T) {
			var n atomic.Int32
			for n.Load() == 0 {
			}
		}}, finds: "no termination within 5000 operations (livelock)"},
		{s: mc.Scenario{Name: "choose", Quick: 1, Main: func(t *mc.T) {
			t.Outcome("%d%d", t.Choose(3), t.Choose(4))
		}}, outcomes: 12},
		{s: mc.Scenario{Name: "deviate", Quick: 1, Main: func(t *mc.T) {
			t.Outcome("%d%d", t.Deviate(3), t.Deviate(3))
		}}, outcomes: 5},
		{s: mc.Scenario{Name: "leak", Quick: 1, Main: func(t *mc.T) {
			ch := make(chan int)
			go func() { <-ch }()
		}}, finds: "1 goroutine(s) blocked forever at the end of the execution"},
		{s: mc.Scenario{Name: "pipe-eof", Quick: 2, Main: func(t *mc.T) {
			r, w := io.Pipe()
			t.Go("w", func() { _, _ = w.Write([]byte("xy")); _ = w.Close() })
			b, err := io.ReadAll(r)
			t.Outcome("%s %v", b, err)
			t.MustFinish("x")
		}}, outcomes: 1},
	}
}

type nullStatus struct{}

func (nullStatus) Begin(int, []uint8)   {}
func (nullStatus) End()                 {}
func (nullStatus) Sites(bool, []uint64) {}

// SelfTest checks the engine and returns the number of failures.
func SelfTest() int {
	bad := 0
	for i := range selfTests() {
		var states [4]string
		for v := 0; v < 4; v++ {
			st := selfTests()[i]
			r := mc.Explore(&st.s, mc.Options{Tier: "quick", Bound: -1, Budget: 20 * time.Second, NoFilter: v&1 != 0, Prune: v&2 == 0}, nullStatus{})
			first, _, _ := strings.Cut(r.Violation, "\n")
			ok := r.Err == "" && first == st.finds
			if st.finds == "" {
				ok = ok && r.Completed == r.Bound && (st.outcomes == 0 || r.NOutcomes == st.outcomes)
			} else {
				ok = ok && r.Cost == st.atCost
			}
			if !ok {
				bad++
				fmt.Fprintf(os.Stderr, "selftest %s variant %d: violation %q cost %d outcomes %d %v completed %d/%d err %q\n", st.s.Name, v, first, r.Cost, r.NOutcomes, r.Outcomes, r.Completed, r.Bound, r.Err)
			}
			states[v] = fmt.Sprint(r.States)
		}
		fmt.Printf("selftest %-20s states (filter,nofilter,+noprune) %s\n", selfTests()[i].s.Name, strings.Join(states[:], " "))
		if states[0] != states[2] || states[1] != states[3] {
			bad++
			fmt.Fprintln(os.Stderr, "selftest: pruning changed the state count")
		}
	}
	return bad
}
