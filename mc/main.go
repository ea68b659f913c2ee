//go:debug asynctimerchan=1

// Command verifmc explores the registered scenarios. See ../check.py for the driver.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/mc"
	"verifmc/props"
)

type status struct {
	b    []byte
	path string
}

func openStatus(path string) (*status, error) {
	if path == "" {
		return &status{b: make([]byte, 1<<17)}, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	if err := f.Truncate(1 << 17); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 1<<17, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &status{b: b, path: path}, nil
}

func (s *status) Begin(cost int, prefix []uint8) {
	binary.LittleEndian.PutUint64(s.b[16:], uint64(cost))
	binary.LittleEndian.PutUint64(s.b[24:], uint64(len(prefix)))
	copy(s.b[32:], prefix)
	binary.LittleEndian.PutUint64(s.b[0:], binary.LittleEndian.Uint64(s.b[0:])+1)
}

func (s *status) End() {
	binary.LittleEndian.PutUint64(s.b[8:], binary.LittleEndian.Uint64(s.b[8:])+1)
}

var (
	siteList   []uint64
	siteFilter bool
)

// Sites records the set of preemptible call sites for the replay of a crash.
func (s *status) Sites(filter bool, l []uint64) {
	if s.path == "" {
		return
	}
	b, _ := json.Marshal(map[string]any{"filter": filter, "site_list": l})
	_ = os.WriteFile(s.path+".sites", b, 0o644)
}

type listed struct {
	Name   string `json:"name"`
	Weight int    `json:"weight"`
	Race   bool   `json:"race"`
	Gen    bool   `json:"gen"`
}

func main() {
	list := flag.Bool("list", false, "list scenarios")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	run := flag.String("run", "", "scenario to explore")
	budget := flag.Float64("budget", 10, "seconds")
	bound := flag.Int("bound", -1, "deviation bound (default: the scenario's)")
	statusPath := flag.String("status", "", "status file")
	out := flag.String("out", "", "report file")
	replay := flag.String("replay", "", "comma separated choices to replay")
	trace := flag.Bool("trace", false, "print operations while replaying")
	doReplay := flag.Bool("do-replay", false, "replay instead of exploring")
	sites := flag.String("sites", "", "JSON file with filter and site_list (a report) for the replay")
	prune := flag.Bool("prune", false, "stop executions that reach a visited state")
	noFilter := flag.Bool("nofilter", false, "preempt at every operation")
	selfTest := flag.Bool("selftest", false, "test the engine")
	farEnd := flag.String("far", "", "two FIFOs: serve as the other end of P31's calls")
	flag.Parse()
	if *farEnd != "" {
		debug.SetGCPercent(-1)
		runtime.GOMAXPROCS(1)
		in, out, _ := strings.Cut(*farEnd, ",")
		props.FarServe(in, out)
		return
	}
	props.Tier = *tier
	runtime.SetFinalizer(new([64]byte), func(*[64]byte) {})

	if *selfTest {
		if n := props.SelfTest(); n != 0 {
			fmt.Println("selftest failures:", n)
			os.Exit(1)
		}
		return
	}
	if *list {
		var l []listed
		for _, s := range props.All() {
			if (*prop == "" || s.Prop == *prop) && (*tier == "thorough" || !s.ThoroughOnly) {
				w := s.Weight
				if w == 0 {
					w = 1
				}
				l = append(l, listed{s.Prop + "/" + s.Name, w, s.Race, s.Gen})
			}
		}
		_ = json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	var s *mc.Scenario
	for _, c := range props.All() {
		if c.Prop+"/"+c.Name == *run {
			s = c
		}
	}
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such scenario:", *run)
		os.Exit(3)
	}
	st, err := openStatus(*statusPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *doReplay {
		runtime.GOMAXPROCS(1)
		var p []uint8
		if *replay != "" {
			for _, x := range strings.Split(*replay, ",") {
				n, err := strconv.Atoi(x)
				if err != nil {
					panic(err)
				}
				p = append(p, uint8(n))
			}
		}
		if *sites != "" {
			b, err := os.ReadFile(*sites)
			if err != nil {
				panic(err)
			}
			var l struct {
				Filter bool     `json:"filter"`
				Sites  []uint64 `json:"site_list"`
			}
			if err := json.Unmarshal(b, &l); err != nil {
				panic(err)
			}
			siteList, siteFilter = l.Sites, l.Filter
		}
		// warm up as the explorer does
		race := ""
		for i := 0; i < 2; i++ {
			if _, _, v := s.Exec(*tier, nil, 0, false); v != "" {
				if strings.HasPrefix(v, "data race") {
					race = v // reported once per process
				}
				break
			}
		}
		runtime.VerifSetShared(siteList, siteFilter)
		st.Begin(0, p)
		res, _, v := s.Exec(*tier, p, 0, *trace)
		st.End()
		fmt.Printf("decisions=%d events=%d diverged=%v\n", len(res.Pts), res.Events, res.Diverged)
		if v == "" {
			v = race
		}
		if v != "" {
			fmt.Println("VIOLATED:", v)
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	rep := mc.Explore(s, mc.Options{Tier: *tier, Bound: *bound, Budget: time.Duration(*budget * float64(time.Second)), Prune: *prune, NoFilter: *noFilter}, st)
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		os.Stdout.Write(b)
		fmt.Println()
	}
}
