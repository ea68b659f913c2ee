//go:build race

package mc

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// RaceOn reports a race-detector build.
const RaceOn = true

var (
	raceSeen int
	raceOff  int
)

// newRaces returns the races reported since the last call, leaving out those between two
// accesses of the harness itself: frames of the runtime and the standard library count for
// whoever called them.
func newRaces() string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return ""
	}
	raceSeen = n
	path := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			path = p + "." + strconv.Itoa(os.Getpid())
		}
	}
	b, err := os.ReadFile(path)
	if err != nil || len(b) <= raceOff {
		return "data race reported by the race detector"
	}
	s := string(b[raceOff:])
	raceOff = len(b)
	for _, r := range strings.Split(s, "==================\n") {
		if a, b := raceSides(r); owned(a) || owned(b) {
			return "data race between " + a + " and " + b + "\n" + r
		}
	}
	return ""
}

func owned(f string) bool { return f != "?" && !strings.HasPrefix(f, "verifmc/") }

// raceSides names the innermost function outside the standard library of both accesses.
func raceSides(r string) (string, string) {
	var l []string
	for _, part := range strings.Split(r, "\n\n") {
		lines := strings.Split(strings.TrimPrefix(part, "WARNING: DATA RACE\n"), "\n")
		if !strings.Contains(lines[0], " at 0x") || !strings.Contains(lines[0], "by ") {
			continue
		}
		f := "?"
		for _, x := range lines[1:] {
			if !strings.HasPrefix(x, "  ") || strings.HasPrefix(x, "   ") {
				continue
			}
			x = strings.TrimSuffix(strings.TrimSpace(x), "()")
			first, _, _ := strings.Cut(x, "/")
			if strings.HasPrefix(x, "verifmc/") && !strings.HasPrefix(x, "verifmc/mc.") || strings.Contains(x, "/") && strings.Contains(first, ".") && !strings.ContainsAny(first, "([") {
				f = x
				break
			}
		}
		l = append(l, f)
	}
	for len(l) < 2 {
		l = append(l, "?")
	}
	return l[0], l[1]
}

func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
