package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

var errHandler12 = errors.New("handler failed")

// stub is a handler (or fallback invoker) that records its calls.
type stub struct {
	name    string
	svc     string
	mths    []string
	handled bool
	err     error
	log     *[]string
	strm    srpc.Stream
	on      func()
}

func (h *stub) GetServiceID() string   { return h.svc }
func (h *stub) GetMethodIDs() []string { return h.mths }
func (h *stub) InvokeMethod(svc, mth string, strm srpc.Stream) (bool, error) {
	if c, ok := strm.(*capture); ok {
		*c.got = h.name
		return h.handled, h.err
	}
	if h.on != nil {
		h.on()
	}
	e := h.name + "(" + svc + "," + mth + ")"
	if strm != h.strm {
		e += " with another stream"
	}
	*h.log = append(*h.log, e)
	return h.handled, h.err
}

// refMux is the reference: service -> method -> name of the handler.
type refMux map[string]map[string]*stub

func (r refMux) register(h *stub) {
	for _, m := range h.mths {
		if m == "" {
			continue
		}
		if r[h.svc] == nil {
			r[h.svc] = map[string]*stub{}
		}
		r[h.svc][m] = h
	}
}

// find lists the handlers a call may be routed to.
func (r refMux) find(svc, mth string) (out []*stub) {
	for s, m := range r {
		if svc == "" || s == svc {
			if h := m[mth]; h != nil {
				out = append(out, h)
			}
		}
	}
	return out
}

// check12 compares every query and call with the reference.
func check12(t *mc.T, what string, m srpc.Mux, r refMux, fb []*stub, strm srpc.Stream, log *[]string) {
	checkNames12(t, what, m, r, fb, strm, log, []string{"", "a", "b", "c"}, []string{"", "x", "y", "z"})
}

func checkNames12(t *mc.T, what string, m srpc.Mux, r refMux, fb []*stub, strm srpc.Stream, log *[]string, svcs, mths []string) {
	for _, svc := range svcs {
		if got, want := m.HasService(svc), svc != "" && len(r[svc]) != 0; got != want {
			t.Failf("%s: HasService(%q) = %v", what, svc, got)
		}
		for _, mth := range mths {
			cand := r.find(svc, mth)
			if got, want := m.HasServiceMethod(svc, mth), svc != "" && len(cand) != 0; got != want {
				t.Failf("%s: HasServiceMethod(%q, %q) = %v", what, svc, mth, got)
			}
			*log = nil
			found, err := m.InvokeMethod(svc, mth, strm)
			got := strings.Join(*log, " ")
			if len(cand) != 0 {
				ok := false
				for _, h := range cand {
					if got == fmt.Sprintf("%s(%s,%s)", h.name, svc, mth) && found == h.handled && err == h.err {
						ok = true
					}
				}
				if !ok {
					t.Failf("%s: call of %q %q: invoked %q, result %v %v; want %s", what, svc, mth, got, found, err, cand[0].name)
				}
				continue
			}
			var want []string
			wf, we := false, error(nil)
			for _, f := range fb {
				if f == nil {
					continue
				}
				want = append(want, fmt.Sprintf("%s(%s,%s)", f.name, svc, mth))
				if f.handled || f.err != nil {
					wf, we = f.handled, f.err
					break
				}
			}
			if got != strings.Join(want, " ") || err != we || (found != wf && err == nil) {
				t.Failf("%s: call of %q %q: invoked %q, result %v %v; want %q %v %v", what, svc, mth, got, found, err, strings.Join(want, " "), wf, we)
			}
		}
	}
}

// mux12 runs every sequence of registrations up to depth on wrap(NewMux()).
func mux12(t *mc.T, depth int, wrap func(srpc.Mux) srpc.Mux) {
	svcs := []string{"a", "b", ""}
	lists := [][]string{{"x"}, {"y"}, {"x", "y"}, {"", "y"}, {}, {""}, {"x", "x"}}
	alpha := len(svcs) * len(lists)
	first := t.Choose(alpha + 1)
	a, b := srpc.NewPipeStream(bg)
	strm := srpc.Stream(a)
	mc.Quiet(func() {
		var rec func(seq []int)
		var run func(seq []int, between bool)
		rec = func(seq []int) {
			mc.Case()
			run(seq, false)
			if len(seq) != 0 && !t.Failed() {
				run(seq, true)
			}
			if len(seq) < depth && !t.Failed() {
				for x := 0; x < alpha; x++ {
					rec(append(seq[:len(seq):len(seq)], x))
				}
			}
		}
		// run registers the sequence, with calls and queries also between the registrations.
		run = func(seq []int, between bool) {
			log := new([]string)
			fb := &stub{name: "fb", handled: true, log: log, strm: strm}
			m := wrap(srpc.NewMux(fb))
			r := refMux{}
			what := ""
			if between {
				what = " calls"
			}
			for i, s := range seq {
				if between {
					check12(t, what, m, r, []*stub{fb}, strm, log)
				}
				h := &stub{name: fmt.Sprintf("h%d", i), svc: svcs[s/len(lists)], mths: lists[s%len(lists)], handled: true, log: log, strm: strm}
				if i&1 == 1 {
					h.err = errHandler12
				}
				what += fmt.Sprintf(" %s=register(%q,%q)", h.name, h.svc, h.mths)
				err := m.Register(h)
				if h.svc == "" {
					if err != srpc.ErrEmptyServiceID {
						t.Failf("%s: Register with an empty service: %v", what, err)
					}
					continue
				}
				if err != nil {
					t.Failf("%s: Register: %v", what, err)
				}
				r.register(h)
			}
			check12(t, what, m, r, []*stub{fb}, strm, log)
		}
		if first == alpha {
			d := depth
			depth = 0
			rec(nil)
			depth = d
		} else {
			rec([]int{first})
		}
	})
	_ = a.Close()
	_ = b.Close()
	t.Outcome("%d", first)
}

// hist12 is one operation of a concurrent history.
type hist12 struct {
	op       int // 0 register, 1 invoke, 2 query
	h        *stub
	svc, mth string
	got      string
	from, to int
}

// linear searches a sequential order that explains the history.
func linear(ops []*hist12, done []bool, r []*hist12) bool {
	n := 0
	for i, o := range ops {
		if done[i] {
			n++
			continue
		}
		first := true
		for j, p := range ops {
			if !done[j] && p.to < o.from {
				first = false
			}
		}
		if !first {
			continue
		}
		res := "none"
		if o.op != 0 {
			for _, p := range r {
				for _, m := range p.h.mths {
					if p.h.svc == o.svc && m == o.mth {
						res = p.h.name
					}
				}
			}
			if o.op == 2 {
				res = fmt.Sprint(res != "none")
			}
			if res != o.got {
				continue
			}
		}
		done[i] = true
		nr := r
		if o.op == 0 {
			nr = append(r[:len(r):len(r)], o)
		}
		if linear(ops, done, nr) {
			return true
		}
		done[i] = false
	}
	return n == len(ops)
}

func concurrent12(t *mc.T, few bool) {
	var v mc.Var
	clock := 0
	var ops []*hist12
	m := srpc.NewMux()
	run := func(o *hist12, f func()) {
		v.Do(func() { ops = append(ops, o); clock++; o.from, o.to = clock, 1<<30 })
		f()
		v.Do(func() { clock++; o.to = clock })
	}
	register := func(name, svc string, mths ...string) {
		h := &stub{name: name, svc: svc, mths: mths, handled: true, log: new([]string)}
		run(&hist12{op: 0, h: h}, func() {
			if err := m.Register(h); err != nil {
				t.Failf("Register: %v", err)
			}
		})
	}
	invoke := func(svc, mth string) {
		o := &hist12{op: 1, svc: svc, mth: mth}
		got := "none"
		v2 := &capture{got: &got}
		run(o, func() {
			found, err := m.InvokeMethod(svc, mth, v2)
			if err != nil || found != (got != "none") {
				t.Failf("InvokeMethod: %v %v after invoking %s", found, err, got)
			}
			o.got = got
		})
	}
	query := func(svc, mth string) {
		o := &hist12{op: 2, svc: svc, mth: mth}
		run(o, func() { o.got = fmt.Sprint(m.HasServiceMethod(svc, mth)) })
	}
	settle := func() {
		for _, svc := range []string{"a", "b"} {
			for _, mth := range []string{"x", "y", "z"} {
				invoke(svc, mth)
				query(svc, mth)
			}
		}
	}
	if few {
		// two first registrations for the same service
		t.Go("register-1", func() { register("h1", "a", "x") })
		t.Go("register-2", func() { register("h2", "a", "y") })
		t.Go("register-3", func() { register("h3", "b", "x") })
	} else {
		t.Go("register-1", func() {
			register("h1", "a", "x", "y")
			register("h2", "a", "x")
		})
		t.Go("register-2", func() {
			register("h3", "b", "x")
			register("h4", "a", "y", "z")
		})
	}
	t.Go("call", func() {
		invoke("a", "x")
		invoke("a", "y")
		invoke("b", "x")
	})
	t.Go("query", func() {
		query("a", "y")
		query("b", "x")
		invoke("a", "x")
	})
	if !t.MustFinish("concurrent registrations and calls") {
		return
	}
	settle()
	var h []string
	for _, o := range ops {
		if o.op != 0 {
			h = append(h, fmt.Sprintf("%s.%s=%s", o.svc, o.mth, o.got))
		}
	}
	if !linear(ops, make([]bool, len(ops)), nil) {
		var s []string
		for _, o := range ops {
			n := o.svc + "." + o.mth
			if o.op == 0 {
				n = o.h.name
			}
			s = append(s, fmt.Sprintf("[%d,%d] %s %s=%s", o.from, o.to, []string{"register", "call", "query"}[o.op], n, o.got))
		}
		t.Failf("no order of the registrations explains: %s", strings.Join(s, "; "))
	}
	t.Outcome("%s", strings.Join(h, " "))
}

// capture is a stream through which a stub tells who was invoked.
type capture struct {
	srpc.Stream
	got *string
}

func init() {
	reg(&mc.Scenario{Prop: "P12", Name: "histories", Quick: 0, Thorough: 0,
		Doc: "every sequence of up to 3 (thorough: 4) registrations over services a, b and empty and 7 method lists (overlapping, empty, repeated), then, and in a second run also before each registration, every query and call over 4 services and 4 methods, against a map reference",
		Main: func(t *mc.T) {
			depth := 3
			if t.Tier == "thorough" {
				depth = 4
			}
			mux12(t, depth, func(m srpc.Mux) srpc.Mux { return m })
		}})
	reg(&mc.Scenario{Prop: "P12", Name: "fallbacks", Quick: 0, Thorough: 0,
		Doc: "every list of up to 3 (thorough: 4) fallbacks (nil, not found, handled, failing, failing as handled) with and without a registered handler, every call",
		Main: func(t *mc.T) {
			depth := 3
			if t.Tier == "thorough" {
				depth = 4
			}
			a, b := srpc.NewPipeStream(bg)
			defer a.Close()
			defer b.Close()
			have := t.Choose(3)
			mc.Quiet(func() {
				var rec func(seq []int)
				rec = func(seq []int) {
					mc.Case()
					log := new([]string)
					var fb []*stub
					var inv []srpc.Invoker
					what := fmt.Sprintf("fallbacks %v", seq)
					for i, x := range seq {
						f := &stub{name: fmt.Sprintf("f%d", i), log: log, strm: a, handled: x == 2 || x == 4}
						if x >= 3 {
							f.err = errHandler12
						}
						if x == 0 {
							fb, inv = append(fb, nil), append(inv, nil)
						} else {
							fb, inv = append(fb, f), append(inv, f)
						}
					}
					m := srpc.NewMux(inv...)
					r := refMux{}
					if have > 0 {
						h := &stub{name: "h", svc: "a", mths: []string{"x"}, handled: true, log: log, strm: a}
						if have == 2 {
							h.err = errHandler12
						}
						if err := m.Register(h); err != nil {
							t.Failf("Register: %v", err)
						}
						r.register(h)
					}
					check12(t, what, m, r, fb, a, log)
					if len(seq) < depth && !t.Failed() {
						for x := 0; x < 5; x++ {
							rec(append(seq[:len(seq):len(seq)], x))
						}
					}
				}
				rec(nil)
			})
			t.Outcome("%d", have)
		}})
	reg(&mc.Scenario{Prop: "P12", Name: "names", Quick: 0, Thorough: 0,
		Doc: "services and methods whose names differ only in case, blanks, slashes, dots, normalization or length: each pair of a registered service or method and a queried one",
		Main: func(t *mc.T) {
			reg := oddIDs[t.Choose(len(oddIDs))]
			asMethod, fb := t.Bool(), t.Bool()
			if reg == "" && !asMethod {
				t.Outcome("no service")
				return
			}
			a, b := srpc.NewPipeStream(bg)
			defer a.Close()
			defer b.Close()
			mc.Quiet(func() {
				name := func(n string) (string, string) {
					if asMethod {
						return "svc", n
					}
					return n, "mth"
				}
				log := new([]string)
				h := &stub{name: "h", handled: true, log: log, strm: a}
				var mth string
				h.svc, mth = name(reg)
				h.mths = []string{mth}
				r := refMux{}
				var fbs []*stub
				m := srpc.NewMux()
				if fb {
					f := &stub{name: "f", handled: true, log: log, strm: a}
					fbs = []*stub{f}
					m = srpc.NewMux(f)
				}
				if err := m.Register(h); err != nil {
					t.Failf("Register: %v", err)
				}
				r.register(h)
				var svcs, mths []string
				for _, n := range oddIDs {
					s, x := name(n)
					svcs, mths = append(svcs, s), append(mths, x)
				}
				if asMethod {
					svcs = svcs[:1]
				} else {
					mths = mths[:1]
				}
				mc.Case()
				checkNames12(t, "names", m, r, fbs, a, log, svcs, mths)
			})
			t.Outcome("%v", asMethod)
		}})
	reg(&mc.Scenario{Prop: "P12", Name: "concurrent", Quick: 3, Thorough: 6, Weight: 2,
		Doc:  "two goroutines registering overlapping handlers while two others call and query; some order of the registrations consistent with real time must explain every result",
		Main: func(t *mc.T) { concurrent12(t, false) }})
	reg(&mc.Scenario{Prop: "P12", Name: "registrations", Quick: 3, Thorough: 7,
		Doc:  "three goroutines register the first handlers of two services while others call and query; afterwards every call and query",
		Main: func(t *mc.T) { concurrent12(t, true) }})
	reg(&mc.Scenario{Prop: "P12", Name: "concurrent-race", Quick: 2, Thorough: 3, Race: true,
		Doc:  "the same under the race detector",
		Main: func(t *mc.T) { concurrent12(t, false) }})
	reg(&mc.Scenario{Prop: "P12", Name: "reentrant", Quick: 4, Thorough: 4,
		Doc: "handlers and fallbacks that register, query and call the mux themselves while another goroutine registers",
		Main: func(t *mc.T) {
			var m srpc.Mux
			log := new([]string)
			inner := &stub{name: "inner", svc: "b", mths: []string{"y"}, handled: true, log: log}
			on := func() {
				if err := m.Register(inner); err != nil {
					t.Failf("Register in a handler: %v", err)
				}
				if !m.HasService("b") || !m.HasServiceMethod("b", "y") {
					t.Failf("a handler's own registration is not visible to it")
				}
				if ok, err := m.InvokeMethod("b", "y", nil); !ok || err != nil {
					t.Failf("call from a handler: %v %v", ok, err)
				}
			}
			fb := &stub{name: "fb", handled: true, log: log, on: on}
			m = srpc.NewMux(fb)
			if err := m.Register(&stub{name: "outer", svc: "a", mths: []string{"x"}, handled: true, log: log, on: on}); err != nil {
				t.Failf("Register: %v", err)
			}
			mth := []string{"x", "nope"}[t.Choose(2)]
			t.Go("call", func() {
				if ok, err := m.InvokeMethod("a", mth, nil); !ok || err != nil {
					t.Failf("call: %v %v", ok, err)
				}
			})
			t.Go("register", func() {
				if err := m.Register(&stub{name: "other", svc: "c", mths: []string{"z"}, handled: true, log: new([]string)}); err != nil {
					t.Failf("Register: %v", err)
				}
			})
			t.MustFinish("handlers using the mux")
			t.Outcome("%s", strings.Join(*log, " "))
		}})
}
