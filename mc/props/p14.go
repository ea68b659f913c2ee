package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

var errLookup = errors.New("lookup of 100%d\n%s é failed")

// oddIDs are component IDs that must not be confused.
var oddIDs = []string{"c", "C", "", " ", " c", "c ", "c\n", "c\x00", "/c", "c/", "/", "//", "c/d", "c//d", "c/./d", "./c", "../c", "c.", ".", "c?x", "%63", "*", "\u00e9", "e\u0301", "\xff",
	pattern(127, 1), pattern(128, 1), pattern(2048, 1), pattern(70000, 1), pattern(70000, 2)}

// comps is a component table whose lookups and releases are counted.
type comps struct {
	t     *mc.T
	v     mc.Var
	inv   map[string]srpc.Invoker
	looks map[string]int
	// rel counts releases.
	rel map[string]int
	// strict requires that the call of a lookup ended before it is released.
	strict bool
	// block makes lookups wait for the end of their context.
	block bool
}

func newComps(t *mc.T) *comps {
	return &comps{t: t, inv: map[string]srpc.Invoker{}, looks: map[string]int{}, rel: map[string]int{}}
}

// add registers a component with the handlers of tagServer; its service must be called s@component.
func (c *comps) add(id string, calls *tally) {
	inner := tagServer(calls)
	c.inv[id] = srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
		if svc != "s@"+id {
			c.t.Failf("component %q got a call of service %q", id, svc)
		}
		return inner(svc, mth, s)
	})
}

// lookup is an RpcStreamGetter. Components named !.. fail in different ways.
func (c *comps) lookup(ctx context.Context, id string) (srpc.Invoker, func(), error) {
	c.v.Do(func() { c.looks[id]++ })
	if c.block {
		<-ctx.Done()
		return nil, nil, ctx.Err()
	}
	var busy srpc.Stream // of the running handler
	rel := func() {
		// a cancelled handler may outlive its call
		if c.strict {
			var s srpc.Stream
			c.v.Do(func() { s = busy })
			if s != nil && s.Context().Err() == nil {
				c.v.Do(func() { s = busy })
				if s != nil {
					c.t.Failf("component %q was released while its handler was running", id)
				}
			}
		}
		c.v.Do(func() { c.rel[id]++ })
	}
	switch id {
	case "!err":
		return nil, nil, errLookup
	case "!inv+err":
		return unwanted{c.t}, rel, errLookup
	case "!norel":
		return c.inv["a"], nil, nil
	}
	if inv := c.inv[id]; inv != nil {
		return srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
			c.v.Do(func() { busy = s })
			defer c.v.Do(func() { busy = nil })
			return inv.InvokeMethod(svc, mth, s)
		}), rel, nil
	}
	return nil, nil, nil
}

// unwanted is an invoker that must not be called.
type unwanted struct{ t *mc.T }

func (u unwanted) InvokeMethod(s, m string, _ srpc.Stream) (bool, error) {
	u.t.Failf("a handler was invoked for %q %q although the lookup failed", s, m)
	return true, nil
}

// outerConn connects a client to a server handling nested streams with handle.
func outerConn(t *mc.T, ctx context.Context, handle func(s rpcstream.RpcStream) error) srpc.Client {
	return srpc.NewClient(serverConn(t, ctx, srpc.NewServer(srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
		return true, handle(&rstream{strm})
	})), nil))
}

// checkReleases requires one release per successful lookup.
func (c *comps) checkReleases(what string, want map[string]int) {
	c.v.Do(func() {
		for id, n := range want {
			if c.looks[id] != n {
				c.t.Failf("%s: component %q was looked up %d times, want %d", what, id, c.looks[id], n)
			}
		}
		for id, n := range c.looks {
			if _, ok := want[id]; !ok {
				c.t.Failf("%s: component %q was looked up", what, id)
			}
			w := n
			if c.inv[id] == nil && id != "!inv+err" || c.block {
				w = 0
			}
			if c.rel[id] != w {
				c.t.Failf("%s: component %q: %d lookups, %d releases", what, id, n, c.rel[id])
			}
		}
	})
}

func init() {
	reg(&mc.Scenario{Prop: "P14", Name: "routing", Quick: 1, Thorough: 2, Weight: 2, BlockCost: 1,
		Doc: "two concurrent nested calls (unary, streaming, failing) to the same or different components with unusual IDs, with and without acknowledgement: each reaches the component's own handlers, each lookup is released once after its handler returned or was cancelled",
		Main: func(t *mc.T) {
			ids := [][2]string{{"a", "b"}, {"a", "a"}, {"", "a/b\x00\xff"}}[t.Choose(3)]
			ack := [2]bool{t.Bool(), t.Bool()}
			var calls tally
			c := newComps(t)
			c.strict = true
			c.add(ids[0], &calls)
			c.add(ids[1], &calls)
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error { return rpcstream.HandleRpcStream(s, c.lookup) })
			k := t.Choose(3)
			for i, id := range ids {
				i, id := i, id
				cl := rpcstream.NewRpcStreamClient(openOuter(ocl), id, ack[i])
				t.Go("call", func() {
					switch (k + i) % 3 {
					case 0:
						callEcho(t, cl, "s@"+id, "echo", fmt.Sprint(i))
					case 1:
						callChat(t, cl, "s@"+id, "chat", fmt.Sprint("m", i), "")
					case 2:
						callFail(t, cl, "s@"+id, "fail", fmt.Sprint(i))
					}
				})
			}
			t.MustFinish("the nested calls")
			want := map[string]int{ids[0]: 1, ids[1]: 1}
			if ids[0] == ids[1] {
				want[ids[0]] = 2
			}
			c.checkReleases("after the calls", want)
			t.Outcome("%s", calls.String())
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "ids", Quick: 0, Thorough: 1,
		Doc: "a nested call to each of the components whose IDs differ only in case, blanks, slashes, dots, normalization or length: it reaches exactly that one",
		Main: func(t *mc.T) {
			id := oddIDs[t.Choose(len(oddIDs))]
			ack, stream := t.Bool(), t.Bool()
			var calls tally
			c := newComps(t)
			for _, x := range oddIDs {
				c.add(x, &calls)
			}
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error { return rpcstream.HandleRpcStream(s, c.lookup) })
			cl := rpcstream.NewRpcStreamClient(openOuter(ocl), id, ack)
			t.Go("call", func() {
				if stream {
					callChat(t, cl, "s@"+id, "chat", "m")
				} else {
					callEcho(t, cl, "s@"+id, "echo", "m")
				}
			})
			t.MustFinish("the nested call")
			c.checkReleases("after the call", map[string]int{id: 1})
			t.Outcome("%s", brief([]byte(id)))
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "missing", Quick: 1, Thorough: 3,
		Doc: "a nested unary or streaming call to a component that is unknown, whose lookup fails (with or without an invoker to release) or that has no release function, with and without acknowledgement",
		Main: func(t *mc.T) {
			id := []string{"nope", "!err", "!inv+err", "!norel"}[t.Choose(4)]
			ack, stream := t.Bool(), t.Bool()
			var calls tally
			c := newComps(t)
			c.add("a", &calls)
			var herr error
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error {
				err := rpcstream.HandleRpcStream(s, c.lookup)
				c.v.Do(func() { herr = err })
				return err
			})
			cl := rpcstream.NewRpcStreamClient(openOuter(ocl), id, ack)
			var err error
			t.Go("call", func() {
				if id == "!norel" {
					if stream {
						callChat(t, cl, "s@a", "chat", "m")
					} else {
						callEcho(t, cl, "s@a", "echo", "m")
					}
					return
				}
				if stream {
					var s srpc.Stream
					s, err = cl.NewStream(bg, "s", "chat", raw("x"))
					if err == nil {
						_, err = recv(s)
						_ = s.Close()
					}
				} else {
					err = cl.ExecCall(bg, "s", "echo", raw("x"), raw(""))
				}
				text := errLookup.Error()
				if id == "nope" {
					text = rpcstream.ErrNoServerForComponent.Error()
				}
				if err == nil || !strings.Contains(err.Error(), text) {
					// without acknowledgement the call may notice the outer stream's end first
					if ack || err == nil || err == io.EOF {
						t.Failf("call of component %q (wait for ack %v, stream %v): %v, want %q", id, ack, stream, err, text)
					}
				}
			})
			t.MustFinish("the nested call")
			c.checkReleases("after the call", map[string]int{id: 1})
			c.v.Do(func() {
				if id != "!norel" && herr == nil {
					t.Failf("HandleRpcStream returned no error for component %q", id)
				}
			})
			t.Outcome("%s %v %s", id, ack, errStr(err))
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "ended", Quick: 1, Thorough: 2, Weight: 3, BlockCost: 1,
		Doc: "a nested unary or streaming call (handler answering, failing or waiting; lookup immediate or waiting) whose context is cancelled, whose stream is closed or whose server is stopped at any moment: everything returns, each lookup is released exactly once, no goroutine stays",
		Main: func(t *mc.T) {
			ack, kind, how := t.Bool(), t.Choose(4), t.Choose(3)
			var calls tally
			c := newComps(t)
			c.add("a", &calls)
			c.block = kind == 3
			sctx, stop := context.WithCancel(bg)
			ctx, cancel := context.WithCancel(bg)
			ocl := outerConn(t, sctx, func(s rpcstream.RpcStream) error { return rpcstream.HandleRpcStream(s, c.lookup) })
			cl := rpcstream.NewRpcStreamClient(openOuter(ocl), "a", ack)
			var s srpc.Stream
			var opened mc.Flag
			mth := []string{"echo", "chat", "hang", "hang"}[kind]
			t.Go("call", func() {
				var err error
				if kind == 0 {
					opened.Set()
					out := raw("")
					err = cl.ExecCall(ctx, "s@a", mth, raw("x"), out)
					if err == nil && string(out.GetData()) != "s@a.echo:x" {
						t.Failf("nested call answered %q", out.GetData())
					}
				} else {
					s, err = cl.NewStream(ctx, "s@a", mth, raw("x"))
					opened.Set()
					if err == nil {
						_ = s.MsgSend(raw("y"))
						_, err = recvAll(s)
						if err == nil {
							t.Failf("no end")
						}
					}
				}
				if errors.Is(err, errLookup) {
					t.Failf("lookup error %v", err)
				}
			})
			t.Go("end", func() {
				switch how {
				case 0:
					cancel()
				case 1:
					stop()
				case 2:
					opened.Wait()
					if s != nil {
						_ = s.Close()
					} else {
						cancel()
					}
				}
			})
			if kind == 3 && ack && how == 2 {
				// the open waits for the acknowledgement of a lookup that waits: end it
				t.Idle()
				cancel()
			}
			t.MustFinish("after the nested call was ended")
			if s != nil {
				_ = s.Close()
			}
			t.MustFinish("after the client closed its stream")
			if n := t.Live(); n != 0 {
				t.Failf("%d goroutine(s) left after the nested call was ended", n)
			}
			cancel()
			stop()
			want := map[string]int{}
			c.v.Do(func() {
				if c.looks["a"] > 0 {
					want["a"] = 1
				}
			})
			c.checkReleases("after the call was ended", want)
			t.Outcome("%v %s", want, calls.String())
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "openings", Quick: 1, Thorough: 2, BlockCost: 1,
		Doc: "every sequence of up to 2 (thorough: 3) raw packets (init, empty init, ack, failed ack, empty, data, garbage) followed by half-close, close or nothing sent to the nested-stream handler: no panic, a lookup only for a leading init, one release, nothing blocks",
		Main: func(t *mc.T) {
			depth := 2
			if t.Tier == "thorough" {
				depth = 3
			}
			good := encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "a"}}})
			start := enc(srpc.NewCallStartPacket("s@a", "echo", []byte("x"), false))
			syms := []struct {
				name string
				b    []byte
			}{
				{"init(a)", good},
				{"init(nope)", encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "nope"}}})},
				{"ack", encMsg(rpcAck(""))},
				{"failed ack", encMsg(rpcAck("no"))},
				{"empty", nil},
				{"start", encMsg(rpcData(start))},
				{"bad data", encMsg(rpcData([]byte{0xff, 0xff}))},
				{"garbage", []byte{0xff}},
			}
			var seq []int
			var names []string
			for len(seq) < depth {
				k := t.Choose(len(syms) + 1)
				if k == len(syms) {
					break
				}
				seq = append(seq, k)
				names = append(names, syms[k].name)
			}
			end := t.Choose(3)
			names = append(names, []string{"half-close", "close", "wait"}[end])
			var calls tally
			c := newComps(t)
			c.add("a", &calls)
			var herr error
			returned := false
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error {
				err := rpcstream.HandleRpcStream(s, c.lookup)
				c.v.Do(func() { herr, returned = err, true })
				return err
			})
			s, err := ocl.NewStream(bg, "host", "rpc", nil)
			if err != nil {
				t.Failf("NewStream: %v", err)
				return
			}
			t.Go("recv", func() { _, _ = recvAll(s) })
			for _, k := range seq {
				_ = s.MsgSend(raw(string(syms[k].b)))
			}
			switch end {
			case 0:
				_ = s.CloseSend()
			case 1:
				_ = s.Close()
			case 2:
				t.Idle()
			}
			t.Idle()
			what := strings.Join(names, ", ")
			valid := len(seq) > 0 && seq[0] == 0
			c.v.Do(func() {
				if len(seq) > 0 && seq[0] > 1 && (!returned || herr == nil) {
					t.Failf("%s: the handler of a stream without init did not return an error (%v %v)", what, returned, herr)
				}
				if calls.get("s@a.echo") > 0 && !returned {
					t.Failf("%s: the nested call is over but its stream is still being handled", what)
				}
				if len(seq) == 0 && end != 2 && !returned {
					t.Failf("%s: the handler waits for ever", what)
				}
			})
			_ = s.Close()
			t.MustFinish(what)
			want := map[string]int{}
			if valid {
				want["a"] = 1
			} else if len(seq) > 0 && seq[0] == 1 {
				want["nope"] = 1
			}
			if end == 1 {
				// closing may cancel the call before the handler read the packets
				c.v.Do(func() {
					for id := range want {
						if c.looks[id] == 0 {
							delete(want, id)
						}
					}
				})
			}
			c.checkReleases(what, want)
			if n := calls.get("s@a.echo"); n > 0 && !(valid && len(seq) > 1) {
				t.Failf("%s: a handler ran", what)
			}
			t.Outcome("%v %s", returned, errStr(herr))
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "answers", Quick: 1, Thorough: 3, BlockCost: 1,
		Doc: "a nested client waiting for the acknowledgement (or not) against a remote that answers with every sequence of up to 2 packets (ack, failed ack, data, init, empty, garbage) and then ends with success, an error or not at all: the call returns or can be cancelled, and leaves no goroutine",
		Main: func(t *mc.T) {
			ack, n, end := t.Bool(), t.Choose(3), t.Choose(3)
			answer := enc(srpc.NewCallDataPacket([]byte("ok"), false, true, nil))
			syms := [][]byte{
				encMsg(rpcAck("")), encMsg(rpcAck("no")), encMsg(rpcData(answer)),
				encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "a"}}}), nil, {0xff},
			}
			var seq []int
			for len(seq) < n {
				seq = append(seq, t.Choose(len(syms)))
			}
			ocl := srpc.NewClient(serverConn(t, bg, srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				for _, k := range seq {
					if err := s.MsgSend(raw(string(syms[k]))); err != nil {
						return true, err
					}
				}
				switch end {
				case 0:
					return true, nil
				case 1:
					return true, errLookup
				}
				<-s.Context().Done()
				return true, nil
			})), nil))
			cl := rpcstream.NewRpcStreamClient(openOuter(ocl), "a", ack)
			ctx, cancel := context.WithCancel(bg)
			var err error
			out := raw("")
			t.Go("call", func() { err = cl.ExecCall(ctx, "s", "m", raw("x"), out) })
			t.Idle()
			waiting := len(t.Pending()) > 0
			acked := len(seq) > 0 && seq[0] == 0
			rest := seq
			if ack && acked {
				rest = seq[1:]
			}
			// the first data packet before anything undecodable is the answer
			ok, bad := false, false
			for _, k := range rest {
				bad = bad || k == 5 || k == 2 && ok // undecodable, or data after completion
				ok = ok || k == 2 && !bad && (!ack || acked)
			}
			what := fmt.Sprintf("answers %v, end %d, wait for ack %v", seq, end, ack)
			if end != 2 && !ok {
				for _, p := range t.Pending() {
					if p == "call" {
						t.Failf("%s: the call is still waiting", what)
					}
				}
			}
			cancel()
			t.MustFinish(what)
			if l := t.Live(); l != 0 {
				t.Failf("%s: %d goroutine(s) left", what, l)
			}
			if (err == nil) != ok {
				// the stream's failure may overtake the start of the call
				if err == nil || end == 2 && !bad {
					t.Failf("%s: the call returned %v, answered %v", what, err, ok)
				}
			}
			if err == nil && string(out.GetData()) != "ok" {
				t.Failf("%s: the call returned %q", what, out.GetData())
			}
			if ack && len(seq) > 0 && seq[0] == 1 && (err == nil || end == 2 && !strings.Contains(err.Error(), "no")) {
				t.Failf("%s: the call returned %v, want the error of the ack", what, err)
			}
			t.Outcome("%v %v %s", waiting, ok, errStr(err))
		}})
	reg(&mc.Scenario{Prop: "P14", Name: "nested-twice", Quick: 1, Thorough: 2, BlockCost: 1,
		Doc: "a unary and a streaming call nested two levels deep, and a cancellation of the latter at any moment",
		Main: func(t *mc.T) {
			ack, kind := t.Bool(), t.Choose(3)
			var calls tally
			in, mid := newComps(t), newComps(t)
			in.add("a", &calls)
			mid.inv["m"] = srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				return true, rpcstream.HandleRpcStream(&rstream{s}, in.lookup)
			})
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error { return rpcstream.HandleRpcStream(s, mid.lookup) })
			mcl := rpcstream.NewRpcStreamClient(openOuter(ocl), "m", ack)
			cl := rpcstream.NewRpcStreamClient(openOuter(mcl), "a", ack)
			t.Go("call", func() {
				switch kind {
				case 0:
					callEcho(t, cl, "s@a", "echo", "x")
				case 1:
					callChat(t, cl, "s@a", "chat", "x", "", "y")
				case 2:
					ctx, cancel := context.WithCancel(bg)
					defer cancel()
					s, err := cl.NewStream(ctx, "s@a", "hang", raw("x"))
					if err != nil {
						t.Failf("NewStream: %v", err)
						return
					}
					t.Go("cancel", cancel)
					if _, err := recvAll(s); !isCancel(err) {
						t.Failf("receive of the cancelled call: %v", err)
					}
					_ = s.Close()
				}
			})
			t.MustFinish("calls nested twice")
			if l := t.Live(); l != 0 {
				t.Failf("%d goroutine(s) left", l)
			}
			t.Outcome("%s", calls.String())
			for _, c := range []*comps{in, mid} {
				c.v.Do(func() {
					for id, n := range c.looks {
						if c.rel[id] != n {
							t.Failf("component %q: %d lookups, %d releases", id, n, c.rel[id])
						}
					}
				})
			}
		}})
}
