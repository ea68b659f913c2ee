package props

import (
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// relay counts lookups, releases and the operations in progress on what was looked up.
type relay struct {
	t     *mc.T
	v     mc.Var
	looks []string
	rels  int
	busy  int
	done  int // relay handlers that returned
	err   error
}

func (r *relay) release() {
	r.v.Do(func() {
		r.rels++
		if r.busy != 0 {
			r.t.Failf("released while the relay was still using the stream")
		}
	})
}

func (r *relay) look(id string) { r.v.Do(func() { r.looks = append(r.looks, id) }) }

// use marks an operation of the relay in progress.
func (r *relay) use() func() {
	r.v.Do(func() { r.busy++ })
	return func() { r.v.Do(func() { r.busy-- }) }
}

// handled records the relay handler's result.
func (r *relay) handled(err error) error {
	r.v.Do(func() { r.done++; r.err = err })
	return err
}

// check requires the lookups and one release each.
func (r *relay) check(what string, want ...string) {
	r.v.Do(func() {
		if strings.Join(r.looks, ",") != strings.Join(want, ",") {
			r.t.Failf("%s: looked up %q, want %q", what, r.looks, want)
		}
		if r.rels != len(want) {
			r.t.Failf("%s: %d lookups, %d releases", what, len(want), r.rels)
		}
		if r.done != len(want) {
			r.t.Failf("%s: %d relays returned, want %d", what, r.done, len(want))
		}
	})
}

// usedRwc tracks the use of a byte stream by the relay.
type usedRwc struct {
	*end
	r      *relay
	writes [][]byte
}

func (u *usedRwc) Read(p []byte) (int, error) { defer u.r.use()(); return u.end.Read(p) }
func (u *usedRwc) Write(p []byte) (int, error) {
	defer u.r.use()()
	mc.Quiet(func() { u.writes = append(u.writes, append([]byte{}, p...)) })
	return u.end.Write(p)
}

// readBytes reads until an error.
func readBytes(r io.Reader, n int) (got []byte, err error) {
	b := make([]byte, n)
	for {
		k, err := r.Read(b)
		got = append(got, b[:k]...)
		if err != nil {
			return got, err
		}
		if len(got) > 1<<17 {
			return got, fmt.Errorf("endless")
		}
	}
}

// rawEnds says how a relay is ended.
var rawEnds = []string{"opener half-closes", "opener closes", "opener's context is cancelled", "target closes", "target fails", "server's context is cancelled", "server's transport fails"}

func rawRelay(t *mc.T, ack bool, how int, up, down []string, finish bool) {
	what := rawEnds[how]
	allUp, allDown := strings.Join(up, ""), strings.Join(down, "")
	size := 3
	if len(allUp) > 100 {
		size = 5000
	}
	r := &relay{t: t}
	tc, ta, tb := newConn(t)
	u := &usedRwc{end: ta, r: r}
	sctx, stop := context.WithCancel(bg)
	ctx, cancel := context.WithCancel(bg)
	var oc *conn
	ocl := srpc.NewClient(serverConn(t, sctx, srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
		return true, r.handled(rpcstream.HandleRawRpcStream(&rstream{s}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			r.look(id)
			return u, r.release, nil
		}))
	})), func(c *conn) { oc = c }))
	strm, err := rpcstream.OpenRpcStream(ctx, openOuter(ocl), "comp", ack)
	if err != nil {
		t.Failf("open: %v", err)
		return
	}
	rw := rpcstream.NewRpcStreamReadWriter(strm)
	var sentUp, sentDown, gotUp mc.Flag
	var atTarget, atOpener []byte
	t.Go("opener.write", func() {
		defer sentUp.Set()
		for _, s := range up {
			if _, err := rw.Write([]byte(s)); err != nil {
				return
			}
		}
		if how == 0 {
			_ = strm.CloseSend()
		}
	})
	t.Go("opener.read", func() {
		atOpener, _ = readBytes(rw, size)
		if how == 0 {
			_ = strm.Close()
		}
	})
	t.Go("target.write", func() {
		defer sentDown.Set()
		for _, s := range down {
			if _, err := tb.Write([]byte(s)); err != nil {
				return
			}
		}
	})
	t.Go("target.read", func() {
		b := make([]byte, size)
		for {
			n, err := tb.Read(b)
			atTarget = append(atTarget, b[:n]...)
			if len(atTarget) == len(allUp) || err != nil {
				gotUp.Set()
			}
			if err != nil {
				return
			}
		}
	})
	t.Go("end", func() {
		if finish {
			sentUp.Wait()
			sentDown.Wait()
		}
		switch how {
		case 1:
			_ = strm.Close()
		case 2:
			cancel()
		case 3:
			// an orderly end: what was written before can still be read
			sentDown.Wait()
			if finish {
				gotUp.Wait()
			}
			_ = tb.Close()
		case 4:
			tc.v.Do(func() { tc.dead = errReset; tc.buf[0], tc.buf[1] = nil, nil })
		case 5:
			stop()
		case 6:
			oc.v.Do(func() { oc.dead = errReset; oc.buf[0], oc.buf[1] = nil, nil })
		}
	})
	t.Idle()
	looked := false
	r.v.Do(func() { looked = len(r.looks) != 0 })
	if !looked {
		// the opener's stream ended before the lookup: nobody else uses the target
		_ = tb.Close()
		t.Idle()
	}
	for _, p := range t.Pending() {
		// the opener's own transport stays open until the opener closes its stream
		if p != "client.ReadPump" && p != "server.HandleStream" || how == 0 {
			t.Failf("%s: blocked forever: %s", what, p)
		}
	}
	_ = strm.Close()
	t.MustFinish(what + ", then the opener closed its stream")
	cancel()
	stop()
	if !strings.HasPrefix(allUp, string(atTarget)) || how == 0 && looked && string(atTarget) != allUp {
		t.Failf("%s: the target read %s of %s", what, brief(atTarget), brief([]byte(allUp)))
	}
	if !strings.HasPrefix(allDown, string(atOpener)) || how == 3 && finish && looked && string(atOpener) != allDown {
		t.Failf("%s: the opener read %s of %s", what, brief(atOpener), brief([]byte(allDown)))
	}
	if looked && !tc.released(0) {
		t.Failf("%s: the target was not closed", what)
	}
	if l := t.Live(); l != 0 {
		t.Failf("%s: %d goroutine(s) left", what, l)
	}
	if looked {
		r.check(what, "comp")
	}
	t.Outcome("%s %d %d", what, len(atTarget), len(atOpener))
}

func init() {
	reg(&mc.Scenario{Prop: "P15", Name: "raw", Quick: 1, Thorough: 2, Weight: 3, BlockCost: 1,
		Doc: "a nested stream relayed to a byte stream, both sides writing, until the opener half-closes, closes or is cancelled, the target closes or fails, or the server is stopped or loses its transport, at any moment; each side gets a prefix, and everything from a side that ended in order; everything is closed and released once, after the copying stopped",
		Main: func(t *mc.T) {
			rawRelay(t, t.Bool(), t.Choose(len(rawEnds)), []string{"ab", "c"}, []string{"wxyz", "v"}, false)
		}})
	reg(&mc.Scenario{Prop: "P15", Name: "raw-late", Quick: 1, Thorough: 2, BlockCost: 1,
		Doc: "the same, ended only after both sides wrote everything, with chunks beyond the copy buffer",
		Main: func(t *mc.T) {
			up, down := []string{"ab", "c"}, []string{"wxyz", "v"}
			if t.Bool() {
				up, down = []string{pattern(9000, 1), "x", pattern(8192, 2)}, []string{pattern(8193, 3), pattern(100, 4)}
			}
			rawRelay(t, true, t.Choose(len(rawEnds)), up, down, true)
		}})
	reg(&mc.Scenario{Prop: "P15", Name: "raw-openings", Quick: 1, Thorough: 2, BlockCost: 1,
		Doc: "raw and proxied streams: every sequence of up to 2 opening packets (init, empty init, ack, empty, data, garbage) and every outcome of the lookup or connection (not found, error, error with something to release or close): reported to the opener, released once, nothing stays blocked, nothing panics",
		Main: func(t *mc.T) {
			proxy := t.Bool()
			syms := []struct {
				name string
				b    []byte
			}{
				{"init(comp)", encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "comp"}}})},
				{"ack", encMsg(rpcAck(""))},
				{"empty", nil},
				{"data", encMsg(rpcData([]byte("d")))},
				{"garbage", []byte{0xff}},
			}
			outcomes := []string{"found", "not found", "error", "error and release", "error, stream and release", "found, connecting fails", "found, init fails"}
			oc := t.Choose(len(outcomes))
			if !proxy && oc > 4 {
				oc = 0
			}
			var seq []int
			what := outcomes[oc] + ":"
			for len(seq) < 2 {
				k := t.Choose(len(syms) + 1)
				if k == len(syms) {
					break
				}
				seq = append(seq, k)
				what += " " + syms[k].name
			}
			r := &relay{t: t}
			tc, ta, tb := newConn(t)
			target := srpc.NewClient(serverConn(t, bg, srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				for {
					if _, err := recv(s); err != nil {
						return true, err
					}
				}
			})), func(c *conn) {
				if oc == 6 {
					c.failAt = 2
				}
			}))
			wantRel := 0
			invoker := srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				if !proxy {
					return true, r.handled(rpcstream.HandleRawRpcStream(&rstream{s}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
						r.look(id)
						switch oc {
						case 0:
							wantRel = 1
							return &usedRwc{end: ta, r: r}, r.release, nil
						case 1:
							return nil, nil, nil
						case 2:
							return nil, nil, errLookup
						case 3:
							wantRel = 1
							return nil, r.release, errLookup
						}
						wantRel = 1
						return &usedRwc{end: ta, r: r}, r.release, errLookup
					}))
				}
				return true, r.handled(rpcstream.HandleProxyRpcStream(&rstream{s}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rstream], string, func(), error) {
					r.look(id)
					switch oc {
					case 0, 6:
						wantRel = 1
						return openOuter(target), "x" + id, r.release, nil
					case 1:
						return nil, "", nil, nil
					case 2:
						return nil, "", nil, errLookup
					case 3, 4:
						wantRel = 1
						return openOuter(target), "x" + id, r.release, errLookup
					}
					wantRel = 1
					return func(ctx context.Context) (*rstream, error) { return nil, errLookup }, "x" + id, r.release, nil
				}))
			})
			ocl := srpc.NewClient(serverConn(t, bg, srpc.NewServer(srpc.InvokerFunc(func(a, b string, s srpc.Stream) (ok bool, err error) {
				defer func() {
					if e := recover(); e != nil {
						t.Failf("%s: the relay panics: %v", what, e)
					}
				}()
				return invoker(a, b, s)
			})), nil))
			s, err := ocl.NewStream(bg, "host", "rpc", nil)
			if err != nil {
				t.Failf("NewStream: %v", err)
				return
			}
			var got []string
			var gotErr error
			t.Go("recv", func() { got, gotErr = recvAll(s) })
			for _, k := range seq {
				_ = s.MsgSend(raw(string(syms[k].b)))
			}
			t.Idle()
			valid := len(seq) > 0 && seq[0] == 0
			r.v.Do(func() {
				fails := len(seq) > 0 && (!valid || oc != 0)
				if fails && (r.done != 1 || r.err == nil) {
					t.Failf("%s: the relay did not return an error (returned %d times, %v)", what, r.done, r.err)
				}
				if !valid && len(r.looks) != 0 {
					t.Failf("%s: looked up %q", what, r.looks)
				}
				if valid && oc != 0 {
					text := errLookup.Error()
					switch oc {
					case 1:
						text = rpcstream.ErrNoServerForComponent.Error()
					case 6:
						text = errReset.Error()
					}
					ok := false
					for _, g := range got {
						p := new(rpcstream.RpcStreamPacket)
						if p.UnmarshalVT([]byte(g)) == nil && strings.Contains(p.GetAck().GetError(), text) {
							ok = true
						}
					}
					if !ok {
						t.Failf("%s: the opener received %q, then %v: no ack with the error", what, got, gotErr)
					}
				}
				if valid && oc == 0 && !proxy && len(seq) == 1 && (len(got) > 1 || r.done != 0) {
					t.Failf("%s: received %q", what, got)
				}
			})
			_ = s.Close()
			t.MustFinish(what)
			_ = tb.Close()
			r.v.Do(func() {
				n := 0
				if valid {
					n = 1
				}
				if len(r.looks) != n || r.rels != wantRel {
					t.Failf("%s: %d lookups, %d releases, want %d and %d", what, len(r.looks), r.rels, n, wantRel)
				}
			})
			if !proxy && valid && (oc == 0 || oc == 4) && !tc.released(0) {
				t.Failf("%s: the target stream was not closed", what)
			}
			if l := t.Live(); l != 0 {
				t.Failf("%s: %d goroutine(s) left", what, l)
			}
			t.Outcome("%s %s", what, errStr(gotErr))
		}})
	reg(&mc.Scenario{Prop: "P15", Name: "ids", Quick: 0, Thorough: 0,
		Doc: "raw and proxied streams for component IDs that differ only in case, blanks, slashes, dots, normalization or length, and every such ID chosen by the proxy's lookup: looked up and announced unaltered",
		Main: func(t *mc.T) {
			id := oddIDs[t.Choose(len(oddIDs))]
			mc.Quiet(func() {
				open := func() *script {
					return &script{end: io.EOF, in: [][]byte{encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: id}}})}}
				}
				mc.Case()
				looked := "?"
				_ = rpcstream.HandleRawRpcStream(open(), func(_ context.Context, got string) (io.ReadWriteCloser, func(), error) {
					looked = got
					return nil, nil, nil
				})
				if looked != id {
					t.Failf("raw stream for %s: %s was looked up", brief([]byte(id)), brief([]byte(looked)))
				}
				for _, other := range oddIDs {
					mc.Case()
					target := &script{fail: errReset}
					target.onSend = func(b []byte) {
						p := new(rpcstream.RpcStreamPacket)
						if err := p.UnmarshalVT(b); err != nil || p.GetInit().GetComponentId() != other {
							t.Failf("the proxy announced %s for %s", brief([]byte(p.GetInit().GetComponentId())), brief([]byte(other)))
						}
					}
					_ = rpcstream.HandleProxyRpcStream(open(), func(_ context.Context, got string) (rpcstream.RpcStreamCaller[*script], string, func(), error) {
						looked = got
						return func(context.Context) (*script, error) { return target, nil }, other, func() {}, nil
					})
					if looked != id {
						t.Failf("proxied stream for %s: %s was looked up", brief([]byte(id)), brief([]byte(looked)))
					}
				}
			})
			t.Outcome("%s", brief([]byte(id)))
		}})
	reg(&mc.Scenario{Prop: "P15", Name: "proxied-calls", Quick: 1, Thorough: 2, Weight: 3, BlockCost: 1,
		Doc: "nested unary, streaming, failing and cancelled calls through a proxy, with and without acknowledgement, to a known and an unknown component of the target: as a direct nested call; the announced component is the one the proxy's lookup chose; everything is released",
		Main: func(t *mc.T) {
			ack, kind := t.Bool(), t.Choose(5)
			var calls tally
			comp := newComps(t)
			comp.add("xcomp", &calls)
			target := outerConn(t, bg, func(s rpcstream.RpcStream) error { return rpcstream.HandleRpcStream(s, comp.lookup) })
			r := &relay{t: t}
			ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error {
				return r.handled(rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rstream], string, func(), error) {
					r.look(id)
					return openOuter(target), "x" + id, r.release, nil
				}))
			})
			id := "comp"
			if kind == 4 {
				id = "nope"
			}
			cl := rpcstream.NewRpcStreamClient(openOuter(ocl), id, ack)
			t.Go("call", func() {
				switch kind {
				case 0:
					callEcho(t, cl, "s@xcomp", "echo", "x")
				case 1:
					callChat(t, cl, "s@xcomp", "chat", "x", "", "y")
				case 2:
					callFail(t, cl, "s@xcomp", "fail", "x")
				case 3:
					ctx, cancel := context.WithCancel(bg)
					defer cancel()
					s, err := cl.NewStream(ctx, "s@xcomp", "hang", raw("x"))
					if err != nil {
						t.Failf("NewStream: %v", err)
						return
					}
					t.Go("cancel", cancel)
					if _, err := recvAll(s); !isCancel(err) {
						t.Failf("receive of the cancelled call: %v", err)
					}
					_ = s.Close()
				case 4:
					err := cl.ExecCall(bg, "s@xnope", "echo", raw("x"), raw(""))
					if err == nil || ack && !strings.Contains(err.Error(), rpcstream.ErrNoServerForComponent.Error()) {
						t.Failf("call of an unknown component: %v", err)
					}
				}
			})
			t.MustFinish("proxied calls")
			r.check("after the call", id)
			want := "x" + id
			comp.v.Do(func() {
				if comp.looks[want] != 1 && !(kind == 3 && comp.looks[want] == 0) {
					t.Failf("the target looked up %v, want one of %q", comp.looks, want)
				}
				if kind != 4 && comp.rel[want] != comp.looks[want] {
					t.Failf("the target released %v", comp.rel)
				}
			})
			if l := t.Live(); l != 0 {
				t.Failf("%d goroutine(s) left", l)
			}
			t.Outcome("%d %s", kind, calls.String())
		}})
	reg(&mc.Scenario{Prop: "P15", Name: "proxied-packets", Quick: 1, Thorough: 2, Weight: 2, BlockCost: 1,
		Doc: "the packets of both directions through a proxy, byte for byte (data, acks, unknown fields, undecodable ones), until the opener or the target half-closes, closes or fails or the proxy is stopped at any moment: each side gets a prefix, everything from the side that ended in order, and the relay ends",
		Main: func(t *mc.T) {
			how := t.Choose(6)
			last := (how == 2 || how == 3) && t.Bool()
			what := []string{"opener half-closes", "opener closes", "target returns", "target fails", "proxy is stopped", "target's transport fails"}[how]
			up := []string{string(encMsg(rpcData([]byte("up")))), "\xff\x01", "\x7a\x01z"}
			down := []string{string(encMsg(rpcAck(""))), string(encMsg(rpcData([]byte("down")))), "\x01"}
			var atTarget []string
			var gotInit, gotUp, tGo mc.Flag
			var tconn *conn
			sctx, stop := context.WithCancel(bg)
			target := srpc.NewClient(serverConn(t, bg, srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				t.Go("target.recv", func() {
					for {
						m, err := recv(s)
						gotInit.Set()
						if err != nil {
							gotUp.Set()
							return
						}
						atTarget = append(atTarget, m)
						if len(atTarget) == 1+len(up) {
							gotUp.Set()
						}
					}
				})
				gotInit.Wait() // as any handler of nested streams does
				for _, d := range down {
					if s.MsgSend(raw(d)) != nil {
						break
					}
				}
				if last {
					gotUp.Wait()
				}
				switch how {
				case 2:
					return true, nil
				case 3:
					return true, errLookup
				}
				<-s.Context().Done()
				return true, nil
			})), func(c *conn) { tconn = c; tGo.Set() }))
			r := &relay{t: t}
			ocl := outerConn(t, sctx, func(s rpcstream.RpcStream) error {
				return r.handled(rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rstream], string, func(), error) {
					r.look(id)
					return openOuter(target), "x" + id, r.release, nil
				}))
			})
			s, err := rpcstream.OpenRpcStream(bg, openOuter(ocl), "comp", false)
			if err != nil {
				t.Failf("open: %v", err)
				return
			}
			var atOpener []string
			t.Go("opener.recv", func() { atOpener, _ = recvAll(s) })
			t.Go("opener.send", func() {
				for _, m := range up {
					if s.MsgSend(raw(m)) != nil {
						return
					}
				}
				if how == 0 {
					_ = s.CloseSend()
				}
			})
			t.Go("end", func() {
				switch how {
				case 1:
					_ = s.Close()
				case 4:
					stop()
				case 5:
					tGo.Wait()
					tconn.v.Do(func() { tconn.dead = errReset; tconn.buf[0], tconn.buf[1] = nil, nil })
				}
			})
			t.Idle()
			r.v.Do(func() {
				if r.done != 1 && len(r.looks) == 1 {
					t.Failf("%s: the relay did not end", what)
				}
			})
			for _, p := range t.Pending() {
				if p == "opener.recv" || p == "opener.send" || p == "target.recv" {
					t.Failf("%s: blocked forever: %s", what, p)
				}
			}
			_ = s.Close()
			t.MustFinish(what)
			stop()
			if l := t.Live(); l != 0 {
				t.Failf("%s: %d goroutine(s) left", what, l)
			}
			// the first packet at the target is the init of the proxy
			init := string(encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "xcomp"}}}))
			if !isPrefix(atTarget, append([]string{init}, up...)) || how == 0 && len(atTarget) != 1+len(up) {
				t.Failf("%s: the target received %q", what, atTarget)
			}
			failed := false
			if len(atOpener) == 1 && how >= 4 {
				// the proxy could not open the target
				p := new(rpcstream.RpcStreamPacket)
				failed = p.UnmarshalVT([]byte(atOpener[0])) == nil && p.GetAck().GetError() != ""
			}
			if !isPrefix(atOpener, down) && !failed || last && len(atOpener) != len(down) {
				t.Failf("%s: the opener received %q", what, atOpener)
			}
			r.v.Do(func() {
				if r.rels != len(r.looks) || r.done > 1 || r.done == 0 && r.rels != 0 {
					t.Failf("%s: lookups %q, %d releases, %d relays returned", what, r.looks, r.rels, r.done)
				}
			})
			t.Outcome("%s %d %d", what, len(atTarget), len(atOpener))
		}})
}
