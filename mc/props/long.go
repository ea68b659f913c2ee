package props

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// Calls that last long, and many calls. Time is virtual: it passes when nothing can run.

var pauses = []time.Duration{time.Second, 8 * time.Second, 50 * time.Second, 11 * time.Minute, 3 * time.Hour}

const longRun = 100 * time.Hour

func init() {
	for _, tr := range transports {
		reg(&mc.Scenario{Prop: "P01", Name: "slow-" + tr.name, Quick: 0, Thorough: 1, Horizon: longRun, MaxEvents: 2000000,
			Doc: "both sides pause between their messages for a second to hours (virtual time) over " + tr.name,
			Main: func(t *mc.T) {
				p := pauses[t.Choose(len(pauses))]
				d := duplex{up: []string{"a", "", "c"}, down: []string{"x", "yy", "z"}, first: t.Bool()}
				switch t.Choose(3) {
				case 0:
					d.upPause = p
				case 1:
					d.downPause = p
				case 2:
					d.upPause, d.downPause = p, p/2
				}
				d.run(t, tr.make)
			}})
		reg(&mc.Scenario{Prop: "P02", Name: "slow-" + tr.name, Quick: 0, Thorough: 1, Horizon: longRun, MaxEvents: 2000000,
			Doc: "unary and streaming calls whose handler or caller waits for a second to hours (virtual time) before any of its steps, ending in success, an error or unhandled, over " + tr.name,
			Main: func(t *mc.T) {
				p := pauses[t.Choose(len(pauses))]
				unary := t.Bool()
				end := t.Choose(3)
				where := t.Choose(7)
				if unary && where > 2 {
					where = 0
				}
				at := func(w int) {
					if w == where {
						time.Sleep(p)
					}
				}
				cl, done := tr.make(t, srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
					at(0)
					if end == 2 {
						return false, nil
					}
					m, err := recv(s)
					if err != nil || m != "in" {
						t.Failf("the handler received %q, %v", m, err)
					}
					at(1)
					if err := s.MsgSend(raw("out")); err != nil {
						t.Failf("the handler's send: %v", err)
					}
					if !unary {
						if m, err := recv(s); err != nil || m != "more" {
							t.Failf("the handler received %q, %v", m, err)
						}
						if m, err := recv(s); err != io.EOF {
							t.Failf("the handler received %q, %v instead of EOF", m, err)
						}
					}
					at(2)
					if err := s.Context().Err(); err != nil && !unary {
						t.Failf("the handler's context ended: %v", err)
					}
					if end == 1 {
						return true, errHandler12
					}
					return true, nil
				}))
				wantErr := []error{io.EOF, errHandler12, srpc.ErrUnimplemented}[end]
				t.Go("client", func() {
					if unary {
						out := raw("")
						err := cl.ExecCall(bg, "s", "m", raw("in"), out)
						// a unary call takes the answer, what follows it does not count
						if end == 2 && (err == nil || err.Error() != wantErr.Error()) || end != 2 && (err != nil || string(out.GetData()) != "out") {
							t.Failf("call: %q, %v", out.GetData(), err)
						}
						return
					}
					s, err := cl.NewStream(bg, "s", "m", nil)
					if err != nil {
						t.Failf("NewStream: %v", err)
						return
					}
					at(3)
					err = s.MsgSend(raw("in"))
					if end != 2 {
						if err != nil {
							t.Failf("send: %v", err)
						}
						at(4)
						if m, err := recv(s); err != nil || m != "out" {
							t.Failf("received %q, %v", m, err)
						}
						at(5)
						if err := s.MsgSend(raw("more")); err != nil {
							t.Failf("send: %v", err)
						}
						if err := s.CloseSend(); err != nil {
							t.Failf("half-close: %v", err)
						}
						at(6)
					}
					if m, err := recv(s); err == nil || err.Error() != wantErr.Error() {
						t.Failf("received %q, %v, want %v", m, err, wantErr)
					}
					_ = s.Close()
				})
				time.Sleep(2*p + time.Minute)
				for _, g := range t.Pending() {
					if g != "server.AcceptMuxedConn" {
						t.Failf("%s is blocked", g)
					}
				}
				done()
				t.MustFinish("after the call")
				t.Outcome("%d %d %v", end, where, unary)
			}})
		reg(&mc.Scenario{Prop: "P03", Name: "many-" + tr.name, Quick: 0, Thorough: 0, MaxEvents: 5000000,
			Doc: "20 to 300 calls of all kinds on one client over " + tr.name + ", one after the other, or all in progress at the same time and then ended in order or in reverse",
			Main: func(t *mc.T) {
				n := []int{20, 70, 130, 300}
				if heavy(tr.name) {
					n = n[:3]
				}
				many03(t, tr, n[t.Choose(len(n))], t.Choose(3))
			}})
	}
	for _, ack := range []bool{false, true} {
		reg(&mc.Scenario{Prop: "P14", Name: fmt.Sprintf("slow-%v", ack), Quick: 0, Thorough: 1, Horizon: longRun,
			Doc: "nested calls whose lookup takes a second to hours (virtual time), or that are idle for as long, succeed, and the component is not released before",
			Main: func(t *mc.T) {
				p := pauses[t.Choose(len(pauses))]
				slowLookup, stream := t.Bool(), t.Bool()
				released := false
				ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error {
					return rpcstream.HandleRpcStream(s, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
						if slowLookup {
							time.Sleep(p)
						}
						if err := ctx.Err(); err != nil {
							t.Failf("the lookup's context ended: %v", err)
						}
						return srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
							m, err := recv(s)
							if !slowLookup {
								time.Sleep(p)
							}
							if released || err != nil || s.Context().Err() != nil {
								t.Failf("received %q, %v, released %v, context %v", m, err, released, s.Context().Err())
							}
							return true, s.MsgSend(raw("out " + m))
						}), func() { mc.Quiet(func() { released = true }) }, nil
					})
				})
				cl := rpcstream.NewRpcStreamClient(openOuter(ocl), "comp", ack)
				t.Go("call", func() {
					if !stream {
						out := raw("")
						if err := cl.ExecCall(bg, "s", "m", raw("in"), out); err != nil || string(out.GetData()) != "out in" {
							t.Failf("call: %q, %v", out.GetData(), err)
						}
						return
					}
					s, err := cl.NewStream(bg, "s", "m", nil)
					if err != nil {
						t.Failf("NewStream: %v", err)
						return
					}
					time.Sleep(p)
					if err := s.MsgSend(raw("in")); err != nil {
						t.Failf("send: %v", err)
					}
					if m, err := recv(s); err != nil || m != "out in" {
						t.Failf("received %q, %v", m, err)
					}
					if m, err := recv(s); err != io.EOF {
						t.Failf("received %q, %v", m, err)
					}
					_ = s.Close()
				})
				time.Sleep(10*p + time.Minute)
				t.MustFinish("the call")
				if !released {
					t.Failf("the component was not released")
				}
				t.Outcome("%v %v", slowLookup, stream)
			}})
		reg(&mc.Scenario{Prop: "P15", Name: fmt.Sprintf("slow-%v", ack), Quick: 0, Thorough: 1, Horizon: longRun,
			Doc:  "raw relays and proxies whose lookup takes a second to hours (virtual time), or that are idle for as long, still relay in both directions",
			Main: func(t *mc.T) { slow15(t, ack) }})
	}
	reg(&mc.Scenario{Prop: "P07", Name: "slow", Quick: 0, Thorough: 0, Horizon: longRun,
		Doc: "a peer that pauses for a second to hours (virtual time) before any of its packets",
		Main: func(t *mc.T) {
			p := pauses[t.Choose(len(pauses))]
			where := t.Choose(4)
			_, a, b := newConn(t)
			var got []string
			var gotErr error
			calls := 0
			srv := srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				calls++
				got, gotErr = recvAll(s)
				return true, nil
			}))
			t.Go("server.HandleStream", func() { srv.HandleStream(bg, b) })
			t.Go("peer.read", func() { _, _ = readBytes(a, 100) })
			t.Go("peer", func() {
				for i, pkt := range []*srpc.Packet{srpc.NewCallStartPacket("s", "m", nil, false), srpc.NewCallDataPacket([]byte("a"), false, false, nil), srpc.NewCallDataPacket([]byte("b"), false, false, nil), srpc.NewCallDataPacket(nil, false, true, nil)} {
					if i == where {
						time.Sleep(p)
					}
					_, _ = a.Write(frame(enc(pkt)))
				}
			})
			time.Sleep(10*p + time.Minute)
			_ = a.Close()
			t.MustFinish("the call")
			if calls != 1 || show(got) != show([]string{"a", "b"}) || gotErr != io.EOF {
				t.Failf("%d handlers, received %s, %v", calls, show(got), gotErr)
			}
			t.Outcome("%d", where)
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "slow", Quick: 0, Thorough: 1, Horizon: longRun,
		Doc: "a stream that is idle for a second to hours (virtual time) while a read is blocked or not",
		Main: func(t *mc.T) {
			p := pauses[t.Choose(len(pauses))]
			_, a, b := newConn(t)
			rc := srpc.NewRwcConn(bg, a, nil, nil, t.Choose(3))
			late := t.Bool()
			t.Go("peer", func() {
				_, _ = b.Write([]byte("a"))
				time.Sleep(p)
				_, _ = b.Write([]byte("b"))
				_ = b.Close()
			})
			t.Go("reader", func() {
				if late {
					time.Sleep(2 * p)
				}
				got, err := readConn(rc)
				if string(got) != "ab" || err != io.EOF {
					t.Failf("read %q, %v", got, err)
				}
			})
			time.Sleep(10*p + time.Minute)
			t.MustFinish("the reader")
			_ = rc.Close()
			t.Outcome("%v", late)
		}})
	reg(&mc.Scenario{Prop: "P20", Name: "slow", Quick: 1, Thorough: 2, Horizon: longRun,
		Doc: "ends that pause for a second to hours (virtual time) while the other waits to receive, or to send into the full buffer",
		Main: func(t *mc.T) {
			p := pauses[t.Choose(len(pauses))]
			slowSend := t.Bool()
			a, b := srpc.NewPipeStream(bg)
			msgs := strings.Split("0123456789", "")
			t.Go("send", func() {
				if slowSend {
					time.Sleep(p)
				}
				if sendAll(t, "sender", a, msgs[:5]) {
					if slowSend {
						time.Sleep(p)
					}
					if sendAll(t, "sender", a, msgs[5:]) {
						_ = a.CloseSend()
					}
				}
			})
			t.Go("recv", func() {
				if !slowSend {
					time.Sleep(p)
				}
				got, err := recvAll(b)
				checkDelivery(t, "receiver", msgs, got, err)
			})
			time.Sleep(10*p + time.Minute)
			t.MustFinish("the pipe")
			_ = a.Close()
			_ = b.Close()
			t.Outcome("%v", slowSend)
		}})
	reg(&mc.Scenario{Prop: "P18", Name: "slow", Quick: 0, Thorough: 0, Horizon: longRun, MaxEvents: 2000000,
		Doc: "a listening server nobody connects to, an idle connection and a call that hangs, each for a second to hours (virtual time): everything is still served",
		Main: func(t *mc.T) {
			p := pauses[t.Choose(len(pauses))]
			var calls tally
			l := &listener{t: t}
			srv := srpc.NewServer(tagServer(&calls))
			var aerr error
			viaListener := t.Bool()
			t.Go("AcceptMuxedListener", func() {
				if viaListener {
					var nl net.Listener = l
					aerr = srpc.AcceptMuxedListener(bg, nl, srv, nil)
				} else {
					for {
						c, err := l.Accept()
						if err != nil {
							aerr = err
							return
						}
						mc2, err := srpc.NewMuxedConn(c, false, nil)
						if err != nil {
							t.Failf("mux: %v", err)
							return
						}
						t.Go("AcceptMuxedConn", func() { _ = srv.AcceptMuxedConn(bg, mc2) })
					}
				}
			})
			time.Sleep(p)
			cl, _, a1 := l.client()
			time.Sleep(p)
			hctx, cancel := context.WithCancel(bg)
			hangCall(t, cl, hctx)
			t.Go("echo", func() { callEcho(t, cl, "s", "echo", "1") })
			time.Sleep(p)
			if !pending(t, "hang") && calls.get("s.hang ended") != 0 {
				t.Failf("the call ended by itself")
			}
			cl2, _, a2 := l.client()
			t.Go("chat", func() { callChat(t, cl, "s", "chat", "a") })
			t.Go("echo 2", func() { callEcho(t, cl2, "s", "echo", "2") })
			time.Sleep(time.Hour)
			for _, n := range []string{"echo", "chat", "echo 2"} {
				if pending(t, n) {
					t.Failf("%s is not served", n)
				}
			}
			if !pending(t, "AcceptMuxedListener") {
				t.Failf("the listener stopped accepting: %v", aerr)
			}
			cancel()
			_ = a1.Close()
			_ = a2.Close()
			l.v.Do(func() { l.err = errListener })
			t.MustFinish("after all connections ended")
			t.Outcome("%s", calls.String())
		}})
}

// many03 makes n calls over tr.
func many03(t *mc.T, tr transport, n, mode int) {
	var calls tally
	cl, done := tr.make(t, tagServer(&calls))
	one := func(i int) {
		mth := func(k string) string { return fmt.Sprintf("%s-%d", k, i) }
		arg := fmt.Sprint("arg", i)
		switch i % 3 {
		case 0:
			callEcho(t, cl, "s", mth("echo"), arg)
		case 1:
			callChat(t, cl, "s", mth("chat"), arg, "", arg+"!")
		case 2:
			callFail(t, cl, "s", mth("fail"), arg)
		}
	}
	if mode == 0 {
		for i := 0; i < n; i++ {
			one(i)
		}
	} else {
		// all open at the same time
		strms := make([]srpc.Stream, n)
		for i := range strms {
			s, err := cl.NewStream(bg, "s", fmt.Sprintf("chat-%d", i), raw(fmt.Sprint("first", i)))
			if err != nil {
				t.Failf("call %d of %d: %v", i, n, err)
				return
			}
			strms[i] = s
		}
		for j := range strms {
			i := j
			if mode == 2 {
				i = n - 1 - j
			}
			s, tag := strms[i], fmt.Sprintf("s.chat-%d:", i)
			if m, err := recv(s); err != nil || m != tag+fmt.Sprint("first", i) {
				t.Failf("call %d of %d received %q, %v", i, n, m, err)
				return
			}
			if err := s.MsgSend(raw("x")); err != nil {
				t.Failf("call %d of %d: send: %v", i, n, err)
				return
			}
			if err := s.CloseSend(); err != nil {
				t.Failf("call %d of %d: half-close: %v", i, n, err)
				return
			}
			if m, err := recv(s); err != nil || m != tag+"x" {
				t.Failf("call %d of %d received %q, %v", i, n, m, err)
				return
			}
			if m, err := recv(s); err != io.EOF {
				t.Failf("call %d of %d received %q, %v", i, n, m, err)
				return
			}
			_ = s.Close()
		}
	}
	t.Idle()
	for i := 0; i < n; i++ {
		k := "chat"
		if mode == 0 {
			k = []string{"echo", "chat", "fail"}[i%3]
		}
		if c := calls.get(fmt.Sprintf("s.%s-%d", k, i)); c != 1 {
			t.Failf("the handler of call %d was invoked %d times", i, c)
		}
	}
	done()
	t.MustFinish("after the calls")
	t.Outcome("%d %d", n, mode)
}

// slow15 relays raw bytes or packets with pauses.
func slow15(t *mc.T, ack bool) {
	p := pauses[t.Choose(len(pauses))]
	slowLookup, proxy := t.Bool(), t.Bool()
	released := false
	rel := func() { mc.Quiet(func() { released = true }) }
	wait := func(ctx context.Context) {
		if slowLookup {
			time.Sleep(p)
		}
		if err := ctx.Err(); err != nil {
			t.Failf("the lookup's context ended: %v", err)
		}
	}
	tc, ta, tb := newConn(t)
	_ = tc
	target := func(rw io.ReadWriter) {
		got := make([]byte, 2)
		if _, err := io.ReadFull(rw, got); err != nil || string(got) != "up" {
			t.Failf("the target read %q, %v", got, err)
		}
		if !slowLookup {
			time.Sleep(p)
		}
		if released {
			t.Failf("released while the relay is in use")
		}
		if _, err := rw.Write([]byte("down")); err != nil {
			t.Failf("the target's write: %v", err)
		}
		if !slowLookup {
			time.Sleep(p)
		}
	}
	handler := func(s rpcstream.RpcStream) error {
		return rpcstream.HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			wait(ctx)
			return ta, rel, nil
		})
	}
	if proxy {
		remote := outerConn(t, bg, func(s rpcstream.RpcStream) error {
			pkt, err := s.Recv()
			if err != nil || pkt.GetInit().GetComponentId() != "x" {
				t.Failf("the target of the proxy received %v, %v", pkt, err)
				return err
			}
			if err := s.Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{}}}); err != nil {
				return err
			}
			target(rpcstream.NewRpcStreamReadWriter(s))
			return nil
		})
		handler = func(s rpcstream.RpcStream) error {
			return rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rstream], string, func(), error) {
				wait(ctx)
				return openOuter(remote), "x", rel, nil
			})
		}
	} else {
		t.Go("target", func() { target(tb); _ = tb.Close() })
	}
	ocl := outerConn(t, bg, handler)
	t.Go("opener", func() {
		s, err := rpcstream.OpenRpcStream(bg, openOuter(ocl), "comp", ack)
		if err != nil {
			t.Failf("open: %v", err)
			return
		}
		rw := rpcstream.NewRpcStreamReadWriter(s)
		if !slowLookup {
			time.Sleep(p)
		}
		if _, err := rw.Write([]byte("up")); err != nil {
			t.Failf("write: %v", err)
		}
		got, err := readBytes(rw, 3)
		if string(got) != "down" {
			t.Failf("the opener read %q, %v", got, err)
		}
		_ = s.Close()
	})
	time.Sleep(10*p + time.Minute)
	t.MustFinish("the relay")
	if !released {
		t.Failf("not released")
	}
	t.Outcome("%v %v", slowLookup, proxy)
}
