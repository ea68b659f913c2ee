package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	ymuxer "github.com/libp2p/go-libp2p/p2p/muxer/yamux"

	"verifmc/mc"
)

// Large messages and large amounts of data.

// bulkSizes lists what is sent in one direction.
var bulkSizes = [][]int{{65536, 65537, 1}, {200000, 0, 200000}, {1<<20 - 1, 1<<20 + 1}, {1500000}, nil}

func bulkMsgs(k int, seed byte) (l []string) {
	ns := bulkSizes[k]
	if ns == nil {
		for i := 0; i < 30; i++ {
			ns = append(ns, 20000+i)
		}
	}
	for i, n := range ns {
		l = append(l, pattern(n, seed+byte(i)))
	}
	return l
}

// sameBulk says where two lists of large messages differ.
func sameBulk(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d of %d messages", len(got), len(want))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("message %d of %d bytes came as %d bytes", i, len(want[i]), len(got[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d messages instead of %d", len(got), len(want))
	}
	return ""
}

func init() {
	for _, tr := range transports {
		reg(&mc.Scenario{Prop: "P01", Name: "bulk-" + tr.name, Quick: 0, Thorough: 0, MaxEvents: 5000000,
			Doc: "messages of 64 KiB to 1.5 MB, and 30 of 20000 bytes, in each direction, receivers that keep up or come late, over " + tr.name,
			Main: func(t *mc.T) {
				k := t.Choose(len(bulkSizes))
				duplex{up: bulkMsgs(k, 1), down: bulkMsgs(len(bulkSizes)-1-k, 90), first: t.Bool(), late: t.Bool()}.run(t, tr.make)
			}})
	}
	reg(&mc.Scenario{Prop: "P02", Name: "server-stopping", Quick: 2, Thorough: 3,
		Doc: "the context the server was given is cancelled before or during a call while the transport goes on: the caller is told what the handler returned",
		Main: func(t *mc.T) {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			early, unary := t.Bool(), t.Bool()
			ret := []error{nil, errors.New("stopping"), errors.New("a longer: text")}[t.Choose(3)]
			inv := srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
				<-s.Context().Done()
				return true, ret
			})
			if early {
				cancel()
			} else {
				t.Go("stop", cancel)
			}
			cl := srpc.NewClient(serverConn(t, ctx, srpc.NewServer(inv), nil))
			var err error
			if unary {
				err = cl.ExecCall(bg, "s", "m", raw("x"), raw(""))
				if ret == nil && err == io.EOF {
					err = nil // there was no response message
				}
			} else {
				s, err2 := cl.NewStream(bg, "s", "m", raw("x"))
				if err2 != nil {
					t.Failf("NewStream: %v", err2)
					return
				}
				if _, err = recvAll(s); err == io.EOF {
					err = nil
				}
				_ = s.Close()
			}
			if errStr(err) != errStr(ret) {
				t.Failf("the handler returned %v, the caller was told %v", ret, err)
			}
			t.Outcome("%v %v", early, err)
			t.MustFinish("the call")
		}})
	for _, tr := range transports {
		reg(&mc.Scenario{Prop: "P04", Name: "afterwards-" + tr.name, Quick: 0, Thorough: 1,
			Doc: "after the caller's context was cancelled or its deadline passed, with and without the server having answered: every later send and receive of the caller fails with a cancellation, once its handler's context ended also the handler's, over " + tr.name,
			Main: func(t *mc.T) {
				ctx, cancel := context.WithCancel(bg)
				if t.Bool() {
					ctx, cancel = context.WithTimeout(bg, time.Second)
				}
				defer cancel()
				answers := t.Choose(2)
				inv := srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
					for i := 0; i < answers; i++ {
						_ = s.MsgSend(raw("m"))
					}
					<-s.Context().Done()
					for i := 0; i < 2; i++ {
						if err := s.MsgSend(raw("late")); err == nil {
							t.Failf("the handler sends after its context ended")
						}
					}
					return true, errGaveUp
				})
				cl, done := tr.make(t, inv)
				s, err := cl.NewStream(ctx, "s", "m", raw("x"))
				if err != nil {
					t.Failf("NewStream: %v", err)
					return
				}
				t.Idle()
				if _, ok := ctx.Deadline(); ok {
					time.Sleep(2 * time.Second)
				} else {
					cancel()
				}
				for i := 0; i < 2; i++ {
					if err := s.MsgSend(raw("late")); !isCancel(err) {
						t.Failf("send %d after the context ended: %v", i, err)
					}
				}
				for i := 0; i <= answers; i++ {
					m, err := recv(s)
					if err == nil && (m != "m" || i == answers) {
						t.Failf("received %q after the context ended", m)
					}
					if err != nil && !isCancel(err) && err.Error() != errGaveUp.Error() {
						t.Failf("receive after the context ended: %v", err)
					}
				}
				_ = s.Close()
				done()
				t.MustFinish("the call")
				t.Outcome("%d", answers)
			}})
	}
	reg(&mc.Scenario{Prop: "P05", Name: "cancel-lost", Quick: 1, Thorough: 2,
		Doc: "the writer fails from the second, third or fourth packet on while the transport does not report anything; the caller sends, half-closes and closes the stream: nothing stays registered, the writer is closed, a pending receive ends",
		Main: func(t *mc.T) {
			pctx := newRegCtx()
			left := 1 + t.Choose(3)
			do, recv, twice := t.Choose(4), t.Bool(), t.Bool()
			w := &nullWriter{}
			lw := &limitWriter{PacketWriter: w, left: left}
			cl := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
				return lw, nil
			})
			s, err := cl.NewStream(pctx, "s", "m", raw("x"))
			if err != nil {
				t.Failf("NewStream: %v", err)
				return
			}
			if recv {
				t.Go("recv", func() {
					if err := s.MsgRecv(raw("")); err == nil {
						t.Failf("received a message out of nothing")
					}
				})
			}
			switch do {
			case 1:
				_ = s.MsgSend(raw("a"))
			case 2:
				_ = s.CloseSend()
			case 3:
				_ = s.MsgSend(raw("a"))
				_ = s.CloseSend()
			}
			_ = s.Close()
			if twice {
				_ = s.Close()
			}
			t.Idle()
			if n := pctx.registered(); n != 0 {
				t.Failf("after closing the stream: %d registration(s) left on the caller's context", n)
			}
			if w.closed == 0 {
				t.Failf("after closing the stream the writer is not closed")
			}
			t.MustFinish("after closing the stream")
			t.Outcome("%d %d", left, do)
		}})
	reg(&mc.Scenario{Prop: "P03", Name: "stuck-opening", Quick: 1, Thorough: 2,
		Doc: "one or two calls whose transport streams do not open, or whose call start cannot be written, while two others of the same client are made: these complete; then the stuck ones go on",
		Main: func(t *mc.T) {
			var calls tally
			n, where := 1+t.Choose(2), t.Choose(2)
			var open mc.Flag
			srv := srpc.NewServer(tagServer(&calls))
			inner := serverConn(t, bg, srv, nil)
			i := 0
			var mine mc.Var
			cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
				stuck := false
				mine.Do(func() { stuck = i < n; i++ })
				if stuck && where == 0 {
					open.Wait()
				}
				w, err := inner(ctx, mh, ch)
				if stuck && where == 1 && err == nil {
					w = &waitWriter{PacketWriter: w, open: &open}
				}
				return w, err
			})
			for k := 0; k < n; k++ {
				t.Go(fmt.Sprint("stuck ", k), func() { callEcho(t, cl, "s", fmt.Sprint("echo-stuck", k), "a") })
				t.Idle()
			}
			t.Go("echo", func() { callEcho(t, cl, "s", "echo-b", "b") })
			t.Go("chat", func() { callChat(t, cl, "s", "chat-c", "c", "", "d") })
			t.Idle()
			for _, g := range []string{"echo", "chat"} {
				if pending(t, g) {
					t.Failf("%s waits for another call to be opened", g)
				}
			}
			open.Set()
			t.MustFinish("the calls")
			t.Outcome("%s", calls.String())
		}})
	reg(&mc.Scenario{Prop: "P13", Name: "expired-caller", Quick: 0, Thorough: 0,
		Doc: "client sets whose clients answer cancelled, deadline exceeded or unimplemented while the caller's context is live, cancelled or past its deadline: the outcome is the client's",
		Main: func(t *mc.T) {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			state := t.Choose(3)
			switch state {
			case 1:
				cancel()
			case 2:
				var c2 context.CancelFunc
				ctx, c2 = context.WithTimeout(bg, time.Second)
				defer c2()
				time.Sleep(2 * time.Second)
			}
			answer := []error{context.Canceled, context.DeadlineExceeded, srpc.ErrUnimplemented}[t.Choose(3)]
			stream := t.Bool()
			log := new([]string)
			in, out := raw("in"), raw("out")
			var cls []srpc.Client
			for i := 0; i < 2; i++ {
				cls = append(cls, &fakeClient{name: fmt.Sprint(i), log: log, ctx: ctx, in: in, out: out, do: func(context.Context) (srpc.Stream, error) { return nil, answer }})
			}
			_, err := callBoth(srpc.NewClientSet(cls), stream, ctx, "s", "m", in, out)
			want, tried := answer, 1
			if answer == srpc.ErrUnimplemented || answer == context.Canceled && state == 0 {
				want, tried = srpc.ErrUnimplemented, 2
			}
			if err != want || len(*log) != tried {
				t.Failf("caller %d, answer %v: tried %v, returned %v, want %v", state, answer, *log, err, want)
			}
			t.Outcome("%d %v", state, err)
		}})
	for _, ack := range []bool{false, true} {
		reg(&mc.Scenario{Prop: "P14", Name: fmt.Sprintf("bulk-%v", ack), Quick: 0, Thorough: 0, MaxEvents: 5000000,
			Doc: "nested calls with messages of 64 KiB to 1.5 MB in each direction",
			Main: func(t *mc.T) {
				k := t.Choose(len(bulkSizes))
				mk := func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
					ocl := outerConn(t, bg, func(s rpcstream.RpcStream) error {
						return rpcstream.HandleRpcStream(s, func(context.Context, string) (srpc.Invoker, func(), error) { return inv, nil, nil })
					})
					return rpcstream.NewRpcStreamClient(openOuter(ocl), "comp", ack), func() {}
				}
				duplex{up: bulkMsgs(k, 1), down: bulkMsgs(len(bulkSizes)-1-k, 90), late: t.Bool()}.run(t, mk)
			}})
		reg(&mc.Scenario{Prop: "P15", Name: fmt.Sprintf("bulk-%v", ack), Quick: 0, Thorough: 0, MaxEvents: 5000000,
			Doc:  "64 KiB to 1.5 MB in each direction through a raw relay, and messages of that size through a proxy",
			Main: func(t *mc.T) { bulk15(t, ack, t.Choose(len(bulkSizes)), t.Bool()) }})
	}
	reg(&mc.Scenario{Prop: "P14", Name: "first-packet", Quick: 0, Thorough: 0,
		Doc: "opening a nested stream with acknowledgement, every first packet (and the one after it): succeeds for an ack without an error, and nothing is taken from the stream after it; otherwise fails and closes the stream",
		Main: func(t *mc.T) {
			syms := [][]byte{
				encMsg(rpcAck("")), encMsg(rpcAck("no")), encMsg(rpcData([]byte("d"))), encMsg(rpcData(nil)),
				encMsg(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "a"}}}), {}, {0xff},
			}
			mc.Quiet(func() {
				for i := -1; i < len(syms); i++ {
					for j := range syms {
						mc.Case()
						s := &script{end: io.EOF}
						if i >= 0 {
							s.in = [][]byte{syms[i], syms[j]}
						}
						got, err := rpcstream.OpenRpcStream(bg, func(context.Context) (*script, error) { return s, nil }, "comp", true)
						switch {
						case i == 0 && (err != nil || s.closed != 0 || len(s.in) != 1 || got == nil):
							t.Failf("after an ack: %v, closed %d times, %d packets left", err, s.closed, len(s.in))
						case i != 0 && (err == nil || s.closed == 0):
							t.Failf("first packet %d, then %d: %v, closed %d times", i, j, err, s.closed)
						case i == 1 && !bytes.Contains([]byte(err.Error()), []byte("no")):
							t.Failf("the error of the ack became %v", err)
						}
					}
				}
			})
		}})
	reg(&mc.Scenario{Prop: "P16", Name: "bulk", Quick: 0, Thorough: 0,
		Doc: "messages of up to 300000 bytes read in pieces of up to 400000 bytes",
		Main: func(t *mc.T) {
			nested := t.Bool()
			mc.Quiet(func() {
				for _, a := range []int{65535, 65537, 140000, 300000} {
					for _, b := range []int{0, 1, 70000} {
						for _, x := range []int{1, 20000, 65536, 70000, 400000} {
							for _, y := range []int{9000, 65536, 131072, 400000} {
								p16read(t, nested, []int{a, b, 5}, io.EOF, []int{x, y})
							}
						}
					}
				}
			})
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "addresses", Quick: 0, Thorough: 0,
		Doc: "the connection reports the addresses it was given, each in its own place, also if one is missing",
		Main: func(t *mc.T) {
			_, a, b := newConn(t)
			l, r := named("local"), named("remote")
			for k := 0; k < 4; k++ {
				var c *srpc.RwcConn
				switch k {
				case 0:
					c = srpc.NewRwcConn(bg, a, nil, nil, 1)
				case 1:
					c = srpc.NewRwcConn(bg, a, l, nil, 1)
				case 2:
					c = srpc.NewRwcConn(bg, a, nil, r, 1)
				case 3:
					c = srpc.NewRwcConn(bg, a, l, r, 1)
				}
				if x := c.LocalAddr(); (x == nil) != (k&1 == 0) || x != nil && x != l {
					t.Failf("local address %v in case %d", x, k)
				}
				if x := c.RemoteAddr(); (x == nil) != (k&2 == 0) || x != nil && x != r {
					t.Failf("remote address %v in case %d", x, k)
				}
				if k == 3 {
					_ = c.Close()
				}
			}
			_ = b.Close()
			t.MustFinish("closing")
		}})
	reg(&mc.Scenario{Prop: "P18", Name: "many", Quick: 0, Thorough: 0, MaxEvents: 5000000,
		Doc: "20, 70 or 130 calls that stay open on one connection, or as many connections of one listener: a further call is served, and all end with their connections",
		Main: func(t *mc.T) {
			n := []int{20, 70, 130}[t.Choose(3)]
			conns := t.Bool()
			var calls tally
			l := &listener{t: t}
			t.Go("AcceptMuxedListener", func() { _ = srpc.AcceptMuxedListener(bg, l, srpc.NewServer(tagServer(&calls)), nil) })
			cl, _, a := l.client()
			ends := []io.Closer{a}
			for i := 0; i < n; i++ {
				if conns && i > 0 {
					cl, _, a = l.client()
					ends = append(ends, a)
				}
				hangCall(t, cl, bg)
			}
			if got := calls.get("s.hang"); got > n {
				t.Failf("%d calls became %d", n, got)
			}
			t.Go("echo", func() { callEcho(t, cl, "s", "echo", "x") })
			cl2, _, a2 := l.client()
			t.Go("echo 2", func() { callEcho(t, cl2, "s", "echo", "y") })
			t.Idle()
			if pending(t, "echo") || pending(t, "echo 2") {
				t.Failf("after %d open calls no further call is served", n)
			}
			if got := calls.get("s.hang"); got != n {
				t.Failf("%d of %d calls were served", got, n)
			}
			for _, e := range append(ends, a2) {
				_ = e.Close()
			}
			l.v.Do(func() { l.err = errListener })
			t.MustFinish("after all connections ended")
			t.Outcome("%d", n)
		}})
	reg(&mc.Scenario{Prop: "P18", Name: "late-start", Quick: 0, Thorough: 0, Horizon: longRun, MaxEvents: 2000000,
		Doc: "a stream of a multiplexed connection on which nothing, or only a part of a packet, is sent for a second to hours (virtual time): the call that is then started on it is served",
		Main: func(t *mc.T) {
			p := pauses[t.Choose(len(pauses))]
			var calls tally
			_, a, b := newConn(t)
			m1, err := srpc.NewMuxedConn(a, true, nil)
			if err != nil {
				t.Failf("mux: %v", err)
			}
			m2, err := srpc.NewMuxedConn(b, false, nil)
			if err != nil {
				t.Failf("mux: %v", err)
			}
			t.Go("AcceptMuxedConn", func() { _ = srpc.NewServer(tagServer(&calls)).AcceptMuxedConn(bg, m2) })
			f := frame(enc(srpc.NewCallStartPacket("s", "echo", []byte("x"), false)))
			cut := []int{0, 1, 4, 6}[t.Choose(4)]
			t.Go("call", func() {
				s, err := m1.OpenStream(bg)
				if err != nil {
					t.Failf("open: %v", err)
					return
				}
				if cut > 0 {
					_, _ = s.Write(f[:cut])
				}
				time.Sleep(p)
				if _, err := s.Write(f[cut:]); err != nil {
					t.Failf("write after %v: %v", p, err)
				}
				got := make([]byte, 4)
				if _, err := io.ReadFull(s, got); err != nil {
					t.Failf("no answer to a call started after %v: %v", p, err)
				}
				_ = s.Close()
			})
			time.Sleep(p + time.Hour)
			if calls.get("s.echo") != 1 || pending(t, "call") {
				t.Failf("a call started after %v is not served", p)
			}
			_ = a.Close()
			t.MustFinish("after the connection ended")
			t.Outcome("%d", cut)
		}})
	reg(&mc.Scenario{Prop: "P18", Name: "configs", Quick: 0, Thorough: 0,
		Doc: "changing the configuration made for one connection changes neither the next one nor the library's default",
		Main: func(t *mc.T) {
			mc.Quiet(func() {
				def := *ymuxer.DefaultTransport.Config()
				a := srpc.NewYamuxConfig()
				was := *a
				a.AcceptBacklog, a.MaxStreamWindowSize, a.EnableKeepAlive, a.MaxMessageSize, a.MaxIncomingStreams = 1, 300000, !a.EnableKeepAlive, 17, 2
				b := srpc.NewYamuxConfig()
				if *b != was || a == b {
					t.Failf("a configuration made later is %+v instead of %+v", *b, was)
				}
				if now := *ymuxer.DefaultTransport.Config(); now != def {
					t.Failf("the default configuration became %+v instead of %+v", now, def)
				}
			})
		}})
	reg(&mc.Scenario{Prop: "P20", Name: "bulk", Quick: 1, Thorough: 1,
		Doc: "messages of 64 KiB to 1.5 MB, and 30 of 20000 bytes, through the pipe",
		Main: func(t *mc.T) {
			a, b := srpc.NewPipeStream(bg)
			msgs := bulkMsgs(t.Choose(len(bulkSizes)), 3)
			t.Go("send", func() {
				if sendAll(t, "sender", a, msgs) {
					_ = a.CloseSend()
				}
			})
			t.Go("recv", func() {
				got, err := recvAll(b)
				if d := sameBulk(got, msgs); d != "" || err != io.EOF {
					t.Failf("received %s, then %v", d, err)
				}
			})
			t.MustFinish("the pipe")
			_ = a.Close()
			_ = b.Close()
		}})
}

// limitWriter fails after some packets.
type limitWriter struct {
	srpc.PacketWriter
	left int
}

func (w *limitWriter) WritePacket(p *srpc.Packet) error {
	if w.left == 0 {
		return errReset
	}
	w.left--
	return w.PacketWriter.WritePacket(p)
}

// waitWriter waits before its first packet.
type waitWriter struct {
	srpc.PacketWriter
	open *mc.Flag
}

func (w *waitWriter) WritePacket(p *srpc.Packet) error {
	w.open.Wait()
	return w.PacketWriter.WritePacket(p)
}

type named string

func (n named) Network() string { return "test" }
func (n named) String() string  { return string(n) }

// bulk15 sends large amounts of data through a relay and ends it orderly.
func bulk15(t *mc.T, ack bool, k int, proxy bool) {
	up, down := bulkMsgs(k, 1), bulkMsgs(len(bulkSizes)-1-k, 90)
	r := &relay{t: t}
	var ocl srpc.Client
	var atTarget []string
	join := func(l []string) (o string) {
		for _, s := range l {
			o += s
		}
		return o
	}
	tc, ta, tb := newConn(t)
	if proxy {
		target := srpc.NewClient(serverConn(t, bg, srpc.NewServer(srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
			return true, rpcstream.HandleRpcStream(&rstream{s}, func(context.Context, string) (srpc.Invoker, func(), error) {
				return srpc.InvokerFunc(func(_, _ string, s srpc.Stream) (bool, error) {
					if !sendAll(t, "target", s, down) {
						return true, nil
					}
					got, err := recvAll(s)
					atTarget = got
					if err == io.EOF {
						err = nil
					}
					return true, err
				}), nil, nil
			})
		})), nil))
		ocl = outerConn(t, bg, func(s rpcstream.RpcStream) error {
			return r.handled(rpcstream.HandleProxyRpcStream(s, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rstream], string, func(), error) {
				r.look(id)
				return openOuter(target), "x" + id, r.release, nil
			}))
		})
		cl := rpcstream.NewRpcStreamClient(openOuter(ocl), "comp", ack)
		s, err := cl.NewStream(bg, "s", "m", nil)
		if err != nil {
			t.Failf("NewStream: %v", err)
			return
		}
		t.Go("send", func() {
			if sendAll(t, "opener", s, up) {
				_ = s.CloseSend()
			}
		})
		t.Go("recv", func() {
			got, err := recvAll(s)
			if d := sameBulk(got, down); d != "" || err != io.EOF {
				t.Failf("the opener received %s, then %v", d, err)
			}
		})
		t.Idle()
		if d := sameBulk(atTarget, up); d != "" {
			t.Failf("the target received %s", d)
		}
		_ = s.Close()
		_ = tc
		_ = ta.Close()
		_ = tb.Close()
	} else {
		ocl = outerConn(t, bg, func(s rpcstream.RpcStream) error {
			return r.handled(rpcstream.HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
				r.look(id)
				return ta, r.release, nil
			}))
		})
		strm, err := rpcstream.OpenRpcStream(bg, openOuter(ocl), "comp", ack)
		if err != nil {
			t.Failf("open: %v", err)
			return
		}
		rw := rpcstream.NewRpcStreamReadWriter(strm)
		wantUp, wantDown := join(up), join(down)
		both := func(name string, w io.Writer, rd io.Reader, out []string, want string) {
			t.Go(name+".write", func() {
				for _, m := range out {
					if n, err := w.Write([]byte(m)); n != len(m) || err != nil {
						t.Failf("%s: write of %d bytes: %d, %v", name, len(m), n, err)
						return
					}
				}
			})
			t.Go(name+".read", func() {
				got := make([]byte, len(want))
				n, err := io.ReadFull(rd, got)
				if err != nil || string(got) != want {
					t.Failf("%s: read %d of %d bytes, %v, equal: %v", name, n, len(want), err, string(got[:n]) == want[:n])
				}
			})
		}
		both("opener", rw, rw, up, wantDown)
		both("target", tb, tb, down, wantUp)
		t.Idle()
		for _, p := range t.Pending() {
			if p == "opener.read" || p == "opener.write" || p == "target.read" || p == "target.write" {
				t.Failf("%s: not everything was relayed", p)
			}
		}
		_ = tb.Close()
		t.Idle()
		_ = strm.Close()
	}
	t.MustFinish("the relay")
	if l := t.Live(); l != 0 {
		t.Failf("%d goroutine(s) left", l)
	}
	t.Outcome("%d %v", k, proxy)
}
