package props

import (
	"context"
	"errors"

	"net"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

var errListener = errors.New("listener failed")

// listener is a harness-owned net.Listener.
type listener struct {
	t      *mc.T
	v      mc.Var
	q      []*end
	err    error
	closed bool
	conns  []*conn
}

func (l *listener) Accept() (nc net.Conn, err error) {
	l.v.Wait(func() bool {
		if l.closed {
			err = net.ErrClosed
			return true
		}
		if len(l.q) != 0 {
			nc, l.q = l.q[0], l.q[1:]
			return true
		}
		err = l.err
		return err != nil
	})
	return nc, err
}

func (l *listener) Close() error   { l.v.Do(func() { l.closed = true }); return nil }
func (l *listener) Addr() net.Addr { return addr{} }

// connect makes a new connection to the listener.
func (l *listener) connect() (*conn, *end, error) {
	c, a, b := newConn(l.t)
	var err error
	l.v.Do(func() {
		if l.closed || l.err != nil {
			err = errors.New("connection refused")
			return
		}
		l.q = append(l.q, b)
		l.conns = append(l.conns, c)
	})
	return c, a, err
}

// client makes a new client of the listener.
func (l *listener) client() (srpc.Client, *conn, *end) {
	c, a, err := l.connect()
	if err != nil {
		l.t.Failf("connect: %v", err)
	}
	cl, err := srpc.NewClientWithConn(a, true, nil)
	if err != nil {
		l.t.Failf("client: %v", err)
	}
	return cl, c, a
}

func (c *conn) kill(err error) {
	c.v.Do(func() { c.dead = err; c.buf[0], c.buf[1] = nil, nil })
}

// hangCall starts a call that stays open until its context or connection ends.
func hangCall(t *mc.T, cl srpc.Client, ctx context.Context) {
	var open mc.Flag
	t.Go("hanging call", func() {
		s, err := cl.NewStream(ctx, "s", "hang", raw("x"))
		open.Set()
		if err != nil {
			return
		}
		if _, err := recv(s); err == nil {
			t.Failf("the hanging call received something")
		}
		_ = s.Close()
	})
	open.Wait()
}

func pending(t *mc.T, name string) bool {
	for _, p := range t.Pending() {
		if p == name {
			return true
		}
	}
	return false
}

func init() {
	stalls := []string{"a call that hangs", "a stream without data", "a stream with part of a length", "a stream with a huge length", "a stream with an invalid packet", "a stream closed at once"}
	ends := []string{"client closes", "server closes", "connection fails", "context cancelled, client closes"}
	reg(&mc.Scenario{Prop: "P18", Name: "streams", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "two streams of one multiplexed connection stall or misbehave in each of 6 ways while two calls run on it; then the connection ends in each of 4 ways: the calls complete meanwhile, afterwards accepting stops with an error, all handlers end and no goroutine is left",
		Main: func(t *mc.T) {
			st, st2, how := t.Choose(len(stalls)), t.Choose(2), t.Choose(len(ends))
			var calls tally
			ctx, cancel := context.WithCancel(bg)
			c, a, b := newConn(t)
			smc, err := srpc.NewMuxedConn(b, false, nil)
			if err != nil {
				t.Failf("mux: %v", err)
				return
			}
			cmc, err := srpc.NewMuxedConn(a, true, nil)
			if err != nil {
				t.Failf("mux: %v", err)
				return
			}
			var aerr error
			t.Go("AcceptMuxedConn", func() { aerr = srpc.NewServer(tagServer(&calls)).AcceptMuxedConn(ctx, smc) })
			cl := srpc.NewClientWithMuxedConn(cmc)
			cctx, ccancel := context.WithCancel(bg)
			for i, k := range []int{st, st * st2} {
				if i == 1 && st2 == 0 {
					break
				}
				if k == 0 {
					hangCall(t, cl, cctx)
					continue
				}
				s, err := cmc.OpenStream(bg)
				if err != nil {
					t.Failf("open stream: %v", err)
					return
				}
				b := [][]byte{nil, nil, {5, 0}, {0xff, 0xff, 0xff, 0xff}, {1, 0, 0, 0, 0xff}, nil}[k]
				if len(b) != 0 {
					_, _ = s.Write(b)
				}
				if k == 5 {
					_ = s.Close()
				}
				t.Go("stalled stream reader", func() { _, _ = readBytes(s, 16) })
			}
			t.Go("unary", func() { callEcho(t, cl, "s", "echo", "1") })
			t.Go("chat", func() { callChat(t, cl, "s", "chat", "a", "b") })
			t.Idle()
			if pending(t, "unary") || pending(t, "chat") {
				t.Failf("calls are blocked by %s", stalls[st])
				return
			}
			if !pending(t, "AcceptMuxedConn") {
				t.Failf("with %s the server stopped accepting: %v", stalls[st], aerr)
			}
			if st == 0 && !pending(t, "hanging call") {
				t.Failf("the hanging call ended")
			}
			switch how {
			case 0:
				_ = cmc.Close()
			case 1:
				_ = smc.Close()
			case 2:
				c.kill(errReset)
			case 3:
				cancel()
				t.Idle()
				_ = cmc.Close()
			}
			t.MustFinish("after the connection ended: " + ends[how])
			if aerr == nil {
				t.Failf("AcceptMuxedConn returned nil")
			}
			ccancel()
			cancel()
			_ = cmc.Close()
			_ = smc.Close()
			t.Idle()
			if n := t.Live(); n != 0 {
				t.Failf("%d goroutine(s) left after the connection ended", n)
			}
			t.Outcome("%s %s %v", stalls[st], ends[how], aerr)
		}})

	reg(&mc.Scenario{Prop: "P18", Name: "bad-answer", Quick: 0, Thorough: 1,
		Doc: "the other side of a multiplexed connection answers the first stream with an undecodable, invalid or forbidden packet, a bad length, its end, a reset or nothing, before or while a call runs on the second stream and one on a third: that call ends or is cancelled, the others complete, and the connection stays open",
		Main: func(t *mc.T) {
			bad := []string{"\x01\x00\x00\x00\xff", "\x02\x00\x00\x00\x12\x00", "\x04\x00\x00\x00\x12\x02\x1a\x00", "\x06\x00\x00\x00\x0a\x04\x0a\x01s\x12",
				"\xff\xff\xff\xff", "\x00\x00\x00\x00", "\x05\x00", "\x02\x00\x00\x00\x18\x01", "", "", ""}
			k := t.Choose(len(bad))
			atOnce, unary := t.Bool(), t.Bool()
			var calls tally
			_, a, b := newConn(t)
			smc, err := srpc.NewMuxedConn(b, false, nil)
			if err != nil {
				t.Failf("mux: %v", err)
				return
			}
			cmc, err := srpc.NewMuxedConn(a, true, nil)
			if err != nil {
				t.Failf("mux: %v", err)
				return
			}
			srv := srpc.NewServer(tagServer(&calls))
			t.Go("server", func() {
				for i := 0; ; i++ {
					s, err := smc.AcceptStream()
					if err != nil {
						return
					}
					if i != 0 {
						go srv.HandleStream(bg, s)
						continue
					}
					t.Go("first stream", func() {
						if !atOnce {
							_, _ = readBytes(s, 4)
						}
						if bad[k] != "" {
							_, _ = s.Write([]byte(bad[k]))
						}
						switch k {
						case 8:
							_ = s.CloseWrite()
						case 9:
							_ = s.Reset()
						}
					})
				}
			})
			cl := srpc.NewClientWithMuxedConn(cmc)
			ctx, cancel := context.WithCancel(bg)
			var open mc.Flag
			t.Go("first call", func() {
				if unary {
					open.Set()
					if cl.ExecCall(ctx, "s", "m", raw("x"), srpc.NewRawMessage(nil, true)) == nil {
						t.Failf("the first call succeeded")
					}
					return
				}
				s, err := cl.NewStream(ctx, "s", "m", raw("x"))
				open.Set()
				if err != nil {
					return
				}
				if m, err := recv(s); err == nil {
					t.Failf("the first call received %q", m)
				}
				_ = s.Close()
			})
			open.Wait()
			if unary {
				// the first stream has to be the first call's
				t.Idle()
			}
			t.Go("unary", func() { callEcho(t, cl, "s", "echo", "1") })
			t.Go("chat", func() { callChat(t, cl, "s", "chat", "a", "b") })
			t.Idle()
			if pending(t, "unary") || pending(t, "chat") {
				t.Failf("calls are blocked by the answer %q of another stream", bad[k])
				return
			}
			cancel()
			t.Idle()
			if pending(t, "first call") {
				t.Failf("the call with the answer %q is still pending", bad[k])
			}
			if !pending(t, "server") || cmc.IsClosed() {
				t.Failf("the answer %q of one stream ended the connection", bad[k])
			}
			callEcho(t, cl, "s", "echo", "2")
			_ = cmc.Close()
			_ = smc.Close()
			t.MustFinish("after the connection ended")
			t.Outcome("%d", k)
		}})

	first := []string{"a call that hangs", "nothing sent", "garbage", "a failed connection", "a closed connection", "a served client"}
	reg(&mc.Scenario{Prop: "P18", Name: "listener", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "a first connection to a listener stalls or misbehaves in each of 6 ways while a second one is used; then the first ends in each way and a third one is used; then the listener fails (also after the context was cancelled and another client connected): every client is served, accepting stops with the listener's error, nothing is left once the connections ended",
		Main: func(t *mc.T) {
			k, how := t.Choose(len(first)), t.Choose(3)
			var calls tally
			l := &listener{t: t}
			var aerr error
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			t.Go("AcceptMuxedListener", func() { aerr = srpc.AcceptMuxedListener(ctx, l, srpc.NewServer(tagServer(&calls)), nil) })
			var c1 *conn
			var a1 *end
			switch k {
			case 0, 5:
				var cl srpc.Client
				cl, c1, a1 = l.client()
				if k == 0 {
					hangCall(t, cl, bg)
				} else {
					t.Go("first call", func() { callEcho(t, cl, "s", "echo", "1") })
				}
			default:
				c1, a1, _ = l.connect()
				t.Go("first reader", func() { _, _ = readBytes(a1, 16) })
				switch k {
				case 2:
					_, _ = a1.Write([]byte("GET / HTTP/1.1\r\n\r\n"))
				case 3:
					c1.kill(errReset)
				case 4:
					_ = a1.Close()
				}
			}
			if t.Bool() {
				t.Idle()
			}
			cl2, _, a2 := l.client()
			t.Go("second client", func() {
				callEcho(t, cl2, "s", "echo", "2")
				callChat(t, cl2, "s", "chat", "a")
			})
			t.Idle()
			if pending(t, "second client") || pending(t, "first call") {
				t.Failf("the second client is not served because of %s", first[k])
				return
			}
			switch how {
			case 0:
				_ = a1.Close()
			case 1:
				c1.kill(errReset)
			}
			t.Idle()
			cl3, _, a3 := l.client()
			t.Go("third client", func() { callEcho(t, cl3, "s", "echo", "3") })
			t.Go("second client again", func() { callEcho(t, cl2, "s", "echo", "4") })
			t.Idle()
			if pending(t, "third client") || pending(t, "second client again") {
				t.Failf("clients are not served after the first connection (%s) ended", first[k])
				return
			}
			if !pending(t, "AcceptMuxedListener") {
				t.Failf("the listener stopped accepting: %v", aerr)
			}
			ends := []*end{a1, a2, a3}
			cancelled := how == 2 && t.Bool()
			if cancelled {
				cancel()
				_, a4, _ := l.connect()
				ends = append(ends, a4)
				t.Go("fourth reader", func() { _, _ = readBytes(a4, 16) })
				t.Idle()
			}
			l.v.Do(func() { l.err = errListener })
			t.Idle()
			if pending(t, "AcceptMuxedListener") || aerr != errListener && (!cancelled || aerr == nil) {
				t.Failf("the listener failed (context cancelled: %v), AcceptMuxedListener returned %v", cancelled, aerr)
			}
			for _, a := range ends {
				_ = a.Close()
			}
			t.MustFinish("after all connections ended")
			if n := t.Live(); n != 0 {
				t.Failf("%d goroutine(s) left after all connections ended", n)
			}
			t.Outcome("%s %d %s", first[k], how, calls.String())
		}})

	reg(&mc.Scenario{Prop: "P18", Name: "dial-listen", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "two clients made by Dial call a server run by Listen, one with a call that hangs; then the context is cancelled, the error channel fires or the listener fails: Listen returns that, the listener is closed and nothing is left once the connections ended",
		Main: func(t *mc.T) {
			how := t.Choose(3)
			var calls tally
			l := &listener{t: t}
			var up mc.Flag
			var dialed []*end
			net.VerifListen = func(context.Context, string, string) (net.Listener, error) { up.Set(); return l, nil }
			net.VerifDial = func(context.Context, string, string) (net.Conn, error) {
				up.Wait()
				_, a, err := l.connect()
				if err != nil {
					return nil, err
				}
				mc.Quiet(func() { dialed = append(dialed, a) })
				return a, nil
			}
			defer func() { net.VerifListen, net.VerifDial = nil, nil }()
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			errCh := make(chan error, 1)
			var lerr error
			t.Go("Listen", func() { lerr = srpc.Listen(ctx, "127.0.0.1:1", srpc.NewServer(tagServer(&calls)), errCh) })
			for _, kind := range []string{"hang", "echo"} {
				kind := kind
				t.Go("client "+kind, func() {
					cl, err := srpc.Dial("127.0.0.1:1")
					if err != nil {
						t.Failf("Dial: %v", err)
						return
					}
					if kind == "hang" {
						hangCall(t, cl, bg)
					}
					callEcho(t, cl, "s", "echo", kind)
					callChat(t, cl, "s", "chat", "a")
				})
			}
			t.Idle()
			if pending(t, "client hang") || pending(t, "client echo") {
				t.Failf("a dialled client is not served")
				return
			}
			want := context.Canceled
			switch how {
			case 0:
				cancel()
			case 1:
				want = errLookup
				errCh <- want
			case 2:
				want = errListener
				l.v.Do(func() { l.err = want })
			}
			t.Idle()
			if pending(t, "Listen") || lerr != want {
				t.Failf("Listen returned %v, want %v", lerr, want)
			}
			if !l.closed {
				t.Failf("Listen returned (%v) but its listener is still open", lerr)
			}
			if _, err := srpc.Dial("127.0.0.1:1"); err == nil {
				t.Failf("Dial succeeds after Listen returned")
			}
			for _, a := range dialed {
				_ = a.Close()
			}
			t.MustFinish("after all connections ended")
			if n := t.Live(); n != 0 {
				t.Failf("%d goroutine(s) left after Listen returned and all connections ended", n)
			}
			t.Outcome("%v %s", lerr, calls.String())
		}})
}
