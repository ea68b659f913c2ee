package props

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

var errGaveUp = errors.New("gave up")

// waiters are handlers that end only when their call is cancelled.
var waiters = []struct {
	name string
	run  func(t *mc.T, s srpc.Stream) error
}{
	{"recv", func(t *mc.T, s srpc.Stream) error {
		for {
			if _, err := recv(s); err != nil {
				<-s.Context().Done()
				return errGaveUp
			}
		}
	}},
	{"ctx", func(t *mc.T, s srpc.Stream) error {
		<-s.Context().Done()
		for {
			if _, err := recv(s); err != nil {
				return s.Context().Err()
			}
		}
	}},
	{"send+recv", func(t *mc.T, s srpc.Stream) error {
		done := make(chan struct{})
		t.Go("handler.recv", func() {
			defer close(done)
			for {
				if _, err := recv(s); err != nil {
					return
				}
			}
		})
		for i := 0; i < 3; i++ {
			if s.MsgSend(raw("m")) != nil {
				break
			}
		}
		<-s.Context().Done()
		<-done
		return errGaveUp
	}},
}

// waitServer runs a waiter and counts its begin and end.
func waitServer(t *mc.T, calls *tally, w int) srpc.InvokerFunc {
	return func(svc, mth string, s srpc.Stream) (bool, error) {
		calls.add("begin")
		err := waiters[w].run(t, s)
		calls.add("end")
		return true, err
	}
}

func isCancel(err error) bool {
	return err == context.Canceled || err != nil && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) || err.Error() == "context canceled" || err != nil && err.Error() == "context deadline exceeded")
}

// nested reports a nested transport. There the outer stream is cancelled together with the
// nested call, whose start may fail on the outer stream's closed transport.
func nested(name string) bool { return len(name) > 3 && name[:3] == "rpc" }

// drain receives until an error; the messages must be a prefix of n times "m".
func drain(t *mc.T, s srpc.Stream, max int) error {
	for n := 0; ; n++ {
		m, err := recv(s)
		if err != nil {
			return err
		}
		if m != "m" || n >= max {
			t.Failf("client received unexpected %q", m)
			return io.ErrUnexpectedEOF
		}
	}
}

// viaConnCtx is viaConn with a context for the server.
func viaConnCtx(ctx context.Context) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
		return srpc.NewClient(serverConn(t, ctx, srpc.NewServer(inv), nil)), func() {}
	}
}

// viaMuxCtx is viaMux with a context for the server.
func viaMuxCtx(ctx context.Context) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
		_, a, b := newConn(t)
		smc, err := srpc.NewMuxedConn(b, false, nil)
		if err != nil {
			t.Failf("mux: %v", err)
		}
		cmc, err := srpc.NewMuxedConn(a, true, nil)
		if err != nil {
			t.Failf("mux: %v", err)
		}
		srv := srpc.NewServer(inv)
		t.Go("server.AcceptMuxedConn", func() {
			_ = srv.AcceptMuxedConn(ctx, smc)
			_ = smc.Close()
		})
		return srpc.NewClientWithMuxedConn(cmc), func() {
			_ = cmc.Close()
			_ = smc.Close()
		}
	}
}

// viaRPCCtx nests the call in an rpcstream call whose server has the given context.
func viaRPCCtx(ctx context.Context) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
		outer := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			return true, rpcstream.HandleRpcStream(&rstream{strm}, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
				return inv, func() {}, nil
			})
		})
		ocl, done := viaConnCtx(ctx)(t, outer)
		return rpcstream.NewRpcStreamClient(func(ctx context.Context) (*rstream, error) {
			s, err := ocl.NewStream(ctx, "host", "rpc", nil)
			if err != nil {
				return nil, err
			}
			return &rstream{s}, nil
		}, "comp", false), done
	}
}

func init() {
	for _, tr := range transports {
		q, th := 2, 3
		w := 1
		uq, uth := 1, 2
		bc := uint8(mc.Free)
		if heavy(tr.name) {
			q, th = 1, 2
			w = 3
		}
		sq, sw := q, w
		if tr.name == "pipe" {
			sq = 1
		}
		if tr.name == "mux" {
			bc, sw = 1, 8
		} else if nested(tr.name) {
			bc, uq, uth = 1, 2, 3
		}
		reg(&mc.Scenario{Prop: "P04", Name: "unary-" + tr.name, Quick: uq, Thorough: uth, Weight: w, BlockCost: bc,
			Doc: "a unary call over " + tr.name + " to a handler that waits for its cancellation, ended by cancelling or by deadline at any point (also before the call)",
			Main: func(t *mc.T) {
				wi := t.Choose(2)
				how := t.Choose(3)
				var calls tally
				cl, done := tr.make(t, waitServer(t, &calls, wi))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				switch how {
				case 0:
					t.Go("canceller", cancel)
				case 1:
					cancel()
				case 2:
					ctx, cancel = context.WithTimeout(ctx, time.Second)
					defer cancel()
				}
				out := srpc.NewRawMessage(nil, true)
				err := cl.ExecCall(ctx, "s", "m", raw("x"), out)
				if !isCancel(err) && !(err != nil && nested(tr.name)) && !(tr.name == "pipe" && err != nil && (err == io.EOF || err.Error() == "gave up")) {
					t.Failf("cancelled unary call returned %v", errStr(err))
				}
				t.Idle()
				if b, e := calls.get("begin"), calls.get("end"); b != e || b > 1 || how == 1 && b != 0 {
					t.Failf("after the unary call was cancelled: %s", calls.String())
				}
				t.Outcome("%d %d %s", wi, how, calls.String())
				done()
				t.MustFinish("after the call was cancelled")
			}})
		reg(&mc.Scenario{Prop: "P04", Name: "unary-answered-" + tr.name, Quick: uq, Thorough: uth, Weight: w, BlockCost: bc,
			Doc: "a unary call over " + tr.name + " whose handler answers, cancelled at any point: it returns the answer or a cancellation",
			Main: func(t *mc.T) {
				var calls tally
				cl, done := tr.make(t, tagServer(&calls))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				t.Go("canceller", cancel)
				out := srpc.NewRawMessage(nil, true)
				err := cl.ExecCall(ctx, "s", "echo", raw("x"), out)
				if err == nil && string(out.GetData()) != "s.echo:x" || err != nil && !isCancel(err) && !nested(tr.name) && !(tr.name == "pipe" && err != nil && (err == io.EOF || err.Error() == "gave up")) {
					t.Failf("got %q, %v", out.GetData(), errStr(err))
				}
				t.Outcome("%v", errStr(err))
				t.Idle()
				done()
				t.MustFinish("after the call was cancelled")
			}})
		reg(&mc.Scenario{Prop: "P04", Name: "stream-" + tr.name, Quick: sq, Thorough: th, Weight: sw,
			Doc: "a stream over " + tr.name + " whose receive is pending, is started later, or is concurrent with sends, ended by cancel, deadline or Close at any point; then every operation again",
			Main: func(t *mc.T) {
				wi := t.Choose(len(waiters))
				how := t.Choose(3)  // cancel, deadline, Close
				mode := t.Choose(3) // receive pending; only after the end; with a concurrent sender
				var calls tally
				cl, done := tr.make(t, waitServer(t, &calls, wi))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				if how == 1 {
					var c2 context.CancelFunc
					ctx, c2 = context.WithTimeout(ctx, time.Second)
					defer c2()
				}
				strm, err := cl.NewStream(ctx, "s", "m", nil)
				if err != nil {
					t.Failf("NewStream: %v", err)
					return
				}
				check := func(what string, err error) {
					if tr.name == "pipe" && (err == io.EOF || err != nil && err.Error() == "gave up") {
						return // the server shares the context and may have ended the stream first
					}
					if how != 2 && !isCancel(err) && !(nested(tr.name) && err != nil && err.Error() == "gave up") {
						t.Failf("%s of a cancelled stream returned %v", what, errStr(err))
					}
				}
				if mode != 1 {
					t.Go("client.recv", func() { check("pending receive", drain(t, strm, 3)) })
				}
				if mode == 2 {
					t.Go("client.send", func() {
						for i := 0; i < 2; i++ {
							if strm.MsgSend(raw("y")) != nil {
								return
							}
						}
						_ = strm.CloseSend()
					})
				}
				switch how {
				case 0:
					t.Go("canceller", cancel)
				case 1:
					t.Idle()
					time.Sleep(2 * time.Second)
				case 2:
					t.Go("closer", func() { _ = strm.Close() })
				}
				t.Idle()
				if mode == 1 {
					check("later receive", drain(t, strm, 3))
					t.Idle()
				}
				for _, p := range t.Pending() {
					if p != "server.AcceptMuxedConn" {
						t.Failf("still blocked after the end of the call: %s", p)
					}
				}
				if b, e := calls.get("begin"), calls.get("end"); b != e {
					t.Failf("after the end of the call: handler %s", calls.String())
				}
				// nothing may block afterwards
				check("receive", drain(t, strm, 3))
				if err := strm.MsgSend(raw("z")); how != 2 && err == nil {
					t.Failf("send on a cancelled stream succeeded")
				}
				_ = strm.CloseSend()
				_ = strm.Close()
				t.Outcome("%d %d %d %s", wi, how, mode, calls.String())
				t.Idle()
				done()
				t.MustFinish("after the call ended")
			}})
	}

	// Cancellation tied to the k-th I/O operation of the connection.
	for _, tr := range []struct {
		name string
		make func(setup func(c *conn)) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func())
		ops  int
	}{
		{"conn", viaConn, 6},
		{"mux", viaMuxOn, 32},
		{"rpcstream", func(s func(c *conn)) func(*mc.T, srpc.Invoker) (srpc.Client, func()) { return viaRPCOn(false, s) }, 12},
		{"rpcstream-ack", func(s func(c *conn)) func(*mc.T, srpc.Invoker) (srpc.Client, func()) { return viaRPCOn(true, s) }, 12},
	} {
		q, th := 2, 3
		if tr.name == "mux" {
			q, th = 0, 1
		} else if heavy(tr.name) {
			q, th = 1, 2
		}
		reg(&mc.Scenario{Prop: "P04", Name: "cancel-at-io-" + tr.name, Quick: q, Thorough: th, Weight: 2,
			Doc: "the call's context is cancelled, or its stream closed, at the k-th I/O operation of the connection, for every k; unary, or a stream with a pending receive and a sender; answering and waiting handlers",
			Main: func(t *mc.T) {
				k := 1 + t.Choose(tr.ops)
				kind := t.Choose(3) // unary, stream cancelled, stream closed
				waits := t.Bool()
				var calls tally
				var at mc.Flag
				inv := tagServer(&calls)
				if waits {
					inv = waitServer(t, &calls, 0)
				}
				cl, done := tr.make(func(c *conn) {
					c.onOp = func(n int) {
						if n == k {
							at.Set()
						}
					}
				})(t, inv)
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				var strm srpc.Stream
				var opened mc.Flag
				t.Go("canceller", func() {
					at.Wait()
					if kind == 2 {
						opened.Wait()
						if strm != nil {
							_ = strm.Close()
						}
					} else {
						cancel()
					}
				})
				t.Go("client", func() {
					if kind == 0 {
						out := srpc.NewRawMessage(nil, true)
						err := cl.ExecCall(ctx, "s", "echo", raw("x"), out)
						if waits && err == nil || !waits && err == nil && string(out.GetData()) != "s.echo:x" {
							t.Failf("unary: %q, %v", out.GetData(), errStr(err))
						}
						t.Outcome("%v", errStr(err))
					} else {
						var err error
						strm, err = cl.NewStream(ctx, "s", "chat", nil)
						if err != nil {
							strm = nil
							if kind == 2 {
								t.Failf("NewStream: %v", err)
							}
						}
						opened.Set()
						if strm != nil {
							t.Go("client.send", func() {
								_ = strm.MsgSend(raw("y"))
							})
							var got []string
							got, err = recvAll(strm)
							if len(got) > 1 || len(got) == 1 && got[0] != "s.chat:y" || waits && len(got) != 0 {
								t.Failf("received %q", got)
							}
							t.Outcome("%d %v", len(got), errStr(err))
							_ = strm.Close()
						}
					}
				})
				t.Idle()
				at.Set() // in case there were fewer operations
				t.Idle()
				cancel()
				t.Idle()
				if waits && calls.get("begin") != calls.get("end") {
					t.Failf("after the end of the call: handler %s", calls.String())
				}
				done()
				t.MustFinish("after the call ended")
			}})
	}

	srvTr := []struct {
		name string
		make func(ctx context.Context) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func())
	}{{"conn", viaConnCtx}, {"mux", viaMuxCtx}, {"rpcstream", viaRPCCtx}}
	for _, tr := range srvTr {
		q, th := 2, 3
		if heavy(tr.name) {
			q, th = 1, 2
		}
		reg(&mc.Scenario{Prop: "P04", Name: "server-" + tr.name, Quick: q, Thorough: th,
			Doc: "the server's context is cancelled at any point, or the handler closes its stream, over " + tr.name + " while the client waits in a receive or a unary call",
			Main: func(t *mc.T) {
				wi := t.Choose(2)
				byClose := t.Bool()
				unary := t.Bool()
				var calls tally
				sctx, scancel := context.WithCancel(context.Background())
				defer scancel()
				inner := waitServer(t, &calls, wi)
				cl, done := tr.make(sctx)(t, srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
					if byClose {
						t.Go("handler.close", func() { _ = s.Close() })
					}
					return inner(svc, mth, s)
				}))
				if !byClose {
					t.Go("server.cancel", scancel)
				}
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				ok := true
				if unary {
					t.Go("client.unary", func() {
						out := srpc.NewRawMessage(nil, true)
						err := cl.ExecCall(ctx, "s", "m", raw("x"), out)
						if err == nil {
							t.Failf("unary call succeeded")
						}
					})
				} else {
					strm, err := cl.NewStream(ctx, "s", "m", nil)
					if err != nil {
						ok = false
						if byClose {
							t.Failf("NewStream: %v", err)
						}
					} else {
						t.Go("client.recv", func() {
							err := drain(t, strm, 3)
							t.Outcome("recv %v", errStr(err))
							_ = strm.Close()
						})
					}
				}
				t.Idle()
				if b, e := calls.get("begin"), calls.get("end"); b != e || ok && byClose && b != 1 {
					t.Failf("after the server ended the call: handler %s", calls.String())
				}
				for _, p := range t.Pending() {
					if p == "client.unary" || p == "client.recv" || p == "handler.close" || p == "handler.recv" {
						t.Failf("after the server ended the call: %s still blocked", p)
					}
				}
				cancel()
				done()
				t.MustFinish("after the server ended the call")
			}})
	}
}
