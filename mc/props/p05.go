package props

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// regCtx is a caller's context that counts what is registered on it.
type regCtx struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
	fns  map[int]func()
	n    int
}

func newRegCtx() *regCtx { return &regCtx{done: make(chan struct{}), fns: map[int]func(){}} }

func (c *regCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *regCtx) Done() <-chan struct{}       { return c.done }
func (c *regCtx) Value(any) any               { return nil }
func (c *regCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// AfterFunc is used by package context instead of a goroutine.
func (c *regCtx) AfterFunc(f func()) (stop func() bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	id := c.n
	c.n++
	c.fns[id] = f
	return func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		_, ok := c.fns[id]
		delete(c.fns, id)
		return ok
	}
}

func (c *regCtx) cancel() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		return
	}
	c.err = context.Canceled
	close(c.done)
	for _, f := range c.fns {
		go f()
	}
	c.fns = map[int]func(){}
}

func (c *regCtx) registered() (n int) {
	mc.Quiet(func() {
		c.mu.Lock()
		n = len(c.fns)
		c.mu.Unlock()
	})
	return n
}

// checkReleased requires that nothing of the calls made so far is left.
func (w *world) checkReleased(what string, base int, ctxs ...*regCtx) {
	t := w.t
	t.Idle()
	for i, c := range ctxs {
		if n := c.registered(); n != 0 {
			t.Failf("%s: %d registration(s) left on the %s context", what, n, []string{"caller's", "server's"}[i])
		}
	}
	if u := w.unclosed(); len(u) != 0 {
		t.Failf("%s: never closed: %v", what, u)
	}
	if n := w.streams() - w.failedOpens; n > 0 {
		t.Failf("%s: %d mux streams still open", what, n)
	}
	if n := t.Live(); n != base {
		t.Failf("%s: %d goroutines left (%v)", what, n-base, t.Pending())
	}
}

type badMsg struct{ marshal, unmarshal bool }

func (m *badMsg) MarshalVT() ([]byte, error) {
	if m.marshal {
		return nil, errors.New("cannot marshal")
	}
	return []byte("x"), nil
}
func (m *badMsg) UnmarshalVT([]byte) error {
	if m.unmarshal {
		return errors.New("cannot unmarshal")
	}
	return nil
}
func (m *badMsg) SizeVT() int                                { return 1 }
func (m *badMsg) MarshalToSizedBufferVT([]byte) (int, error) { return 0, errors.New("unused") }

var callKinds = []string{"unary-ok", "unary-fail", "unary-unhandled", "unary-hang", "unary-badreply", "unary-badrequest",
	"chat", "chat-early", "fail", "hang-cancel", "hang-close", "hang-unread", "half-closed", "double-close", "cancelled-before", "finished-unread"}

// runCall makes one call of the given kind on ctx; whatever happens it must end and clean up.
// strict also checks results.
func runCall(t *mc.T, cl srpc.Client, pctx *regCtx, kind string, strict bool) {
	bad := func(err error) {
		if strict {
			t.Failf("%s: %v", kind, errStr(err))
		}
	}
	out := srpc.NewRawMessage(nil, true)
	stream := func(mth string, first srpc.Message) srpc.Stream {
		s, err := cl.NewStream(pctx, "s", mth, first)
		if err != nil {
			bad(err)
			return nil
		}
		return s
	}
	switch kind {
	case "unary-ok":
		if err := cl.ExecCall(pctx, "s", "echo", raw("x"), out); err != nil {
			bad(err)
		}
	case "unary-fail":
		if err := cl.ExecCall(pctx, "s", "fail", raw("x"), out); err != nil {
			bad(err) // the response comes first
		}
	case "unary-unhandled":
		if err := cl.ExecCall(pctx, "s", "nobody", raw("x"), out); err == nil {
			bad(err)
		}
	case "unary-hang":
		t.Go("cancel", pctx.cancel)
		if err := cl.ExecCall(pctx, "s", "hang", raw("x"), out); err == nil {
			bad(err)
		}
	case "unary-badreply":
		if err := cl.ExecCall(pctx, "s", "echo", raw("x"), &badMsg{unmarshal: true}); err == nil {
			bad(err)
		}
	case "unary-badrequest":
		if err := cl.ExecCall(pctx, "s", "echo", &badMsg{marshal: true}, out); err == nil {
			bad(err)
		}
		if _, err := cl.NewStream(pctx, "s", "echo", &badMsg{marshal: true}); err == nil {
			bad(err)
		}
	case "chat":
		if s := stream("chat", nil); s != nil {
			if s.MsgSend(raw("a")) == nil && s.CloseSend() == nil {
				_, _ = recvAll(s)
			}
			_ = s.Close()
		}
	case "chat-early":
		if s := stream("chat", raw("a")); s != nil {
			_, _ = recv(s)
			_ = s.Close()
		}
	case "fail":
		if s := stream("fail", raw("a")); s != nil {
			_, _ = recvAll(s)
			_ = s.Close()
		}
	case "hang-cancel":
		if s := stream("hang", raw("a")); s != nil {
			t.Go("cancel", pctx.cancel)
			_, _ = recvAll(s)
			_ = s.Close()
		}
	case "hang-close":
		if s := stream("hang", raw("a")); s != nil {
			t.Go("recv", func() { _, _ = recvAll(s) })
			_ = s.Close()
		}
	case "hang-unread":
		if s := stream("hang", raw("a")); s != nil {
			pctx.cancel()
			_ = s.Close()
		}
	case "half-closed":
		if s := stream("hang", nil); s != nil {
			_ = s.CloseSend()
			_ = s.Close()
		}
	case "double-close":
		if s := stream("chat", nil); s != nil {
			_ = s.CloseSend()
			_ = s.Close()
			_ = s.Close()
			_, _ = recv(s)
		}
	case "cancelled-before":
		pctx.cancel()
		if err := cl.ExecCall(pctx, "s", "echo", raw("x"), out); err == nil {
			bad(err)
		}
		if s, err := cl.NewStream(pctx, "s", "echo", nil); err == nil {
			bad(err)
			_ = s.Close()
		}
	case "finished-unread":
		if s := stream("fail", raw("a")); s != nil {
			t.Idle()
			_ = s.Close()
		}
	}
}

func init() {
	for _, kind := range []string{"conn", "pipe", "mux", "rpc", "rpcack"} {
		q, th, w := 2, 3, 1
		if kind != "conn" && kind != "pipe" {
			q, th = 1, 2
			w = 2
		}
		if kind == "mux" {
			w = 8
		}
		if kind == "pipe" {
			q = 1
			w = 2
		}
		reg(&mc.Scenario{Prop: "P05", Name: "outcomes-" + kind, Quick: q, Thorough: th, Weight: w,
			Doc: "one call over " + kind + " of each kind: " + fmt.Sprint(callKinds) + "; afterwards no goroutine, context registration, connection or mux stream of it is left",
			Main: func(t *mc.T) {
				k := callKinds[t.Choose(len(callKinds))]
				pctx, sctx := newRegCtx(), newRegCtx()
				wd := &world{t: t, kind: kind, sctx: sctx}
				var calls tally
				cl := wd.start(tagServer(&calls))
				t.Idle()
				base, regs := t.Live(), sctx.registered()
				runCall(t, cl, pctx, k, true)
				wd.checkReleased("after "+k, base, pctx)
				if n := sctx.registered() - regs; n != 0 {
					t.Failf("after %s: %d registration(s) left on the server's context", k, n)
				}
				t.Outcome("%s %s", k, calls.String())
				wd.stop()
			}})
	}
	reg(&mc.Scenario{Prop: "P05", Name: "sequence-mux", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "every sequence of two calls of different kinds on one multiplexed connection",
		Main: func(t *mc.T) {
			a, b := callKinds[t.Choose(len(callKinds))], callKinds[t.Choose(len(callKinds))]
			wd := &world{t: t, kind: "mux"}
			var calls tally
			cl := wd.start(tagServer(&calls))
			t.Idle()
			base := t.Live()
			p1, p2 := newRegCtx(), newRegCtx()
			runCall(t, cl, p1, a, true)
			runCall(t, cl, p2, b, true)
			wd.checkReleased("after "+a+" and "+b, base, p1)
			wd.checkReleased("after "+a+" and "+b, base, p2)
			wd.stop()
		}})
	reg(&mc.Scenario{Prop: "P05", Name: "open-failure", Quick: 2, Thorough: 3,
		Doc: "the transport cannot be opened, or its writer is missing, or the call start cannot be sent; unary and streaming, caller's context alive or cancelled meanwhile",
		Main: func(t *mc.T) {
			how := t.Choose(4)
			unary := t.Bool()
			if t.Bool() {
				t.Go("noise", func() {})
			}
			pctx := newRegCtx()
			w := &nullWriter{fail: errReset}
			cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, c srpc.CloseHandler) (srpc.PacketWriter, error) {
				switch how {
				case 0:
					return nil, errReset
				case 1:
					return nil, nil
				case 2:
					return w, nil
				default:
					pctx.cancel()
					return w, nil
				}
			})
			var err error
			if unary {
				err = cl.ExecCall(pctx, "s", "m", raw("x"), raw(""))
			} else {
				_, err = cl.NewStream(pctx, "s", "m", raw("x"))
			}
			want := [...]error{errReset, srpc.ErrNilWriter, errReset, context.Canceled}[how]
			if err != want && !(how == 3 && err == errReset) {
				t.Failf("open failure %d: got %v, want %v", how, err, want)
			}
			t.Idle()
			if n := pctx.registered(); n != 0 {
				t.Failf("after open failure %d (%v): %d registration(s) left on the caller's context", how, err, n)
			}
			if how >= 2 && w.closed == 0 {
				t.Failf("after a failed start the writer was not closed")
			}
			t.Outcome("%d %v", how, err)
			t.MustFinish("after the failure")
		}})
	stubs := []string{"Echo", "EchoServerStream", "EchoClientStream", "EchoBidiStream"}
	for _, kind := range []string{"conn", "rpc", "rpcack"} {
		q, th := 1, 2
		if kind != "conn" {
			q, th = 0, 1
		}
		reg(&mc.Scenario{Prop: "P05", Name: "stubs-" + kind, Quick: q, Thorough: th,
			Doc: "one call of each method of the generated echo client over " + kind + ", without and with a failure of every mode at every I/O operation; if the generated method returns no stream there is nothing left, else after the stream was closed",
			Main: func(t *mc.T) {
				k, at, mode := t.Choose(len(stubs)), t.Choose(11), 0
				if at != 0 {
					mode = t.Choose(4)
				}
				pctx, sctx := newRegCtx(), newRegCtx()
				wd := &world{t: t, kind: kind, sctx: sctx, setup: func(c *conn) {
					c.failAt, c.failKeep, c.failEOF, c.failOne = at, mode == 1, mode == 2, mode == 3
				}}
				mux := srpc.NewMux()
				if err := echo.NewEchoServer(nil).Register(mux); err != nil {
					t.Failf("register: %v", err)
				}
				cl := echo.NewSRPCEchoerClient(wd.start(mux))
				t.Idle()
				base := t.Live()
				in := &echo.EchoMsg{Body: "b"}
				n, res := 0, ""
				t.Go(stubs[k], func() {
					switch k {
					case 0:
						_, err := cl.Echo(pctx, in)
						res = errStr(err)
					case 1:
						s, err := cl.EchoServerStream(pctx, in)
						if res = errStr(err); err == nil {
							for err == nil {
								if _, err = s.Recv(); err == nil {
									n++
								}
							}
							_ = s.Close()
						}
					case 2:
						s, err := cl.EchoClientStream(pctx)
						if res = errStr(err); err == nil {
							if err := s.Send(in); err == nil {
								_, err = s.CloseAndRecv()
								res = errStr(err)
							}
							_ = s.Close()
						}
					case 3:
						s, err := cl.EchoBidiStream(pctx)
						if res = errStr(err); err == nil {
							if s.Send(in) == nil {
								_, _ = s.Recv()
								_ = s.CloseSend()
							}
							_ = s.Close()
						}
					}
				})
				time.Sleep(10 * time.Second) // virtual time
				for _, p := range t.Pending() {
					if p == stubs[k] {
						t.Failf("%s with failure %d at operation %d is blocked", p, mode, at)
					}
				}
				if at == 0 && (res != "nil" || k == 1 && n != 5) {
					t.Failf("%s: %s, %d messages", stubs[k], res, n)
				}
				wd.checkReleased(fmt.Sprintf("after %s with failure %d at operation %d", stubs[k], mode, at), base, pctx, sctx)
				t.Outcome("%s %d %s", stubs[k], n, res)
				wd.stop()
			}})
	}
	for _, kind := range []string{"conn", "rpc", "rpcack"} {
		q, th := 1, 2
		if kind != "conn" {
			q, th = 0, 1
		}
		reg(&mc.Scenario{Prop: "P05", Name: "fault-" + kind, Quick: q, Thorough: th, Weight: 2,
			Doc: "one call of each kind over " + kind + " with a failure (reset with or without loss of data in flight, orderly end, only this operation fails) at the k-th I/O operation, for every k",
			Main: func(t *mc.T) {
				k := callKinds[t.Choose(len(callKinds))]
				at := 1 + t.Choose(12)
				mode := t.Choose(4)
				if kind == "conn" && at > 8 {
					return
				}
				pctx, sctx := newRegCtx(), newRegCtx()
				wd := &world{t: t, kind: kind, sctx: sctx, setup: func(c *conn) {
					c.failAt, c.failKeep, c.failEOF, c.failOne = at, mode == 1, mode == 2, mode == 3
				}}
				var calls tally
				cl := wd.start(tagServer(&calls))
				t.Idle()
				base := t.Live()
				runCall(t, cl, pctx, k, false)
				wd.checkReleased(fmt.Sprintf("after %s with failure %d at operation %d", k, mode, at), base, pctx, sctx)
				t.Outcome("%s %s", k, calls.String())
				wd.stop()
			}})
	}
}

func (m *badMsg) Reset() {}
