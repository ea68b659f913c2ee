package props

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

func isPrefix(p, s []string) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if p[i] != s[i] {
			return false
		}
	}
	return true
}

// faultModes: reset losing what is in flight; reset keeping it; the peer ends orderly; only
// this operation fails.
var faultModes = []string{"reset", "reset-keep", "orderly-end", "one-operation"}

type fault struct {
	at, mode int
	err      error
}

// faultErrors are the errors a broken transport reports.
var faultErrors = []error{errReset, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, context.DeadlineExceeded}

func chooseFault(t *mc.T, ops int) fault {
	return fault{1 + t.Choose(ops), t.Choose(len(faultModes)), errReset}
}

func (f fault) setup(c *conn) {
	c.failErr = f.err
	c.failAt, c.failKeep, c.failEOF, c.failOne = f.at, f.mode == 1, f.mode == 2, f.mode == 3
}

func (f fault) String() string {
	return fmt.Sprintf("%s (%v) at operation %d", faultModes[f.mode], f.err, f.at)
}

// reported requires a reset connection to be reported as such to the client.
func reported(t *mc.T, kind string, f fault, what string, err error) {
	if f.mode >= 2 || err == nil || err == io.EOF || err.Error() == errGaveUp.Error() {
		return
	}
	if kind == "mux" || kind != "conn" && what == "unary" {
		return // the multiplexer, or the failed outer stream, reports its own error
	}
	if err.Error() != f.err.Error() {
		t.Failf("%s: %s returned %q instead of the connection's error", f, what, err.Error())
	}
}

// handlerEnd records how a handler ended.
type handlerEnd struct {
	begun, ended bool
	ok           bool // returned success
	ctxAtEnd     bool
}

func init() {
	up, down := []string{"a", "", "ccc"}, []string{"x", "yy"}
	for _, k := range []struct {
		kind  string
		ops   int
		q, th int
		w     int
		errs  bool
	}{{"conn", 16, 1, 2, 2, false}, {"mux", 44, 0, 1, 3, false}, {"rpc", 22, 0, 2, 3, false}, {"rpcack", 22, 0, 2, 3, false}, {"conn", 16, 0, 1, 1, true}} {
		kind, suffix := k.kind, ""
		if k.errs {
			suffix = "-errors"
		}
		chooseFault := func(t *mc.T, ops int) fault {
			f := chooseFault(t, ops)
			if k.errs {
				if f.mode == 2 {
					f.mode = 1 + t.Choose(2)*2
				}
				f.err = faultErrors[1+t.Choose(len(faultErrors)-1)]
				if f.mode == 3 && f.err == io.ErrClosedPipe {
					f.mode = 1 // a closed pipe stays closed
				}
			}
			return f
		}
		// mayEnd reports whether a clean end may be seen although the call was not completed.
		mayEnd := func(w *world, f fault) bool {
			if f.mode == 2 {
				return true
			}
			if f.mode == 3 {
				// the end where the operation failed closes the connection, which the peer sees as an orderly end
				return true
			}
			return kind != "conn" && f.mode != 0 && f.mode != 1
		}
		reg(&mc.Scenario{Prop: "P06", Name: "stream-" + kind + suffix, Quick: k.q, Thorough: k.th, Weight: k.w,
			Doc: "bidirectional stream over " + kind + suffix + " (client and server both send while receiving) with a transport failure of every mode at every I/O operation",
			Main: func(t *mc.T) {
				f := chooseFault(t, k.ops)
				wd := &world{t: t, kind: kind, setup: f.setup}
				var h handlerEnd
				cl := wd.start(srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
					h.begun = true
					sent := make(chan struct{})
					t.Go("handler.send", func() {
						defer close(sent)
						for _, m := range down {
							if s.MsgSend(raw(m)) != nil {
								return
							}
						}
					})
					got, err := recvAll(s)
					<-sent
					if !isPrefix(got, up) {
						t.Failf("server received %s of %s", show(got), show(up))
					}
					if err == io.EOF && len(got) == len(up) {
						h.ok = true
					} else {
						<-s.Context().Done()
						h.ctxAtEnd = true
					}
					h.ended = true
					if h.ok {
						return true, nil
					}
					return true, errGaveUp
				}))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				strm, err := cl.NewStream(ctx, "svc", "mth", nil)
				if err == nil {
					t.Go("client.send", func() {
						for _, m := range up {
							if strm.MsgSend(raw(m)) != nil {
								if f.mode >= 2 {
									_ = strm.Close()
								}
								return
							}
						}
						if strm.CloseSend() != nil && f.mode >= 2 {
							_ = strm.Close()
						}
					})
					var got []string
					t.Go("client.recv", func() {
						var err error
						got, err = recvAll(strm)
						if !isPrefix(got, down) {
							t.Failf("client received %s of %s", show(got), show(down))
						}
						if err == io.EOF && !(len(got) == len(down) && h.ok) && !mayEnd(wd, f) {
							t.Failf("%s: client received %s and then EOF although the call was not completed", f, show(got))
						}
						reported(t, kind, f, "receive", err)
						t.Outcome("%s %s %s", faultModes[f.mode], show(got), errStr(err))
					})
				} else {
					t.Outcome("%s open %s", faultModes[f.mode], errStr(err))
				}
				t.Idle()
				for _, p := range t.Pending() {
					if p == "client.send" || p == "client.recv" || p == "handler.send" {
						t.Failf("%s: %s blocked for ever", f, p)
					}
				}
				if h.begun && !h.ended {
					t.Failf("%s: the handler's context was not cancelled", f)
				}
				if err == nil {
					// every later operation returns
					_, _ = recv(strm)
					_ = strm.MsgSend(raw("late"))
					_ = strm.CloseSend()
					_ = strm.Close()
				}
				t.Idle()
				wd.stop()
				t.MustFinish("after the failure")
			}})
		reg(&mc.Scenario{Prop: "P06", Name: "unary-" + kind + suffix, Quick: k.q + 1, Thorough: k.th, Weight: k.w,
			Doc: "unary call over " + kind + " with a transport failure of every mode at every I/O operation; the handler answers, fails, or answers only half",
			Main: func(t *mc.T) {
				f := chooseFault(t, k.ops)
				hm := t.Choose(3)
				wd := &world{t: t, kind: kind, setup: f.setup}
				var h handlerEnd
				cl := wd.start(srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
					h.begun = true
					defer func() { h.ended = true }()
					m, err := recv(s)
					if err == nil && m != "request" {
						t.Failf("server received %q", m)
					}
					if err != nil {
						<-s.Context().Done()
						return true, err
					}
					switch hm {
					case 1:
						return true, errGaveUp
					case 2:
						<-s.Context().Done() // until the transport fails or the client gives up
						return true, errGaveUp
					}
					if err := s.MsgSend(raw("response")); err != nil {
						return true, err
					}
					h.ok = true
					return true, nil
				}))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				out := srpc.NewRawMessage(nil, true)
				returned, gaveUp := false, false
				t.Go("client.unary", func() {
					err := cl.ExecCall(ctx, "svc", "mth", raw("request"), out)
					returned = true
					if err == nil && (string(out.GetData()) != "response" || !h.begun || hm != 0) {
						t.Failf("%s: unary call succeeded with %q", f, out.GetData())
					}
					if !gaveUp {
						reported(t, kind, f, "unary", err)
					}
					t.Outcome("%s %s", faultModes[f.mode], errStr(err))
				})
				t.Idle()
				failed := false
				for _, c := range wd.conns {
					failed = failed || c.failed
				}
				if !returned && (failed || hm != 2) {
					t.Failf("%s: unary call blocked for ever", f)
				}
				gaveUp = true
				cancel()
				t.Idle()
				if h.begun && !h.ended {
					t.Failf("%s: the handler's context was not cancelled", f)
				}
				wd.stop()
				t.MustFinish("after the failure")
			}})
		if k.errs {
			continue
		}
		reg(&mc.Scenario{Prop: "P06", Name: "closing-" + kind, Quick: k.q, Thorough: k.th, Weight: k.w,
			Doc: "a stream over " + kind + " whose receives are pending on both sides is closed, cancelled or half-closed and closed by the client, or closed by the handler, with a transport failure of every mode at every I/O operation",
			Main: func(t *mc.T) {
				f := chooseFault(t, k.ops)
				action := t.Choose(4)
				what := f.String() + ", " + []string{"client closes", "client cancels", "client half-closes and closes", "handler closes"}[action]
				wd := &world{t: t, kind: kind, setup: f.setup}
				var h handlerEnd
				cl := wd.start(srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
					h.begun = true
					recvd := make(chan struct{})
					t.Go("handler.recv", func() {
						defer close(recvd)
						_, _ = recvAll(s)
					})
					if action == 3 {
						_ = s.MsgSend(raw("hello"))
						_ = s.Close()
					}
					<-recvd
					<-s.Context().Done()
					h.ended = true
					return true, errGaveUp
				}))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				strm, err := cl.NewStream(ctx, "svc", "mth", raw("first"))
				if err == nil {
					t.Go("client.recv", func() {
						_, err := recvAll(strm)
						t.Outcome("%s %d %s", faultModes[f.mode], action, errStr(err))
					})
				}
				t.Idle()
				if err == nil {
					t.Go("client.end", func() {
						switch action {
						case 0:
							_ = strm.Close()
						case 1:
							cancel()
						case 2:
							_ = strm.CloseSend()
							_ = strm.Close()
						case 3: // once the handler closed the stream its result is read, nothing else
						}
					})
				}
				t.Idle()
				for _, p := range t.Pending() {
					if p == "client.end" || p == "client.recv" || p == "handler.recv" && h.begun {
						t.Failf("%s: %s blocked for ever", what, p)
					}
				}
				if h.begun && !h.ended {
					t.Failf("%s: the handler's context was not cancelled", what)
				}
				if err == nil {
					_, _ = recv(strm)
					_ = strm.MsgSend(raw("late"))
					_ = strm.Close()
				}
				t.Idle()
				wd.stop()
				t.MustFinish("after the failure")
			}})
	}
}
