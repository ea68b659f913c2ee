package props

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// guard turns a panic of f into a violation.
func guard(t *mc.T, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Failf("%s panics: %v", what, e)
		}
	}()
	f()
}

func init() {
	reg(&mc.Scenario{Prop: "P20", Name: "duplex", Quick: 4, Thorough: 6, Weight: 2,
		Doc: "both ends send 2 (thorough: up to 7, more than the buffer) messages and half-close while both receive",
		Main: func(t *mc.T) {
			a, b := srpc.NewPipeStream(context.Background())
			up, down := []string{"a", ""}, []string{"x", "yy"}
			if t.Tier == "thorough" && t.Bool() {
				up = []string{"a", "", "c", "d", "e", "f", "g"}
			}
			ends := []srpc.Stream{a, b}
			msgs := [][]string{up, down}
			for i := range ends {
				i := i
				t.Go([]string{"send-a", "send-b"}[i], func() {
					if sendAll(t, "end", ends[i], msgs[i]) {
						if err := ends[i].CloseSend(); err != nil {
							t.Failf("CloseSend: %v", err)
						}
					}
				})
				t.Go([]string{"recv-a", "recv-b"}[i], func() {
					got, err := recvAll(ends[i])
					checkDelivery(t, "end", msgs[1-i], got, err)
				})
			}
			t.MustFinish("duplex")
			_ = a.Close()
			_ = b.Close()
		}})
	reg(&mc.Scenario{Prop: "P20", Name: "backpressure", Quick: 3, Thorough: 4,
		Doc: "one end sends more messages than fit while the other receives late, then the sender half-closes or closes; everything sent arrives, then end-of-stream",
		Main: func(t *mc.T) {
			a, b := srpc.NewPipeStream(context.Background())
			n := 5 + t.Choose(3)
			closing := t.Bool()
			msgs := []string{"0", "", "2", "3", "4", "", ""}[:n]
			if t.Bool() {
				msgs = make([]string, n)
			}
			t.Go("send", func() {
				if !sendAll(t, "sender", a, msgs) {
					return
				}
				if closing {
					_ = a.Close()
				} else {
					_ = a.CloseSend()
				}
			})
			if t.Bool() {
				t.Idle()
			}
			t.Go("recv", func() {
				got, err := recvAll(b)
				checkDelivery(t, "receiver", msgs, got, err)
			})
			t.MustFinish("backpressure")
		}})
	reg(&mc.Scenario{Prop: "P20", Name: "stop", Quick: 5, Thorough: 8, Weight: 2, BlockCost: mc.Free,
		Doc: "an end is closed, half-closed or its context cancelled at any moment while its own send and receive and the peer's are pending (buffers empty or full); everything returns, nothing panics, the peer gets a prefix",
		Main: func(t *mc.T) {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			a, b := srpc.NewPipeStream(ctx)
			how := t.Choose(3)
			pre := 3 + t.Choose(3)
			for i := 0; i < pre; i++ {
				if err := a.MsgSend(raw("p")); err != nil {
					t.Failf("send: %v", err)
				}
			}
			pending := func(name string, s srpc.Stream, send bool) {
				t.Go(name, func() {
					guard(t, name, func() {
						for i := 0; i < 4; i++ {
							var err error
							if send {
								err = s.MsgSend(raw("s"))
							} else {
								_, err = recv(s)
							}
							if err != nil {
								if how == 1 && s == a && err.Error() != context.Canceled.Error() && !(!send && err == io.EOF) {
									t.Failf("%s returned %v, want a cancellation error", name, err)
								}
								return
							}
						}
					})
				})
			}
			if how != 0 {
				pending("own send", a, true)
			}
			pending("own receive", a, false)
			t.Go("closer", func() {
				guard(t, "closer", func() {
					switch how {
					case 0:
						_ = a.CloseSend()
						if err := a.MsgSend(raw("late")); err == nil {
							t.Failf("send after half-close succeeded")
						}
						_ = a.CloseSend()
						cancel()
					case 1:
						_ = a.Close()
						if err := a.MsgSend(raw("late")); err == nil {
							t.Failf("send after close succeeded")
						}
						_ = a.CloseSend()
						_ = a.Close()
					case 2:
						cancel()
					}
				})
			})
			t.MustFinish("after the end was stopped")
			// a later operation does not hang either
			t.Go("later", func() {
				guard(t, "later operation", func() {
					_ = a.MsgSend(raw("z"))
					_, _ = recv(a)
					_ = a.CloseSend()
					got, err := recvAll(b)
					if len(got) > pre+4 || err == nil {
						t.Failf("peer received %s", show(got))
					}
					_ = b.Close()
					_ = a.Close()
				})
			})
			t.MustFinish("later operations")
		}})
	reg(&mc.Scenario{Prop: "P20", Name: "peer-gone", Quick: 4, Thorough: 5, BlockCost: mc.Free,
		Doc: "one end closes without reading while the other keeps sending more than fits and receiving; neither hangs",
		Main: func(t *mc.T) {
			a, b := srpc.NewPipeStream(context.Background())
			t.Go("close", func() { guard(t, "close", func() { _ = a.Close() }) })
			t.Go("send", func() {
				guard(t, "send", func() {
					for i := 0; i < 7; i++ {
						if err := b.MsgSend(raw("s")); err != nil {
							return
						}
					}
					t.Failf("7 sends to an end that is gone succeeded")
				})
			})
			t.Go("recv", func() {
				if _, err := recvAll(b); err != io.EOF {
					t.Failf("receive from an end that closed: %v", err)
				}
			})
			t.MustFinish("while the peer is gone")
			_ = b.Close()
		}})
	names := []string{"a.send", "b.send", "a.recv", "b.recv", "a.closeSend", "b.closeSend", "a.close", "b.close"}
	reg(&mc.Scenario{Prop: "P20", Name: "histories", Quick: 0, Thorough: 0, SelCost: mc.Free,
		Doc: "every sequence of up to 5 (thorough: 6) operations on the two ends, against a queue reference; every choice of the selects",
		Main: func(t *mc.T) {
			depth := 5
			if t.Tier == "thorough" {
				depth = 6
			}
			a, b := srpc.NewPipeStream(context.Background())
			ends := []srpc.Stream{a, b}
			var q [2][]string
			var eof, gone [2]bool // end i sent everything / is closed
			var tr []string
			for k := 0; k < depth && !t.Failed(); k++ {
				op := t.Choose(len(names) + 1)
				if op == len(names) {
					break
				}
				tr = append(tr, names[op])
				i := op & 1
				s := ends[i]
				guard(t, "after "+show(tr), func() {
					switch op >> 1 {
					case 0:
						m := string(rune('0' + k))
						err := s.MsgSend(raw(m))
						if (eof[i] || gone[i]) && err == nil {
							t.Failf("%s: send succeeded after the end was closed", show(tr))
						}
						if !eof[i] && !gone[i] && !gone[1-i] && err != nil {
							t.Failf("%s: send failed: %v", show(tr), err)
						}
						if err == nil {
							q[1-i] = append(q[1-i], m)
						}
					case 1:
						if len(q[i]) == 0 && !eof[1-i] && !gone[0] && !gone[1] {
							tr[len(tr)-1] = "-"
							return // would block
						}
						got, err := recv(s)
						switch {
						case gone[i] && err != nil && err.Error() == context.Canceled.Error():
						case len(q[i]) != 0:
							if err != nil || got != q[i][0] {
								t.Failf("%s: received %q, %v; want %q", show(tr), got, err, q[i][0])
								return
							}
							q[i] = q[i][1:]
						case gone[i] && err != nil:
						case err != io.EOF:
							t.Failf("%s: received %q, %v; want EOF", show(tr), got, err)
						}
					case 2:
						if err := s.CloseSend(); err != nil {
							t.Failf("%s: %v", show(tr), err)
						}
						eof[i] = true
					case 3:
						if err := s.Close(); err != nil {
							t.Failf("%s: %v", show(tr), err)
						}
						eof[i], gone[i] = true, true
						if s.Context().Err() == nil {
							t.Failf("%s: the context of a closed end is not cancelled", show(tr))
						}
					}
				})
			}
			t.Outcome("%v %v", eof, gone)
			_ = a.Close()
			_ = b.Close()
			t.MustFinish("after the history")
		}})
}
