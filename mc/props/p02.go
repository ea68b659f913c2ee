package props

import (
	"context"
	"errors"
	"io"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// result is what a handler does after sending its messages.
type result struct {
	name string
	ok   bool
	err  error
	want string // text of the error the client must see, "" for success
}

var results = []result{
	{"ok", true, nil, ""},
	{"error", true, errors.New("boom: it failed"), "boom: it failed"},
	{"unhandled", false, nil, "unimplemented"},
	{"eof-error", true, io.EOF, "EOF"},
	{"unhandled-error", false, errors.New("x"), "x"},
	{"canceled-error", true, context.Canceled, "context canceled"},
}

// checkTerminal requires the terminal error of a stream to stand for want.
func checkTerminal(t *mc.T, what, want string, err error) {
	switch {
	case want == "" && err != io.EOF:
		t.Failf("%s: got %v, want EOF (success)", what, err)
	case want != "" && (err == nil || err == io.EOF || err.Error() != want):
		t.Failf("%s: got %v, want an error %q", what, errStr(err), want)
	}
}

var transports = []transport{{"pipe", viaPipe}, {"conn", viaConn(nil)}, {"mux", viaMux}, {"rpcstream", viaRPC(false)}, {"rpcstream-ack", viaRPC(true)}}

func heavy(name string) bool { return name != "pipe" && name != "conn" }

func init() {
	for _, tr := range transports {
		q, th := 2, 3
		reg(&mc.Scenario{Prop: "P02", Name: "texts-" + tr.name, Quick: 0, Thorough: 1,
			Doc: "unary and streaming calls over " + tr.name + " with error texts, service and method names and responses of unusual contents and of lengths around every encoding boundary up to 70000 bytes",
			Main: func(t *mc.T) {
				sizes := []int{0, 1, 127, 128, 2047, 2048, 16383, 16384, 65535, 65536, 70000}
				odd := []string{"a\x00b", "\xff\xfe", "line\nline", " ", "unimplemented", "context canceled", "EOF", "%s%d", "/a", "a/", " a"}
				text := func(empty bool) string {
					k := t.Choose(len(sizes) + len(odd))
					if k >= len(sizes) {
						return odd[k-len(sizes)]
					}
					if !empty && sizes[k] == 0 {
						return "x"
					}
					return pattern(sizes[k], 3)
				}
				svc, mth, resp, fail := "svc", "mth", "resp", ""
				switch t.Choose(4) {
				case 0:
					svc = text(false)
				case 1:
					mth = text(false)
				case 2:
					resp = text(true)
				case 3:
					fail = text(false)
				}
				stream := t.Bool()
				calls := 0
				cl, done := tr.make(t, srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
					calls++
					if s != svc || m != mth {
						t.Failf("handler got %s %s, want %s %s", brief([]byte(s)), brief([]byte(m)), brief([]byte(svc)), brief([]byte(mth)))
					}
					if req, err := recv(strm); err != nil || req != resp {
						t.Failf("handler received %s, %v", brief([]byte(req)), err)
					}
					if fail != "" {
						return true, errors.New(fail)
					}
					if err := strm.MsgSend(raw(resp)); err != nil {
						t.Failf("respond: %v", err)
					}
					return true, nil
				}))
				var got string
				var err error
				if stream {
					strm := openStream(t, cl, context.Background(), svc, mth, &resp)
					if strm == nil {
						return
					}
					if fail == "" {
						if got, err = recv(strm); err == nil {
							_, err2 := recv(strm)
							checkTerminal(t, "end of the stream", "", err2)
						}
					} else {
						_, err = recv(strm)
					}
					_ = strm.Close()
				} else {
					out := srpc.NewRawMessage(nil, true)
					err = cl.ExecCall(context.Background(), svc, mth, raw(resp), out)
					got = string(out.GetData())
				}
				if fail != "" && (err == nil || err == io.EOF || err.Error() != fail) {
					t.Failf("got %s, want error %s", brief([]byte(errStr(err))), brief([]byte(fail)))
				}
				if fail == "" && (err != nil || got != resp) {
					t.Failf("got %s, %v, want %s", brief([]byte(got)), err, brief([]byte(resp)))
				}
				t.Idle()
				done()
				t.MustFinish("after the call")
				if calls != 1 {
					t.Failf("handler invoked %d times", calls)
				}
				t.Outcome("%d %d %d %d", len(svc), len(mth), len(resp), len(fail))
			}})
		if heavy(tr.name) {
			q, th = 1, 2
		}
		reg(&mc.Scenario{Prop: "P02", Name: "unary-" + tr.name, Quick: q, Thorough: th,
			Doc: "unary call over " + tr.name + "; the handler responds, fails, or does not handle the method",
			Main: func(t *mc.T) {
				r := results[t.Choose(len(results))]
				calls := 0
				cl, done := tr.make(t, srpc.InvokerFunc(func(svc, mth string, strm srpc.Stream) (bool, error) {
					calls++
					if svc != "svc" || mth != "mth" {
						t.Failf("handler got %q %q", svc, mth)
					}
					if !r.ok && r.err == nil {
						return false, nil
					}
					req, err := recv(strm)
					if err != nil || req != "req" {
						t.Failf("handler received %q, %v", req, err)
					}
					if r.err == nil {
						if err := strm.MsgSend(raw("resp")); err != nil {
							t.Failf("respond: %v", err)
						}
					}
					return r.ok, r.err
				}))
				out := srpc.NewRawMessage(nil, true)
				err := cl.ExecCall(context.Background(), "svc", "mth", raw("req"), out)
				if r.want == "" {
					if err != nil || string(out.GetData()) != "resp" {
						t.Failf("unary: got %q, %v, want the response", out.GetData(), err)
					}
				} else if err == nil || err == io.EOF || err.Error() != r.want {
					t.Failf("unary: got %v, want error %q", errStr(err), r.want)
				}
				t.Outcome("%s %q %s", r.name, out.GetData(), errStr(err))
				t.Idle()
				done()
				t.MustFinish("after the call")
				if calls != 1 {
					t.Failf("handler invoked %d times", calls)
				}
			}})
		reg(&mc.Scenario{Prop: "P02", Name: "stream-" + tr.name, Quick: q - 1, Thorough: th - 1,
			Doc: "stream over " + tr.name + ": the handler sends 0..2 messages and then succeeds, fails or declines; the client keeps sending; reads eager or after everything settled; the result is read three times",
			Main: func(t *mc.T) {
				r := results[t.Choose(len(results))]
				n := t.Choose(3)
				late := t.Bool()
				sending := t.Bool()
				want := []string{"m1", ""}[:n]
				cl, done := tr.make(t, srpc.InvokerFunc(func(svc, mth string, strm srpc.Stream) (bool, error) {
					sendAll(t, "handler", strm, want)
					return r.ok, r.err
				}))
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				strm := openStream(t, cl, ctx, "svc", "mth", nil)
				if strm == nil {
					return
				}
				if sending {
					t.Go("client.send", func() {
						// may fail once the server has finished
						if strm.MsgSend(raw("ignored")) == nil {
							_ = strm.CloseSend()
						}
					})
				}
				if late {
					t.Idle()
				}
				got, err := recvAll(strm)
				if show(got) != show(want) {
					t.Failf("client received %s, want %s (then %v)", show(got), show(want), err)
				}
				checkTerminal(t, "first result", r.want, err)
				_, err2 := recv(strm)
				checkTerminal(t, "second result", r.want, err2)
				t.Idle()
				_, err3 := recv(strm)
				checkTerminal(t, "result after everything settled", r.want, err3)
				t.Outcome("%s %s %s", r.name, show(got), errStr(err))
				_ = strm.Close()
				t.Idle()
				done()
				t.MustFinish("after the call")
			}})
	}

	// A server under the harness's control completes the call and then misbehaves.
	reg(&mc.Scenario{Prop: "P02", Name: "after-completion", Quick: 2, Thorough: 3,
		Doc: "the server completes the call (success or error, with or without data) and then sends further packets (data, error, completion, cancel, junk) or the stream closes with or without error; the result must not change",
		Main: func(t *mc.T) {
			var first []byte
			want := ""
			var msgs []string
			switch t.Choose(4) {
			case 0:
				first = enc(srpc.NewCallDataPacket(nil, false, true, nil))
			case 1:
				first = enc(srpc.NewCallDataPacket([]byte("d"), false, true, nil))
				msgs = []string{"d"}
			case 2:
				first = enc(srpc.NewCallDataPacket(nil, false, true, errors.New("boom")))
				want = "boom"
			case 3:
				first = enc(srpc.NewCallDataPacket([]byte("e"), false, true, errors.New("boom")))
				want, msgs = "boom", []string{"e"}
			}
			extra := [][]byte{
				nil,
				enc(srpc.NewCallDataPacket([]byte("late"), false, false, nil)),
				enc(srpc.NewCallDataPacket(nil, false, true, nil)),
				enc(srpc.NewCallDataPacket(nil, false, true, errors.New("late error"))),
				enc(srpc.NewCallCancelPacket()),
				{0xff},
			}
			x := extra[t.Choose(len(extra))]
			closeErr := []error{nil, errReset, io.EOF, context.Canceled}[t.Choose(4)]
			late := t.Bool()
			cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, c srpc.CloseHandler) (srpc.PacketWriter, error) {
				w := &nullWriter{}
				t.Go("server", func() {
					w.started.Wait()
					err := h(first)
					if err != nil {
						t.Failf("completion rejected: %v", err)
					}
					if x != nil {
						if err := h(x); err != nil && closeErr == nil {
							closeErr = err
						}
					}
					c(closeErr)
				})
				return w, nil
			})
			strm := openStream(t, cl, context.Background(), "s", "m", nil)
			if strm == nil {
				return
			}
			if late {
				t.Idle()
			}
			got, err := recvAll(strm)
			if show(got) != show(msgs) {
				t.Failf("client received %s, want %s", show(got), show(msgs))
			}
			checkTerminal(t, "first result", want, err)
			t.Idle()
			_, err = recv(strm)
			checkTerminal(t, "result after everything settled", want, err)
			t.Outcome("%s %s", show(got), errStr(err))
			t.MustFinish("after the call")
		}})
}

// nullWriter accepts packets and remembers that the call was started.
type nullWriter struct {
	started mc.Flag
	v       mc.Var
	pkts    []*srpc.Packet
	closed  int
	fail    error
}

func (w *nullWriter) WritePacket(p *srpc.Packet) error {
	var err error
	w.v.Do(func() {
		if err = w.fail; err == nil {
			w.pkts = append(w.pkts, p)
		}
	})
	if err == nil {
		w.started.Set()
	}
	return err
}

func (w *nullWriter) Close() error { w.v.Do(func() { w.closed++ }); return nil }

// list returns the packets written so far.
func (w *nullWriter) list() (l []*srpc.Packet) {
	w.v.Do(func() { l = append(l, w.pkts...) })
	return l
}

// enc encodes a packet.
func enc(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		panic(err)
	}
	return b
}
