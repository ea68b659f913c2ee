package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// tally counts events; the order in which they are added does not matter.
type tally struct {
	mu sync.Mutex
	m  map[string]int
}

func (c *tally) add(format string, a ...any) {
	mc.Quiet(func() {
		c.mu.Lock()
		if c.m == nil {
			c.m = map[string]int{}
		}
		c.m[fmt.Sprintf(format, a...)]++
		c.mu.Unlock()
	})
}

func (c *tally) get(k string) (n int) {
	mc.Quiet(func() {
		c.mu.Lock()
		n = c.m[k]
		c.mu.Unlock()
	})
	return n
}

func (c *tally) String() string {
	var o []string
	mc.Quiet(func() {
		c.mu.Lock()
		for k, v := range c.m {
			o = append(o, fmt.Sprintf("%s=%d", k, v))
		}
		c.mu.Unlock()
	})
	sort.Strings(o)
	return strings.Join(o, " ")
}

// tagServer answers every call with data derived from its service, method and input:
// echo answers one message, chat answers each message, fail sends one message and fails,
// hang waits for its context or the end of the stream.
func tagServer(calls *tally) srpc.InvokerFunc {
	return func(svc, mth string, strm srpc.Stream) (bool, error) {
		tag := svc + "." + mth
		kind := mth
		if i := strings.IndexByte(kind, '-'); i >= 0 {
			kind = kind[:i]
		}
		calls.add("%s", tag)
		switch kind {
		case "echo":
			m, err := recv(strm)
			if err != nil {
				return true, err
			}
			return true, strm.MsgSend(raw(tag + ":" + m))
		case "chat":
			for {
				m, err := recv(strm)
				if err == io.EOF {
					return true, nil
				}
				if err != nil {
					return true, err
				}
				if err := strm.MsgSend(raw(tag + ":" + m)); err != nil {
					return true, err
				}
			}
		case "fail":
			m, err := recv(strm)
			if err != nil {
				return true, err
			}
			if err := strm.MsgSend(raw(tag + ":" + m)); err != nil {
				return true, err
			}
			return true, errors.New(tag + " failed on " + m)
		case "hang":
			for {
				if _, err := recv(strm); err != nil {
					break
				}
			}
			<-strm.Context().Done()
			calls.add("%s ended", tag)
			return true, strm.Context().Err()
		}
		return false, nil
	}
}

// callEcho runs a unary call and checks its answer.
func callEcho(t *mc.T, cl srpc.Client, svc, mth, arg string) {
	out := srpc.NewRawMessage(nil, true)
	err := cl.ExecCall(context.Background(), svc, mth, raw(arg), out)
	if err != nil || string(out.GetData()) != svc+"."+mth+":"+arg {
		t.Failf("unary %s.%s(%s): got %q, %v", svc, mth, arg, out.GetData(), errStr(err))
	}
}

// callChat exchanges messages in lock step and checks each answer and the end.
func callChat(t *mc.T, cl srpc.Client, svc, mth string, args ...string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := cl.NewStream(ctx, svc, mth, nil)
	if err != nil {
		t.Failf("chat %s.%s: %v", svc, mth, err)
		return
	}
	for _, a := range args {
		if err := s.MsgSend(raw(a)); err != nil {
			t.Failf("chat %s.%s: send %q: %v", svc, mth, a, err)
			return
		}
		m, err := recv(s)
		if err != nil || m != svc+"."+mth+":"+a {
			t.Failf("chat %s.%s: sent %q, got %q, %v", svc, mth, a, m, errStr(err))
			return
		}
	}
	if err := s.CloseSend(); err != nil {
		t.Failf("chat %s.%s: half-close: %v", svc, mth, err)
	}
	m, err := recv(s)
	if err != io.EOF {
		t.Failf("chat %s.%s: after half-close got %q, %v, want EOF", svc, mth, m, errStr(err))
	}
	_ = s.Close()
}

// callFail expects one answer and then the handler's error.
func callFail(t *mc.T, cl srpc.Client, svc, mth, arg string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := cl.NewStream(ctx, svc, mth, raw(arg))
	if err != nil {
		t.Failf("fail %s.%s: %v", svc, mth, err)
		return
	}
	tag := svc + "." + mth
	if m, err := recv(s); err != nil || m != tag+":"+arg {
		t.Failf("fail %s: got %q, %v", tag, m, errStr(err))
		return
	}
	if m, err := recv(s); err == nil || err.Error() != tag+" failed on "+arg {
		t.Failf("fail %s: got %q, %v, want the handler's error", tag, m, errStr(err))
	}
	_ = s.Close()
}

// callHang opens a stream that never answers and ends it by how (0: cancel, 1: Close).
func callHang(t *mc.T, cl srpc.Client, svc, mth string, how int) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, err := cl.NewStream(ctx, svc, mth, raw("x"))
	if err != nil {
		t.Failf("hang %s.%s: %v", svc, mth, err)
		return
	}
	t.Go("hang.recv", func() {
		if m, err := recv(s); err == nil {
			t.Failf("hang %s.%s: received %q", svc, mth, m)
		}
	})
	if how == 0 {
		cancel()
	} else {
		_ = s.Close()
	}
}

func init() {
	for _, tr := range transports {
		q, th := 1, 2
		if heavy(tr.name) {
			q, th = 1, 2
		}
		w := 1
		if heavy(tr.name) {
			w = 4
		}
		reg(&mc.Scenario{Prop: "P03", Name: "two-calls-" + tr.name, Quick: q, Thorough: th, Weight: w,
			Doc: "two overlapping calls over " + tr.name + ": every pair of {unary, unary of the same method, chat, failing stream} with different arguments",
			Main: func(t *mc.T) {
				var calls tally
				cl, done := tr.make(t, tagServer(&calls))
				k := t.Choose(4)
				want := "s.echo-1=1"
				t.Go("call1", func() { callEcho(t, cl, "s", "echo-1", "one") })
				switch k {
				case 0:
					callEcho(t, cl, "s2", "echo-2", "two")
					want += " s2.echo-2=1"
				case 1:
					callEcho(t, cl, "s", "echo-1", "two")
					want = "s.echo-1=2"
				case 2:
					callChat(t, cl, "s", "chat", "a", "b")
					want = "s.chat=1 " + want
				case 3:
					callFail(t, cl, "s", "fail", "a")
					want += " s.fail=1"
				}
				t.Idle()
				if got := calls.String(); got != want {
					t.Failf("handlers invoked: %s, want %s", got, want)
				}
				t.Outcome("%d %s", k, calls.String())
				done()
				t.MustFinish("after the calls")
			}})
		reg(&mc.Scenario{Prop: "P03", Name: "ended-neighbour-" + tr.name, Quick: q, Thorough: th, Weight: w,
			Doc: "a chat over " + tr.name + " next to a call that is cancelled, closed, unhandled, or fails",
			Main: func(t *mc.T) {
				var calls tally
				cl, done := tr.make(t, tagServer(&calls))
				k := t.Choose(4)
				t.Go("chat", func() { callChat(t, cl, "s", "chat", "a", "b") })
				switch k {
				case 0, 1:
					callHang(t, cl, "s", "hang", k)
				case 2:
					out := srpc.NewRawMessage(nil, true)
					if err := cl.ExecCall(context.Background(), "s", "nobody", raw("x"), out); err == nil || err.Error() != "unimplemented" {
						t.Failf("unhandled call: %v", errStr(err))
					}
				case 3:
					callFail(t, cl, "s", "fail", "a")
				}
				t.Idle()
				if n := calls.get("s.chat"); n != 1 {
					t.Failf("chat handler invoked %d times", n)
				}
				// A call cancelled before its start reached the server may never reach the handler.
				for _, h := range []string{"s.hang", "s.nobody", "s.fail"} {
					if n := calls.get(h); n > 1 {
						t.Failf("handler %s invoked %d times", h, n)
					}
				}
				// the connection is still usable
				callEcho(t, cl, "s", "echo-after", "z")
				t.Outcome("%d %s", k, calls.String())
				t.Idle()
				done()
				t.MustFinish("after the calls")
			}})
		reg(&mc.Scenario{Prop: "P03", Name: "three-calls-" + tr.name, Quick: 0, Thorough: 1, Weight: w,
			Doc: "three overlapping calls over " + tr.name + ": two chats and a unary call, then two more calls in sequence",
			Main: func(t *mc.T) {
				var calls tally
				cl, done := tr.make(t, tagServer(&calls))
				t.Go("chat1", func() { callChat(t, cl, "s", "chat-1", "a", "", "c") })
				t.Go("chat2", func() { callChat(t, cl, "s", "chat-2", "d", "e") })
				callEcho(t, cl, "s", "echo", "x")
				callEcho(t, cl, "s", "echo", "y")
				callFail(t, cl, "s", "fail", "z")
				t.Idle()
				want := "s.chat-1=1 s.chat-2=1 s.echo=2 s.fail=1"
				if got := calls.String(); got != want {
					t.Failf("handlers invoked: %s, want %s", got, want)
				}
				t.Outcome("%s", calls.String())
				done()
				t.MustFinish("after the calls")
			}})
	}
}
