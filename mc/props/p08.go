package props

import (
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// refClient is the reference of the receiving half of a client call.
type refClient struct {
	data   []string
	closed bool
	end    string // "", "eof", "error <text>", "canceled", "protocol", "reset"
	stop   bool   // the client must end the stream
}

func (r *refClient) step(s sym) (accepted bool) {
	fail := func() bool {
		r.stop = true
		if !r.closed {
			r.end = "protocol"
		}
		r.closed = true
		return false
	}
	switch s.kind {
	case 's', 'x':
		return fail()
	case 'd':
		if r.closed {
			return fail()
		}
		if s.has {
			r.data = append(r.data, s.data)
		}
		if s.compl {
			r.closed, r.end = true, "eof"
			if s.err != "" {
				r.end = "error " + s.err
			}
		}
	case 'c':
		if !r.closed {
			r.end = "canceled"
		}
		r.closed = true
	}
	return true
}

func (r *refClient) close(err error) {
	if !r.closed {
		r.closed, r.end = true, "eof"
		if err != nil {
			r.end = "reset"
		}
	}
}

func endOfClient(err error) string {
	if err != nil && err.Error() == errReset.Error() {
		return "reset"
	}
	return endOf(err)
}

var timings = []string{"before the start", "while starting", "after the start", "after the client waits", "split around the start"}

// p08 delivers a chosen sequence to a client call.
func p08(t *mc.T, syms []sym, depth int, unary bool, timing int) {
	var ref refClient
	var seq []sym
	var names []string
	for i := 0; i < depth && !ref.stop; i++ {
		k := t.Choose(len(syms) + 1)
		if k == len(syms) {
			break
		}
		s := syms[k]
		if s.wire == nil || len(s.wire) <= 4 || s.name == "too-long" {
			return // a defect of the framing
		}
		seq = append(seq, s)
		names = append(names, s.name)
		ref.step(s)
	}
	// how the stream ends afterwards: it stays open, ends, or breaks
	closing := 0
	if !ref.stop {
		closing = t.Choose(3)
		names = append(names, []string{"open", "end", "reset"}[closing])
	}
	what := "[" + strings.Join(names, " ") + "] " + timings[timing]
	fail := func(f string, x ...any) { t.Failf("%s: %s", what, fmt.Sprintf(f, x...)) }

	split := 0
	if timing == 4 {
		split = t.Choose(len(seq) + 1)
	}
	w := &nullWriter{}
	var late mc.Flag
	ref = refClient{}
	done := false // the script was delivered up to the close
	feed := func(h srpc.PacketDataHandler, c srpc.CloseHandler, part []sym, last bool) {
		for _, s := range part {
			want := ref.step(s)
			err := h(s.wire[4:])
			if (err == nil) != want && !unary {
				fail("packet %s: handler returned %v", s.name, err)
			}
			if err != nil {
				// as the read pump does
				c(err)
				done = true
				return
			}
		}
		if last && !done {
			switch closing {
			case 1:
				ref.close(nil)
				c(nil)
			case 2:
				ref.close(errReset)
				c(errReset)
			}
			done = true
		}
	}
	cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, c srpc.CloseHandler) (srpc.PacketWriter, error) {
		switch timing {
		case 0:
			feed(h, c, seq, true)
		case 4:
			feed(h, c, seq[:split], false)
		}
		if timing != 0 {
			t.Go("peer", func() {
				part := seq
				switch timing {
				case 4:
					part = seq[split:]
					w.started.Wait()
				case 2:
					w.started.Wait()
				case 3:
					late.Wait()
				}
				if !done {
					feed(h, c, part, true)
				}
			})
		}
		return w, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var strm srpc.Stream
	var got []string
	var err error
	opened, returned := false, false
	t.Go("client", func() {
		if unary {
			out := srpc.NewRawMessage(nil, true)
			if err = cl.ExecCall(ctx, "svc", "mth", raw("q"), out); err == nil {
				got = []string{string(out.GetData())}
			}
		} else {
			if strm, err = cl.NewStream(ctx, "svc", "mth", nil); err == nil {
				opened = true
				t.Publish()
				got, err = recvAll(strm)
			}
		}
		returned = true
	})
	t.Idle()
	late.Set()
	t.Idle()
	if timing == 4 && !w.started.IsSet() {
		// the call could not be started, so the rest of the script never comes
		w.started.Set()
		t.Idle()
	}
	must := ref.closed || unary && len(ref.data) != 0
	if returned != must && !(returned && !opened && !unary) {
		fail("client returned: %v (%s, %v), expected: %v", returned, show(got), err, must)
	}
	open := !returned
	if open {
		cancel()
		t.Idle()
		if !returned {
			fail("cancelling did not end the call")
		}
		if endOfClient(err) != "canceled" {
			fail("cancelled call returned %s %v", show(got), err)
		}
	}
	switch {
	case unary && err == nil:
		if len(ref.data) == 0 || got[0] != ref.data[0] {
			fail("unary call returned %s, expected %s then %s", show(got), show(ref.data), ref.end)
		}
	case unary || !opened:
		// no call start went out, or no message came back
		if e := endOfClient(err); ref.end != "eof" && !open && e != ref.end {
			fail("call failed with %v, expected %s", err, ref.end)
		}
		if unary && len(ref.data) != 0 && len(w.list()) != 0 {
			fail("unary call failed with %v, expected %s", err, show(ref.data))
		}
	default:
		if show(got) != show(ref.data) || !open && endOfClient(err) != ref.end {
			fail("client received %s then %v, expected %s then %q", show(got), err, show(ref.data), ref.end)
		}
		if ref.closed {
			_, err2 := recv(strm)
			if endOfClient(err2) != ref.end {
				fail("a later receive returned %v, expected %s", err2, ref.end)
			}
		}
	}
	if strm != nil {
		_ = strm.MsgSend(raw("late"))
		_ = strm.CloseSend()
		_ = strm.Close()
	}
	if w.closed == 0 {
		fail("the stream was not closed")
	}
	if len(w.list()) != 0 {
		if s := w.list()[0].GetCallStart(); s == nil || s.GetRpcService() != "svc" || s.GetRpcMethod() != "mth" {
			fail("the first packet was %s", showPkts(w.list()[:1]))
		}
		for _, p := range w.list()[1:] {
			if p.GetCallStart() != nil {
				fail("a second call start was sent")
			}
		}
	}
	t.Outcome("%v %s", opened, endOfClient(err))
	cancel()
	t.MustFinish(what)
}

func init() {
	for _, unary := range []bool{false, true} {
		unary := unary
		name := map[bool]string{false: "stream", true: "unary"}[unary]
		reg(&mc.Scenario{Prop: "P08", Name: "sequences-" + name, Quick: 0, Thorough: 1,
			Doc:  "every sequence of up to 4 packets over the whole alphabet, then the stream stays open, ends or breaks; delivered before, while, after and around the start of a " + name + " call",
			Main: func(t *mc.T) { p08(t, alphabet, 4, unary, t.Choose(len(timings))) }})
		reg(&mc.Scenario{Prop: "P08", Name: "schedules-" + name, Quick: 2, Thorough: 4,
			Doc: "every sequence of up to 3 packets of eight kinds delivered concurrently with the start of a " + name + " call, all schedules",
			Main: func(t *mc.T) {
				p08(t, few("data(a)", "data(empty)", "complete", "data(b)+complete", "data(c)+error", "cancel", "malformed", "start"), 3, unary, t.Choose(2)+1)
			}})
	}
	reg(&mc.Scenario{Prop: "P08", Name: "wire", Quick: 1, Thorough: 2,
		Doc: "every sequence of up to 3 (thorough: 4) frames (also zero-length and oversized ones) written by the peer on a connection before or after it sees the call start; the client reads through its own read pump",
		Main: func(t *mc.T) {
			p08wire(t)
		}})
}

// p08wire is a raw peer on a harness connection.
func p08wire(t *mc.T) {
	var ref refClient
	var names []string
	var wire []byte
	d := 3
	if t.Tier == "thorough" {
		d = 4
	}
	for i := 0; i < d && !ref.stop; i++ {
		k := t.Choose(len(alphabet) + 1)
		if k == len(alphabet) {
			break
		}
		ref.step(alphabet[k])
		wire = append(wire, alphabet[k].wire...)
		names = append(names, alphabet[k].name)
	}
	what := "[" + strings.Join(names, " ") + "]"
	early, closes, half := t.Bool(), t.Bool(), t.Bool()
	completed := ref.end == "eof" || strings.HasPrefix(ref.end, "error")
	var arrived mc.Flag
	var halfErr error
	c, a, b := newConn(t)
	started := false
	cl := srpc.NewClient(func(_ context.Context, h srpc.PacketDataHandler, cls srpc.CloseHandler) (srpc.PacketWriter, error) {
		t.Go("peer", func() {
			if early {
				_, _ = b.Write(wire)
			}
			buf := make([]byte, 4096)
			n, err := b.Read(buf)
			started = err == nil && n != 0
			if !early {
				_, _ = b.Write(wire)
			}
			if closes {
				_ = b.Close()
				return
			}
			for err == nil {
				_, err = b.Read(buf)
			}
			_ = b.Close()
		})
		prw := srpc.NewPacketReadWriter(a)
		t.Go("client.ReadPump", func() { prw.ReadPump(h, cls) })
		return prw, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var got []string
	var err error
	var strm srpc.Stream
	returned := false
	t.Go("client", func() {
		if strm, err = cl.NewStream(ctx, "svc", "mth", nil); err == nil {
			if half {
				arrived.Wait()
				halfErr = strm.CloseSend()
			}
			got, err = recvAll(strm)
		}
		returned = true
	})
	t.Idle()
	if half {
		// half-close when everything has arrived
		arrived.Set()
		t.Idle()
	}
	if halfErr != nil && completed {
		t.Failf("%s: half-closing a completed call: %v", what, halfErr)
	}
	if closes && !ref.closed {
		ref.close(nil)
	}
	if !returned && (ref.closed || closes) {
		t.Failf("%s: client blocked", what)
	}
	open := !returned
	if open {
		cancel()
		t.Idle()
		if endOfClient(err) != "canceled" {
			t.Failf("%s: cancelled call returned %v", what, err)
		}
	}
	if strm != nil {
		if show(got) != show(ref.data) || !open && endOfClient(err) != ref.end {
			t.Failf("%s: client received %s then %v, expected %s then %q", what, show(got), err, show(ref.data), ref.end)
		}
		_ = strm.Close()
	} else if err == nil || err == io.EOF {
		t.Failf("%s: no stream and error %v", what, err)
	} else if e := endOfClient(err); e != ref.end && started && ref.end != "eof" {
		t.Failf("%s: call failed with %v, expected %q", what, err, ref.end)
	}
	t.Outcome("%v %s", strm != nil, endOfClient(err))
	cancel()
	t.MustFinish(what)
	if !c.released(0) {
		t.Failf("%s: the client did not close the connection", what)
	}
}
