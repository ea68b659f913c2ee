package props

import (
	"context"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// transport builds a client connected to a server with the given invoker.
type transport struct {
	name string
	make func(t *mc.T, inv srpc.Invoker) (cl srpc.Client, done func())
}

func viaPipe(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(inv))), func() {}
}

func viaConn(setup func(c *conn)) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
		return srpc.NewClient(serverConn(t, context.Background(), srpc.NewServer(inv), setup)), func() {}
	}
}

// viaMux runs calls over a yamux session on one harness connection.
func viaMux(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) { return viaMuxOn(nil)(t, inv) }

func viaMuxOn(setup func(c *conn)) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) { return muxOn(t, setup, inv) }
}

func muxOn(t *mc.T, setup func(c *conn), inv srpc.Invoker) (srpc.Client, func()) {
	c, a, b := newConn(t)
	if setup != nil {
		setup(c)
	}
	ctx, cancel := context.WithCancel(context.Background())
	smc, err := srpc.NewMuxedConn(b, false, nil)
	if err != nil {
		t.Failf("mux: %v", err)
	}
	cmc, err := srpc.NewMuxedConn(a, true, nil)
	if err != nil {
		t.Failf("mux: %v", err)
	}
	srv := srpc.NewServer(inv)
	t.Go("server.AcceptMuxedConn", func() { _ = srv.AcceptMuxedConn(ctx, smc) })
	return srpc.NewClientWithMuxedConn(cmc), func() {
		cancel()
		_ = cmc.Close()
		_ = smc.Close()
	}
}

// rstream adapts a Stream to the stream type of the generated rpcstream stubs.
type rstream struct{ srpc.Stream }

func (r *rstream) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }
func (r *rstream) Recv() (*rpcstream.RpcStreamPacket, error) {
	m := new(rpcstream.RpcStreamPacket)
	return m, r.MsgRecv(m)
}

// viaRPC nests the calls in an rpcstream call over a harness connection.
func viaRPC(ack bool) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return viaRPCOn(ack, nil)
}

func viaRPCOn(ack bool, setup func(c *conn)) func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
	return func(t *mc.T, inv srpc.Invoker) (srpc.Client, func()) {
		outer := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			return true, rpcstream.HandleRpcStream(&rstream{strm}, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
				return inv, func() {}, nil
			})
		})
		ocl, done := viaConn(setup)(t, outer)
		return rpcstream.NewRpcStreamClient(func(ctx context.Context) (*rstream, error) {
			s, err := ocl.NewStream(ctx, "host", "rpc", nil)
			if err != nil {
				return nil, err
			}
			return &rstream{s}, nil
		}, "comp", ack), done
	}
}

// recvAll receives until an error.
func recvAll(s srpc.Stream) (got []string, err error) {
	for {
		m, err := recv(s)
		if err != nil {
			return got, err
		}
		got = append(got, m)
		if len(got) > 4096 {
			return got, fmt.Errorf("endless stream")
		}
	}
}

// checkDelivery requires that exactly want arrived, then io.EOF.
func checkDelivery(t *mc.T, who string, want, got []string, err error) {
	if len(want) != len(got) {
		t.Failf("%s received %s, want %s (then %v)", who, show(got), show(want), err)
		return
	}
	for i := range want {
		if want[i] != got[i] {
			t.Failf("%s received %s, want %s (then %v)", who, show(got), show(want), err)
			return
		}
	}
	if err != io.EOF {
		t.Failf("%s received everything, then error %v instead of EOF", who, err)
	}
}

func show(s []string) string {
	var o []string
	for i, x := range s {
		if i == 20 {
			o = append(o, fmt.Sprintf("..(%d)", len(s)))
			break
		}
		if len(x) > 16 {
			x = fmt.Sprintf("%s..(%d)", x[:8], len(x))
		}
		o = append(o, fmt.Sprintf("%q", x))
	}
	return "[" + strings.Join(o, " ") + "]"
}

func sendAll(t *mc.T, who string, s srpc.Stream, msgs []string) bool {
	for _, m := range msgs {
		if err := s.MsgSend(raw(m)); err != nil {
			t.Failf("%s: send %q: %v", who, m, err)
			return false
		}
	}
	return true
}

// sendPaced waits before each message.
func sendPaced(t *mc.T, who string, s srpc.Stream, msgs []string, pause time.Duration) bool {
	if pause == 0 {
		return sendAll(t, who, s, msgs)
	}
	for i := range msgs {
		time.Sleep(pause)
		if !sendAll(t, who, s, msgs[i:i+1]) {
			return false
		}
	}
	return true
}

// openStream starts a stream, optionally with a first message.
func openStream(t *mc.T, cl srpc.Client, ctx context.Context, svc, mth string, first *string) srpc.Stream {
	var m srpc.Message
	if first != nil {
		m = raw(*first)
	}
	s, err := cl.NewStream(ctx, svc, mth, m)
	if err != nil {
		t.Failf("NewStream: %v", err)
		return nil
	}
	return s
}

// duplex runs one call: the client sends up and receives, the server sends down and
// receives, each with its own goroutine; late delays the receivers until all is sent.
type duplex struct {
	up, down []string
	first    bool // the first message travels with the call start
	late     bool
	// pauses before each message
	upPause, downPause time.Duration
	serial             bool // client and server use one goroutine each: send all, then receive
}

func (d duplex) run(t *mc.T, mk func(t *mc.T, inv srpc.Invoker) (srpc.Client, func())) {
	var gate mc.Flag
	handler := srpc.InvokerFunc(func(svc, mth string, strm srpc.Stream) (bool, error) {
		if svc != "svc" || mth != "mth" {
			t.Failf("handler invoked for %q %q", svc, mth)
		}
		send := func() { sendPaced(t, "server", strm, d.down, d.downPause) }
		if !d.serial {
			t.Go("server.send", send)
		} else {
			send()
		}
		if d.late {
			gate.Wait()
		}
		got, err := recvAll(strm)
		checkDelivery(t, "server", d.up, got, err)
		return true, nil
	})
	if !d.serial {
		// the handler must not return before its sender has finished
		inner := handler
		handler = func(svc, mth string, strm srpc.Stream) (bool, error) {
			sent := make(chan struct{})
			ok, err := inner(svc, mth, &notifyStream{Stream: strm, n: len(d.down), done: sent})
			if len(d.down) != 0 {
				<-sent
			}
			return ok, err
		}
	}
	cl, done := mk(t, handler)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	up := d.up
	var first *string
	if d.first && len(up) != 0 {
		first, up = &up[0], up[1:]
	}
	strm := openStream(t, cl, ctx, "svc", "mth", first)
	if strm == nil {
		return
	}
	send := func() {
		if sendPaced(t, "client", strm, up, d.upPause) {
			if err := strm.CloseSend(); err != nil {
				t.Failf("CloseSend: %v", err)
			}
		}
	}
	if d.serial {
		send()
	} else {
		t.Go("client.send", send)
	}
	if d.late {
		t.Idle()
		gate.Set()
		t.Idle()
	}
	got, err := recvAll(strm)
	checkDelivery(t, "client", d.down, got, err)
	t.Outcome("up=%s down=%s", show(d.up), show(got))
	cancel()
	_ = strm.Close()
	t.Idle()
	done()
	t.MustFinish("after the call ended")
}

// notifyStream closes done after n sends.
type notifyStream struct {
	srpc.Stream
	n    int
	done chan struct{}
}

func (s *notifyStream) MsgSend(m srpc.Message) error {
	err := s.Stream.MsgSend(m)
	if s.n--; s.n == 0 {
		close(s.done)
	}
	return err
}

// seqs lists all sequences over alphabet of length at most n.
func seqs(alphabet []string, n int) [][]string {
	out := [][]string{nil}
	cur := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, s := range cur {
			for _, a := range alphabet {
				next = append(next, append(append([]string(nil), s...), a))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func pattern(n int, seed byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7) ^ seed ^ byte(i>>8)
	}
	return string(b)
}

func init() {
	reg(&mc.Scenario{Prop: "P01", Name: "echo-pipe", Quick: 2, Thorough: 3, Weight: 2,
		Doc: "client sends a,\"\",bb while the handler echoes each message, NewServerPipe",
		Main: func(t *mc.T) {
			handler := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
				var got []string
				for {
					x, err := recv(strm)
					if err != nil {
						checkDelivery(t, "server", []string{"a", "", "bb"}, got, err)
						return true, nil
					}
					got = append(got, x)
					if err := strm.MsgSend(raw(x)); err != nil {
						t.Failf("echo: %v", err)
					}
				}
			})
			cl, _ := viaPipe(t, handler)
			ctx, cancel := context.WithCancel(context.Background())
			strm := openStream(t, cl, ctx, "s", "m", nil)
			t.Go("send", func() {
				sendAll(t, "client", strm, []string{"a", "", "bb"})
				if err := strm.CloseSend(); err != nil {
					t.Failf("closesend: %v", err)
				}
			})
			got, err := recvAll(strm)
			checkDelivery(t, "client", []string{"a", "", "bb"}, got, err)
			t.Outcome("%q", got)
			cancel()
			_ = strm.Close()
			t.MustFinish("after the call ended")
		}})

	for _, tr := range []transport{{"pipe", viaPipe}, {"conn", viaConn(nil)}, {"mux", viaMux}, {"rpcstream", viaRPC(false)},
		{"conn-cap4", viaConn(func(c *conn) { c.capacity = 4 })}} {
		q, th := 2, 3
		if tr.name == "mux" || tr.name == "rpcstream" {
			q, th = 1, 2
		}
		reg(&mc.Scenario{Prop: "P01", Name: "duplex-" + tr.name, Quick: q, Thorough: th, Weight: 2,
			Doc:  "both sides send and receive concurrently (two senders, two receivers) over " + tr.name,
			Main: func(t *mc.T) { duplex{up: []string{"a", "bb"}, down: []string{"x", ""}}.run(t, tr.make) }})
	}
	reg(&mc.Scenario{Prop: "P01", Name: "programs", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "every pair of message sequences of length at most 2 over {empty, 1 byte, 3 bytes} for each direction, with and without first message, eager and late receivers",
		Main: func(t *mc.T) {
			all := seqs([]string{"", "a", "bcd"}, 2)
			d := duplex{up: all[t.Choose(len(all))], down: all[t.Choose(len(all))], first: t.Bool(), late: t.Bool()}
			d.run(t, viaConn(nil))
		}})
	reg(&mc.Scenario{Prop: "P01", Name: "one-way", Quick: 1, Thorough: 2, Weight: 2,
		Doc: "every message sequence of length at most 3 over {empty, 2 bytes} in one direction (client or server streaming), with and without first message",
		Main: func(t *mc.T) {
			all := seqs([]string{"", "ab"}, 3)
			d := duplex{first: t.Bool()}
			if t.Bool() {
				d.up = all[t.Choose(len(all))]
			} else {
				d.down = all[t.Choose(len(all))]
			}
			d.run(t, viaConn(nil))
		}})
	reg(&mc.Scenario{Prop: "P01", Name: "chunks", Quick: 2, Thorough: 3, Weight: 2,
		Doc: "every read returns either all available bytes or a chosen smaller number (1, 3, 5 or half), receivers late, so messages queue up and share the read buffer",
		Main: func(t *mc.T) {
			mk := viaConn(func(c *conn) {
				c.chunk = func(n int) int {
					k := []int{n, 1, 3, 5, n / 2}[t.Deviate(5)]
					if k < 1 || k > n {
						return n
					}
					return k
				}
			})
			duplex{up: []string{"abc", "", "defg"}, down: []string{"xyz", "u"}, late: true}.run(t, mk)
		}})
	reg(&mc.Scenario{Prop: "P01", Name: "large", Quick: 1, Thorough: 2, Weight: 2,
		Doc: "messages around and beyond the 2048 byte read buffer, receivers late",
		Main: func(t *mc.T) {
			sz := []int{2033, 2040, 2044, 2048, 4100, 9000, 65530, 70000, 300000}
			n := sz[t.Choose(len(sz))]
			duplex{up: []string{pattern(n, 1), pattern(7, 2), pattern(n, 3)}, down: []string{pattern(n, 4), pattern(3, 5)}, late: t.Bool()}.run(t, viaConn(nil))
		}})
	for _, tr := range transports {
		reg(&mc.Scenario{Prop: "P01", Name: "backlog-" + tr.name, Quick: 0, Thorough: 0, MaxEvents: 2000000,
			Doc: "70 to 1100 (nested and muxed calls: up to 300) messages in each direction, receivers that keep up or begin when everything was sent, over " + tr.name,
			Main: func(t *mc.T) {
				n := []int{70, 130, 260, 300, 520, 1100}
				if heavy(tr.name) {
					n = n[:4]
				}
				var up, down []string
				for i := n[t.Choose(len(n))]; i > 0; i-- {
					up = append(up, fmt.Sprint("u", i))
					down = append(down, fmt.Sprint("d", i))
				}
				duplex{up: up, down: down, late: t.Bool()}.run(t, tr.make)
			}})
	}
}
