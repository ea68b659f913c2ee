package props

import (
	"context"
	"net"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	ymuxer "github.com/libp2p/go-libp2p/p2p/muxer/yamux"
	yamux "github.com/libp2p/go-yamux/v4"

	"verifmc/mc"
)

// world is a server reachable over one kind of transport, with everything observable.
type world struct {
	t    *mc.T
	kind string // conn, pipe, mux, rpc, rpcack
	// sctx is the server's context, nil for Background.
	sctx context.Context
	// setup configures each harness connection.
	setup func(c *conn)
	// lookup, when set, wraps the component lookup of nested calls.
	lookup func(ctx context.Context, id string) (srpc.Invoker, func(), error)

	conns []*conn
	// failedOpens counts mux streams that could not be opened: go-yamux keeps the entry of a
	// stream whose open was cancelled, which is not starpc's doing.
	failedOpens int
	sessions    [2]*yamux.Session
	cl          srpc.Client
	stop        func()
}

func (w *world) newConn() (*conn, *end, *end) {
	c, a, b := newConn(w.t)
	if w.setup != nil {
		w.setup(c)
	}
	mc.Quiet(func() { w.conns = append(w.conns, c) })
	return c, a, b
}

// start connects a client to a server with the given invoker.
func (w *world) start(inv srpc.Invoker) srpc.Client {
	t := w.t
	if w.sctx == nil {
		w.sctx = context.Background()
	}
	w.stop = func() {}
	direct := func(srv *srpc.Server) srpc.OpenStreamFunc {
		return func(_ context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
			_, a, b := w.newConn()
			t.Go("server.HandleStream", func() { srv.HandleStream(w.sctx, b) })
			prw := srpc.NewPacketReadWriter(a)
			t.Go("client.ReadPump", func() { prw.ReadPump(msgHandler, closeHandler) })
			return prw, nil
		}
	}
	switch w.kind {
	case "pipe":
		w.cl = srpc.NewClient(srpc.NewServerPipe(srpc.NewServer(inv)))
	case "conn":
		w.cl = srpc.NewClient(direct(srpc.NewServer(inv)))
	case "mux":
		_, a, b := w.newConn()
		w.sessions[0] = w.session(a, true)
		w.sessions[1] = w.session(b, false)
		smc, cmc := ymuxer.NewMuxedConn(w.sessions[1]), ymuxer.NewMuxedConn(w.sessions[0])
		srv := srpc.NewServer(inv)
		t.Go("server.AcceptMuxedConn", func() {
			_ = srv.AcceptMuxedConn(w.sctx, smc)
			_ = smc.Close()
		})
		open := srpc.NewOpenStreamWithMuxedConn(cmc)
		w.cl = srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, c srpc.CloseHandler) (srpc.PacketWriter, error) {
			pw, err := open(ctx, h, c)
			if err != nil {
				mc.Quiet(func() { w.failedOpens++ })
			}
			return pw, err
		})
		w.stop = func() {
			_ = cmc.Close()
			_ = smc.Close()
		}
	case "rpc", "rpcack":
		lookup := w.lookup
		if lookup == nil {
			lookup = func(ctx context.Context, id string) (srpc.Invoker, func(), error) { return inv, func() {}, nil }
		}
		outer := srpc.InvokerFunc(func(s, m string, strm srpc.Stream) (bool, error) {
			return true, rpcstream.HandleRpcStream(&rstream{strm}, lookup)
		})
		ocl := srpc.NewClient(direct(srpc.NewServer(outer)))
		w.cl = rpcstream.NewRpcStreamClient(openOuter(ocl), "comp", w.kind == "rpcack")
	default:
		panic("unknown transport " + w.kind)
	}
	return w.cl
}

func (w *world) session(c net.Conn, client bool) *yamux.Session {
	var s *yamux.Session
	var err error
	if client {
		s, err = yamux.Client(c, srpc.NewYamuxConfig(), nil)
	} else {
		s, err = yamux.Server(c, srpc.NewYamuxConfig(), nil)
	}
	if err != nil {
		w.t.Failf("yamux: %v", err)
	}
	return s
}

// openOuter opens the outer call of nested calls.
func openOuter(ocl srpc.Client) rpcstream.RpcStreamCaller[*rstream] {
	return func(ctx context.Context) (*rstream, error) {
		s, err := ocl.NewStream(ctx, "host", "rpc", nil)
		if err != nil {
			return nil, err
		}
		return &rstream{s}, nil
	}
}

// streams counts the open streams of the multiplexed connection, both ends.
func (w *world) streams() (n int) {
	mc.Quiet(func() {
		for _, s := range w.sessions {
			if s != nil {
				n += s.NumStreams()
			}
		}
	})
	return n
}

// unclosed lists the ends of per-call connections not closed.
func (w *world) unclosed() (out []string) {
	if w.kind == "mux" {
		return nil
	}
	for i, c := range w.conns {
		for e := 0; e < 2; e++ {
			if !c.released(e) {
				out = append(out, []string{"client", "server"}[e]+" end of connection "+string(rune('0'+i)))
			}
		}
	}
	return out
}
