package props

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// The far end: a Go client or server at the disposal of the explorer of the TypeScript half
// (P31). Commands come in on a FIFO, one per line; after each one everything that can run
// runs, and what happened is the answer, one line per occurrence and a line with a dot.
// Every session is one execution under the controlled scheduler.

type farFile struct {
	fd  int
	buf []byte
}

// line reads one line without telling the runtime: nothing else could run meanwhile.
func (f *farFile) line() (string, bool) {
	for {
		if i := strings.IndexByte(string(f.buf), '\n'); i >= 0 {
			l := string(f.buf[:i])
			f.buf = f.buf[i+1:]
			return l, true
		}
		b := make([]byte, 1<<16)
		n, _, e := syscall.RawSyscall(syscall.SYS_READ, uintptr(f.fd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if e != 0 || n == 0 {
			return "", false
		}
		f.buf = append(f.buf, b[:n]...)
	}
}

func (f *farFile) write(s string) {
	b := []byte(s)
	for len(b) != 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, uintptr(f.fd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if e != 0 {
			os.Exit(4)
		}
		b = b[n:]
	}
}

// FarServe runs sessions until the input ends.
func FarServe(in, out string) {
	open := func(p string, mode int) *farFile {
		fd, err := syscall.Open(p, mode, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, p, err)
			os.Exit(3)
		}
		return &farFile{fd: fd}
	}
	r := open(in, syscall.O_RDONLY)
	w := open(out, syscall.O_WRONLY)
	for {
		l, ok := r.line()
		if !ok {
			return
		}
		s := &mc.Scenario{Prop: "far", Name: "far", Horizon: time.Hour, Main: func(t *mc.T) {
			f := &far{t: t, r: r, w: w, conns: map[string]*farConn{}, open: map[string]int{}, calls: map[string]*farCall{}}
			f.session(l)
		}}
		_, _, v := s.Exec("quick", nil, 0, false)
		mc.MaybeGC()
		w.write("v " + hex.EncodeToString([]byte(v)) + "\n.\n")
	}
}

type far struct {
	t    *mc.T
	r, w *farFile
	v    mc.Var
	out  []string
	open map[string]int // gates
	arg  map[string]string

	conns map[string]*farConn
	calls map[string]*farCall
	nconn int
	srv   *srpc.Server
	cl    srpc.Client
}

func (f *far) say(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	f.v.Do(func() { f.out = append(f.out, s) })
}

// log reports something the program on this side saw; texts are in hex.
func (f *far) log(what string, text string) { f.say("l %s %s", what, hex.EncodeToString([]byte(text))) }

// gate waits until the explorer lets it go on.
func (f *far) gate(name string) {
	f.say("g %s", name)
	f.v.Wait(func() bool {
		if f.open[name] == 0 {
			return false
		}
		f.open[name]--
		return true
	})
}

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// list decodes a list of bodies: hex strings, each after a comma.
func list(s string) (l []string) {
	for i, x := range strings.Split(s, ",") {
		if i != 0 {
			l = append(l, unhex(x))
		}
	}
	return l
}

type farConn struct {
	f    *far
	id   string
	in   []byte
	eof  bool
	dead bool
	shut bool
	gone bool // the other side cannot receive any more
}

func (c *farConn) Read(p []byte) (n int, err error) {
	c.f.v.Wait(func() bool {
		switch {
		case c.shut:
			err = errLocal
		case len(c.in) != 0:
			n = copy(p, c.in)
			c.in = c.in[n:]
		case c.dead:
			err = errReset
		case c.eof:
			err = io.EOF
		default:
			return false
		}
		return true
	})
	return n, err
}

func (c *farConn) Write(p []byte) (n int, err error) {
	c.f.v.Do(func() {
		switch {
		case c.shut:
			err = errLocal
		case c.dead:
			err = errReset
		case c.gone:
			err = io.ErrClosedPipe
		default:
			n = len(p)
			if n != 0 {
				c.f.out = append(c.f.out, "o "+c.id+" "+hex.EncodeToString(p))
			}
		}
	})
	return n, err
}

func (c *farConn) Close() error {
	c.f.v.Do(func() {
		if !c.shut {
			c.shut = true
			c.f.out = append(c.f.out, "c "+c.id)
		}
	})
	return nil
}

func (f *far) session(first string) {
	f.arg = map[string]string{}
	for _, kv := range strings.Fields(first) {
		k, v, _ := strings.Cut(kv, "=")
		f.arg[k] = v
	}
	mux := srpc.NewMux()
	_ = echo.SRPCRegisterEchoer(mux, &farEcho{f, ""})
	inner := srpc.NewMux()
	_ = echo.SRPCRegisterEchoer(inner, &farEcho{f, "inner"})
	f.srv = srpc.NewServer(mux)
	f.cl = srpc.NewClient(func(ctx context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
		var c *farConn
		f.v.Do(func() {
			c = &farConn{f: f, id: fmt.Sprint("g", f.nconn)}
			f.nconn++
			f.conns[c.id] = c
			f.out = append(f.out, "n "+c.id)
		})
		prw := srpc.NewPacketReadWriter(c)
		f.t.Go("client.ReadPump", func() { prw.ReadPump(msgHandler, closeHandler) })
		return prw, nil
	})
	for {
		f.t.Idle()
		var out []string
		f.v.Do(func() { out, f.out = f.out, nil })
		f.w.write(strings.Join(append(out, ".\n"), "\n"))
		l, ok := f.r.line()
		if !ok {
			os.Exit(0)
		}
		a := strings.Fields(l)
		for len(a) < 3 {
			a = append(a, "")
		}
		switch a[0] {
		case "conn":
			c := &farConn{f: f, id: a[1]}
			f.conns[a[1]] = c
			f.t.Go("server.HandleStream "+a[1], func() { f.srv.HandleStream(context.Background(), c) })
		case "in":
			c := f.conns[a[1]]
			f.v.Do(func() { c.in = append(c.in, unhex(a[2])...) })
		case "eof":
			c := f.conns[a[1]]
			f.v.Do(func() { c.eof, c.gone = true, a[2] == "both" })
		case "fail":
			c := f.conns[a[1]]
			f.v.Do(func() { c.dead, c.in = true, nil })
		case "go":
			f.v.Do(func() { f.open[a[1]]++ })
		case "call":
			c := &farCall{f: f, id: a[1]}
			c.ctx, c.cancel = context.WithCancel(context.Background())
			f.calls[a[1]] = c
			f.t.Go("call "+a[1], func() { c.run(a[2], list(a[3]), a[4:]) })
		case "cancel":
			f.calls[a[1]].cancel()
		case "close":
			c := f.calls[a[1]]
			f.t.Go("close", func() {
				var s srpc.Stream
				f.v.Do(func() { s = c.strm })
				if s != nil {
					_ = s.Close()
				}
			})
		case "end":
			f.v.Do(func() { f.out = nil })
			for _, c := range f.calls {
				c.cancel()
			}
			return
		default:
			panic("unknown command " + l)
		}
	}
}

// farEcho is the service: it does what the session's arguments say.
type farEcho struct {
	f  *far
	at string
}

func (s *farEcho) done(err error) error {
	e := "ok"
	if err != nil {
		e = err.Error()
	}
	s.f.log("end", e)
	return err
}

// drain reads the requests; limit says how many at most.
func (s *farEcho) drain(recv func() (*echo.EchoMsg, error)) error {
	n := 0
	for {
		if l := s.f.arg["read"]; l != "" && fmt.Sprint(n) == l {
			return nil
		}
		m, err := recv()
		if err == io.EOF {
			s.f.log("reqend", "")
			return nil
		}
		if err != nil {
			s.f.log("reqerr", err.Error())
			return err
		}
		n++
		s.f.log("req", m.GetBody())
	}
}

// answers sends the answers one by one and returns the error of the handler.
func (s *farEcho) answers(ctx context.Context, send func(*echo.EchoMsg) error) error {
	for i, b := range list(s.f.arg["outs"]) {
		s.f.gate(fmt.Sprint("answer", i))
		if err := send(&echo.EchoMsg{Body: b}); err != nil {
			return err
		}
	}
	return s.finish(ctx)
}

func (s *farEcho) finish(ctx context.Context) error {
	if s.f.arg["wait"] != "" {
		<-ctx.Done()
		return ctx.Err()
	}
	if e := s.f.arg["fail"]; e != "" {
		return errors.New(unhex(e))
	}
	return nil
}

func (s *farEcho) one() *echo.EchoMsg {
	l := list(s.f.arg["outs"])
	if len(l) == 0 {
		return &echo.EchoMsg{}
	}
	return &echo.EchoMsg{Body: l[0]}
}

func (s *farEcho) Echo(ctx context.Context, m *echo.EchoMsg) (*echo.EchoMsg, error) {
	s.f.log("start", s.at+"Echo")
	s.f.log("req", m.GetBody())
	s.f.log("reqend", "")
	s.f.gate("work")
	if err := s.finish(ctx); err != nil {
		return nil, s.done(err)
	}
	_ = s.done(nil)
	return s.one(), nil
}

func (s *farEcho) EchoServerStream(m *echo.EchoMsg, strm echo.SRPCEchoer_EchoServerStreamStream) error {
	s.f.log("start", s.at+"EchoServerStream")
	s.f.log("req", m.GetBody())
	s.f.log("reqend", "")
	return s.done(s.answers(strm.Context(), strm.Send))
}

func (s *farEcho) EchoClientStream(strm echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	s.f.log("start", s.at+"EchoClientStream")
	if err := s.drain(strm.Recv); err != nil {
		return nil, s.done(err)
	}
	s.f.gate("work")
	if err := s.finish(strm.Context()); err != nil {
		return nil, s.done(err)
	}
	_ = s.done(nil)
	return s.one(), nil
}

func (s *farEcho) EchoBidiStream(strm echo.SRPCEchoer_EchoBidiStreamStream) error {
	s.f.log("start", s.at+"EchoBidiStream")
	switch s.f.arg["bidi"] {
	case "first":
		// answers first, then reads
		for i, b := range list(s.f.arg["outs"]) {
			s.f.gate(fmt.Sprint("answer", i))
			if err := strm.Send(&echo.EchoMsg{Body: b}); err != nil {
				return s.done(err)
			}
		}
		if err := s.drain(strm.Recv); err != nil {
			return s.done(err)
		}
		return s.done(s.finish(strm.Context()))
	case "echo":
		// every request is an answer
		err := s.drain(func() (*echo.EchoMsg, error) {
			m, err := strm.Recv()
			if err == nil {
				err = strm.Send(m)
			}
			return m, err
		})
		if err == nil {
			err = s.finish(strm.Context())
		}
		return s.done(err)
	}
	if err := s.drain(strm.Recv); err != nil {
		return s.done(err)
	}
	return s.done(s.answers(strm.Context(), strm.Send))
}

func (s *farEcho) RpcStream(strm echo.SRPCEchoer_RpcStreamStream) error {
	s.f.log("start", s.at+"RpcStream")
	if s.f.arg["proxy"] != "" {
		return s.proxy(strm)
	}
	err := rpcstream.HandleRpcStream(strm, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		s.f.log("component", id)
		switch id {
		case "gone":
			return nil, nil, nil
		case "bad":
			return nil, nil, errors.New("bad component")
		}
		m := srpc.NewMux()
		_ = echo.SRPCRegisterEchoer(m, &farEcho{s.f, "inner"})
		return m, func() { s.f.log("released", id) }, nil
	})
	e := "ok"
	if err != nil {
		e = err.Error()
	}
	s.f.log("outerend", e)
	return err
}

func (s *farEcho) DoNothing(context.Context, *emptypb.Empty) (*emptypb.Empty, error) {
	s.f.log("start", s.at+"DoNothing")
	return &emptypb.Empty{}, s.done(nil)
}

// farCall is one call made from here.
type farCall struct {
	f      *far
	id     string
	ctx    context.Context
	cancel context.CancelFunc
	strm   srpc.Stream
}

func (c *farCall) got(m *echo.EchoMsg) { c.f.log(c.id+".got", m.GetBody()) }

func (c *farCall) end(err error) {
	e := ""
	if err != nil && err != io.EOF {
		e = err.Error()
		if errors.Is(err, context.Canceled) {
			e = "context canceled"
		}
	}
	c.f.log(c.id+".done", e)
}

// run makes a call: kind, requests, options.
func (c *farCall) run(kind string, ins []string, opts []string) {
	has := func(o string) bool {
		for _, x := range opts {
			if x == o {
				return true
			}
		}
		return false
	}
	cl := c.f.cl
	if has("nested") || has("acked") {
		outer := echo.NewSRPCEchoerClient(cl)
		comp := "comp"
		for _, x := range opts {
			if v, ok := strings.CutPrefix(x, "comp="); ok {
				comp = v
			}
		}
		cl = rpcstream.NewRpcStreamClient(func(ctx context.Context) (echo.SRPCEchoer_RpcStreamClient, error) {
			return outer.RpcStream(ctx)
		}, comp, has("acked"))
	}
	ec := echo.NewSRPCEchoerClient(cl)
	for _, x := range opts {
		if v, ok := strings.CutPrefix(x, "service="); ok {
			ec = echo.NewSRPCEchoerClientWithServiceID(cl, v)
		}
	}
	defer c.cancel()
	set := func(s srpc.Stream) { c.f.v.Do(func() { c.strm = s }) }
	send := func(s func(*echo.EchoMsg) error) error {
		for i, b := range ins {
			c.f.gate(fmt.Sprint(c.id, ".in", i))
			if err := s(&echo.EchoMsg{Body: b}); err != nil {
				return err
			}
		}
		c.f.gate(c.id + ".inend")
		return nil
	}
	recv := func(r func() (*echo.EchoMsg, error)) {
		for {
			m, err := r()
			if err != nil {
				c.end(err)
				return
			}
			c.got(m)
		}
	}
	switch kind {
	case "Unary":
		m, err := ec.Echo(c.ctx, &echo.EchoMsg{Body: ins[0]})
		if err == nil {
			c.got(m)
		}
		c.end(err)
	case "Server":
		s, err := ec.EchoServerStream(c.ctx, &echo.EchoMsg{Body: ins[0]})
		if err != nil {
			c.end(err)
			return
		}
		set(s)
		recv(s.Recv)
		_ = s.Close()
	case "Client":
		s, err := ec.EchoClientStream(c.ctx)
		if err != nil {
			c.end(err)
			return
		}
		set(s)
		if err := send(s.Send); err != nil {
			c.f.log(c.id+".senderr", err.Error())
			if c.ctx.Err() != nil {
				c.end(err)
				_ = s.Close()
				return
			}
			// the handler is done: the answer says how the call ended
		}
		m, err := s.CloseAndRecv()
		if err == nil {
			c.got(m)
		}
		c.end(err)
		_ = s.Close()
	case "Bidi":
		s, err := ec.EchoBidiStream(c.ctx)
		if err != nil {
			c.end(err)
			return
		}
		set(s)
		c.f.t.Go("sender "+c.id, func() {
			err := send(s.Send)
			if err == nil {
				err = s.CloseSend()
			}
			if err != nil {
				c.f.log(c.id+".senderr", err.Error())
			}
		})
		recv(s.Recv)
		_ = s.Close()
	case "Nothing":
		_, err := ec.DoNothing(c.ctx, &emptypb.Empty{})
		c.end(err)
	}
}

// proxy passes the nested stream on to the component "target" of the other end.
func (s *farEcho) proxy(strm echo.SRPCEchoer_RpcStreamStream) error {
	out := echo.NewSRPCEchoerClient(s.f.cl)
	err := rpcstream.HandleProxyRpcStream(strm, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[echo.SRPCEchoer_RpcStreamClient], string, func(), error) {
		s.f.log("component", id)
		return func(ctx context.Context) (echo.SRPCEchoer_RpcStreamClient, error) {
			return out.RpcStream(ctx)
		}, "target", func() { s.f.log("released", id) }, nil
	})
	return s.done(err)
}
