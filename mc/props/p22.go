package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/gensup"
	"verifmc/mc"
)

// genServices is set in the build that contains the generated services.
var genServices []gensup.Service

var errImpl = errors.New("the implementation failed")

// impl22 is the implementation behind generated servers. Its answers say who was called
// with what.
type impl22 struct {
	t    *mc.T
	tag  string
	plan *plan22
}

// plan22 is what one call does.
type plan22 struct {
	sends  []string // client to server; "nil" is a nil message
	answer []string // what a streaming server sends
	last   int      // how a streaming server sends the last one: 0 Send, 1 SendAndClose, 2 Send then SendAndClose(nil), 3 MsgSend of the embedded stream
	recvTo bool
	early  bool // the implementation does not receive
	fail   bool
	none   bool // the answer is a nil message
	calls  []string
}

func (p *plan22) err() error {
	if p.fail {
		return errImpl
	}
	return nil
}

func (i *impl22) called(name, in string) {
	mc.Quiet(func() { i.plan.calls = append(i.plan.calls, i.tag+" "+name+"("+in+")") })
}

func (i *impl22) Unary(ctx context.Context, name, in string) (string, error) {
	i.called(name, in)
	if ctx == nil || ctx.Err() != nil {
		i.t.Failf("%s: no live context", name)
	}
	return i.one(name + ":" + in), i.plan.err()
}

// one is the single answer.
func (i *impl22) one(x string) string {
	if i.plan.none {
		return "nil"
	}
	return x
}

func (i *impl22) recvs(s *gensup.Strm) ([]string, error) {
	var got []string
	if i.plan.early {
		return nil, nil
	}
	for {
		f := s.Recv
		if i.plan.recvTo {
			f = s.RecvTo
		}
		x, err := f()
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, err
		}
		got = append(got, x)
	}
}

func (i *impl22) answer(name string, s *gensup.Strm) error {
	for k, x := range i.plan.answer {
		if k == len(i.plan.answer)-1 && i.plan.last == 1 {
			if err := s.SendAndClose(x); err != nil {
				return err
			}
			continue
		}
		if err := s.Send(x); err != nil {
			return err
		}
	}
	if i.plan.last == 2 {
		if err := s.SendAndCloseNil(); err != nil {
			return err
		}
	}
	return i.plan.err()
}

func (i *impl22) ServerStream(name, in string, s *gensup.Strm) error {
	i.called(name, in)
	return i.answer(name, s)
}

func (i *impl22) ClientStream(name string, s *gensup.Strm) (string, error) {
	got, err := i.recvs(s)
	i.called(name, strings.Join(got, ","))
	if err != nil {
		return "", err
	}
	return i.one(name + ":" + strings.Join(got, ",")), i.plan.err()
}

func (i *impl22) Bidi(name string, s *gensup.Strm) error {
	got, err := i.recvs(s)
	i.called(name, strings.Join(got, ","))
	if err != nil {
		return err
	}
	return i.answer(name, s)
}

// p22gen calls one method of one generated service.
func p22gen(t *mc.T, tr transport, all, svcs []gensup.Service) {
	var withMethods []gensup.Service
	for _, s := range svcs {
		if len(s.Methods) != 0 {
			withMethods = append(withMethods, s)
		}
	}
	s := withMethods[t.Choose(len(withMethods))]
	m := s.Methods[t.Choose(len(s.Methods))]
	id := t.Choose(5) // default, default through the other constructor, overridden, overridden on the client only, handler asked without service
	p := &plan22{fail: t.Bool()}
	// the messages of verif.local are no real ones
	if m.Kind&gensup.ServerStream == 0 && !p.fail && id < 3 && !strings.HasPrefix(s.Name, "verif.local.") {
		p.none = t.Bool()
	}
	if m.Kind&gensup.ClientStream != 0 {
		p.sends = [][]string{nil, {"a"}, {"a", "", "b"}, {"nil", "a", "nil"}}[t.Choose(4)]
		if id != 4 {
			p.recvTo, p.early = t.Bool(), t.Bool()
		}
	}
	if m.Kind&gensup.ServerStream != 0 {
		p.answer = [][]string{nil, {"x"}, {"x", "", "y"}}[t.Choose(3)]
		if id != 4 {
			p.last = t.Choose(3)
		}
		if p.last == 1 && len(p.answer) == 0 {
			p.last = 2
		}
	}
	mux := srpc.NewMux()
	handlers := 0
	mc.Quiet(func() {
		for _, x := range all {
			if err := x.Register(mux, &impl22{t, "default", p}); err != nil {
				t.Failf("%s: register: %v", x.Name, err)
			}
			handlers++
		}
		if err := mux.Register(s.Handler(&impl22{t, "other", p}, "other.id")); err != nil {
			t.Failf("%s: register: %v", s.Name, err)
		}
	})
	var inv srpc.Invoker = mux
	if id == 4 {
		h := s.Handler(&impl22{t, "default", p}, "some.id")
		inv = srpc.InvokerFunc(func(_, m string, strm srpc.Stream) (bool, error) { return h.InvokeMethod("", m, strm) })
	}
	cl, done := tr.make(t, inv)
	var c any
	tag := "default"
	switch id {
	case 0, 4:
		c = s.New(cl)
	case 1:
		c = s.NewWithID(cl, "")
	case 2:
		c, tag = s.NewWithID(cl, "other.id"), "other"
	case 3:
		c, tag = s.NewWithID(cl, "no.such.id"), ""
	}
	name := s.Name + "." + m.Name
	what := fmt.Sprintf("%s (%d) %+v", name, id, *p)
	if s.Client(c) != cl {
		t.Failf("%s: SRPCClient returns another client", what)
	}
	var sent []string
	for _, x := range p.sends {
		if x != "nil" {
			sent = append(sent, x)
		}
	}
	var got []string
	var err error
	var one string
	t.Go("client", func() {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		if m.Kind == gensup.Unary {
			one, err = m.Call(ctx, c, "in")
			return
		}
		var st *gensup.Strm
		if st, err = m.Open(ctx, c, "in"); err != nil {
			return
		}
		for _, x := range p.sends {
			var e error
			if x == "nil" {
				e = st.SendNil()
			} else {
				e = st.Send(x)
			}
			if e != nil && !p.early && tag != "" {
				t.Failf("%s: send: %v", what, e)
			}
		}
		if m.Kind == gensup.ClientStream {
			f := st.CloseAndRecv
			if p.recvTo {
				f = st.CloseAndMsgRecv
			}
			one, err = f()
			return
		}
		if m.Kind == gensup.Bidi {
			if e := st.CloseSend(); e != nil && !p.early && tag != "" {
				t.Failf("%s: CloseSend: %v", what, e)
			}
		}
		for {
			f := st.Recv
			if p.recvTo {
				f = st.RecvTo
			}
			var x string
			if x, err = f(); err != nil {
				break
			}
			got = append(got, x)
		}
		_ = st.Close()
	})
	finish22(t, what, done)
	in := "in"
	if m.Kind&gensup.ClientStream != 0 {
		in = strings.Join(sent, ",")
		if p.early {
			in = ""
		}
	}
	switch {
	case tag == "":
		if len(p.calls) != 0 {
			t.Failf("%s: unknown service, called %v", what, p.calls)
		}
		if err == nil || err == io.EOF {
			t.Failf("%s: unknown service, got %q %v", what, got, err)
		}
	case len(p.calls) != 1 || p.calls[0] != tag+" "+name+"("+in+")":
		t.Failf("%s: called %v, want one call to %s with %q", what, p.calls, tag, in)
	case m.Kind&gensup.ServerStream == 0:
		want := name + ":" + in
		if p.none {
			want = ""
		}
		if p.fail && (err == nil || err.Error() != errImpl.Error()) || !p.fail && (err != nil || one != want) {
			t.Failf("%s: returned %q, %v", what, one, err)
		}
	default:
		// closing the sending side ends the stream for the client
		want := io.EOF.Error()
		if p.fail && p.last == 0 {
			want = errImpl.Error()
		}
		if show(got) != show(p.answer) || err == nil || err.Error() != want {
			t.Failf("%s: received %s then %v, want %s then %s", what, show(got), err, show(p.answer), want)
		}
	}
	t.Outcome("%d %d %d %v", m.Kind, id, len(got), errStr(err))
}

// finish22 requires the calls to be over and closes the transport.
func finish22(t *mc.T, what string, done func()) {
	time.Sleep(10 * time.Second) // virtual time
	for _, g := range t.Pending() {
		if g != "server.AcceptMuxedConn" {
			t.Failf("%s: %s is blocked", what, g)
		}
	}
	done()
	t.MustFinish(what)
}

// lookup22 checks the handlers of all generated services without a connection.
func lookup22(t *mc.T) {
	mc.Quiet(func() {
		a, b := srpc.NewPipeStream(bg)
		_ = b.Close()
		defer a.Close()
		for _, s := range genServices {
			for _, id := range []string{"", "other"} {
				p := &plan22{early: true}
				h := s.Handler(&impl22{t, "x", p}, id)
				want := id
				if id == "" {
					want = s.Name
				}
				if s.ConstID != s.Name || h.GetServiceID() != want {
					t.Failf("%s: service ID constant %q, handler %q, want %q", s.Name, s.ConstID, h.GetServiceID(), want)
				}
				var names []string
				for _, m := range s.Methods {
					names = append(names, m.Name)
				}
				if !slices.Equal(h.GetMethodIDs(), names) {
					t.Failf("%s: method IDs %v, want %v", s.Name, h.GetMethodIDs(), names)
				}
				for _, svc := range []string{want, "", "nope", strings.ToLower(want) + "x", s.Name} {
					for _, mth := range append([]string{"", "Nope", "first", "FirstSecond"}, names...) {
						mc.Case()
						known := slices.Contains(names, mth) && (svc == "" || svc == want)
						p.calls = nil
						if known {
							continue // called in the other scenarios
						}
						ok, err := h.InvokeMethod(svc, mth, a)
						if ok || err != nil || len(p.calls) != 0 {
							t.Failf("%s (as %q): InvokeMethod(%q, %q) = %v, %v, called %v; want not found", s.Name, want, svc, mth, ok, err, p.calls)
						}
					}
				}
			}
		}
	})
	t.Outcome("%d services", len(genServices))
}

func init() {
	reg(&mc.Scenario{Prop: "P22", Name: "generated-pipe", Gen: true, Quick: 0, Thorough: 1, Weight: 2,
		Doc: "every method of every service generated from 90 service definitions (all pairs and triples of kinds, all kinds with all pairs of types, names with underscores, local and nested messages, no package, several files) under default, overridden and unknown service IDs, with every program of sends, answers and failures",
		Main: func(t *mc.T) {
			p22gen(t, transports[0], genServices, genServices)
		}})
	reg(&mc.Scenario{Prop: "P22", Name: "generated-conn", Gen: true, Quick: 1, Thorough: 2, Weight: 2,
		Doc: "the service with all pairs of kinds and types over a byte connection with schedules",
		Main: func(t *mc.T) {
			var l []gensup.Service
			for _, s := range genServices {
				if s.Name == "verif.names.A" {
					l = append(l, s)
				}
			}
			p22gen(t, transports[1], genServices, l)
		}})
	reg(&mc.Scenario{Prop: "P22", Name: "generated-lookup", Gen: true, Quick: 0, Thorough: 0,
		Doc:  "service IDs, method IDs and unknown services and methods of every generated handler",
		Main: lookup22})
}

// stubLookup checks the handlers of the repository's own stubs without a connection.
func stubLookup(t *mc.T) {
	a, b := srpc.NewPipeStream(bg)
	_ = b.Close()
	defer a.Close()
	for _, id := range []string{"", "other", "echo.Echoer", "mock.Mock", "e2e.mock.Mock"} {
		for i, h := range []srpc.Handler{echo.NewSRPCEchoerHandler(nil, id), e2e_mock.NewSRPCMockHandler(nil, id)} {
			def := []string{echo.SRPCEchoerServiceID, e2e_mock.SRPCMockServiceID}[i]
			if d := []string{"echo.Echoer", "e2e.mock.Mock"}[i]; def != d {
				t.Failf("the service ID is %q, want %q", def, d)
			}
			names := [][]string{{"Echo", "EchoServerStream", "EchoClientStream", "EchoBidiStream", "RpcStream", "DoNothing"}, {"MockRequest"}}[i]
			want := id
			if id == "" {
				want = def
			}
			if h.GetServiceID() != want || !slices.Equal(h.GetMethodIDs(), names) {
				t.Failf("handler of %s as %q: service %q, methods %v", def, id, h.GetServiceID(), h.GetMethodIDs())
			}
			for _, svc := range []string{want, "", "nope", strings.ToLower(want) + "x", "other", "echo.Echoer", "e2e.mock.Mock"} {
				for _, mth := range append([]string{"", "Nope", "echo", "mockRequest"}, names...) {
					mc.Case()
					if slices.Contains(names, mth) && (svc == "" || svc == want) {
						continue // called in the other scenarios
					}
					guard(t, fmt.Sprintf("handler of %s as %q, asked for %q %q,", def, id, svc, mth), func() {
						if ok, err := h.InvokeMethod(svc, mth, a); ok || err != nil {
							t.Failf("handler of %s as %q, asked for %q %q: %v %v, want not found", def, id, svc, mth, ok, err)
						}
					})
				}
			}
		}
	}
	t.Outcome("ok")
}

// echo22 is a chosen call of the repository's own generated stubs.
func echo22(t *mc.T, tr transport, depth int) {
	id := []string{"", "echo.Echoer", "other.echo"}[t.Choose(3)]
	mux, nested := srpc.NewMux(), srpc.NewMux()
	es := echo.NewEchoServer(nested)
	mk := func(cl srpc.Client) echo.SRPCEchoerClient { return echo.NewSRPCEchoerClientWithServiceID(cl, id) }
	if id == "" {
		if t.Bool() {
			mk = echo.NewSRPCEchoerClient
		}
		if err := es.Register(mux); err != nil {
			t.Failf("register: %v", err)
		}
	} else if err := mux.Register(echo.NewSRPCEchoerHandler(es, id)); err != nil {
		t.Failf("register: %v", err)
	}
	_ = echo.NewEchoServer(nil).Register(nested)
	rcl, done := tr.make(t, mux)
	cl := mk(rcl)
	if cl.SRPCClient() != rcl {
		t.Failf("SRPCClient returns another client")
	}
	calls := 1 + t.Choose(depth)
	for i := 0; i < calls; i++ {
		k, to := t.Choose(6), false
		what := []string{"Echo", "EchoServerStream", "EchoClientStream", "EchoBidiStream", "RpcStream", "DoNothing"}[k]
		if k >= 1 && k <= 3 && i == 0 {
			to = t.Bool()
		}
		body := fmt.Sprintf("body-%d", i)
		t.Go(what, func() {
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			fail := func(f string, a ...any) { t.Failf("%s over %q: %s", what, id, fmt.Sprintf(f, a...)) }
			call := func(c echo.SRPCEchoerClient) {
				if m, err := c.Echo(ctx, &echo.EchoMsg{Body: body}); err != nil || m.GetBody() != body {
					fail("%v %v", m, err)
				}
			}
			switch k {
			case 0:
				call(cl)
			case 1:
				s, err := cl.EchoServerStream(ctx, &echo.EchoMsg{Body: body})
				if err != nil {
					fail("%v", err)
					return
				}
				n := 0
				for {
					var m *echo.EchoMsg
					if to {
						m = new(echo.EchoMsg)
						err = s.RecvTo(m)
					} else {
						m, err = s.Recv()
					}
					if err == io.EOF {
						break
					}
					if err != nil || m.GetBody() != body {
						fail("message %d is %v %v", n, m, err)
						break
					}
					n++
				}
				if n != 5 {
					fail("%d messages", n)
				}
			case 2:
				s, err := cl.EchoClientStream(ctx)
				if err != nil {
					fail("%v", err)
					return
				}
				if err := s.Send(&echo.EchoMsg{Body: body}); err != nil {
					fail("send: %v", err)
				}
				m := new(echo.EchoMsg)
				if to {
					err = s.(interface{ CloseAndMsgRecv(*echo.EchoMsg) error }).CloseAndMsgRecv(m)
				} else {
					m, err = s.CloseAndRecv()
				}
				if err != nil || m.GetBody() != body {
					fail("%v %v", m, err)
				}
			case 3:
				s, err := cl.EchoBidiStream(ctx)
				if err != nil {
					fail("%v", err)
					return
				}
				for j, want := range []string{"hello from server", body, body + "'"} {
					if j > 0 {
						if err := s.Send(&echo.EchoMsg{Body: want}); err != nil {
							fail("send: %v", err)
						}
					}
					m := new(echo.EchoMsg)
					if to {
						err = s.RecvTo(m)
					} else {
						m, err = s.Recv()
					}
					if err != nil || m.GetBody() != want {
						fail("message %d is %v %v", j, m, err)
					}
				}
				if err := s.CloseSend(); err != nil {
					fail("CloseSend: %v", err)
				}
				if _, err := s.Recv(); err != io.EOF {
					fail("ended with %v", err)
				}
			case 4:
				sub := echo.NewSRPCEchoerClient(nestedClient(cl))
				call(sub)
			case 5:
				if m, err := cl.DoNothing(ctx, &emptypb.Empty{}); err != nil || m == nil {
					fail("%v %v", m, err)
				}
			}
		})
	}
	t.Outcome("%s %d", id, calls)
	finish22(t, "calls of the generated stubs", done)
}

func init() {
	for _, tr := range transports[:3] {
		q, d := 1, 2
		if tr.name != "conn" {
			q = 0
		}
		reg(&mc.Scenario{Prop: "P22", Name: "echo-" + tr.name, Quick: q, Thorough: q + 1, Weight: 2,
			Doc:  "one or two concurrent calls of any methods of the repository's echo service through its generated stubs, under default and overridden service IDs, over " + tr.name,
			Main: func(t *mc.T) { echo22(t, tr, d) }})
	}
	reg(&mc.Scenario{Prop: "P22", Name: "stub-lookup", Quick: 0, Thorough: 0,
		Doc:  "service IDs, method IDs and unknown services and methods of the echo and mock handlers",
		Main: stubLookup})
	reg(&mc.Scenario{Prop: "P22", Name: "mock", Quick: 2, Thorough: 4,
		Doc: "the mock service through its generated stubs with and without a callback, with answers and errors, under default and overridden service IDs",
		Main: func(t *mc.T) {
			id := []string{"", "x"}[t.Choose(2)]
			k := t.Choose(3)
			ms := &e2e_mock.MockServer{}
			if k != 0 {
				ms.MockRequestCb = func(ctx context.Context, m *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
					if k == 2 {
						return nil, errImpl
					}
					return &e2e_mock.MockMsg{Body: m.GetBody() + "!"}, nil
				}
			}
			mux := srpc.NewMux()
			if id == "" {
				if err := ms.Register(mux); err != nil {
					t.Failf("register: %v", err)
				}
			} else if err := mux.Register(e2e_mock.NewSRPCMockHandler(ms, id)); err != nil {
				t.Failf("register: %v", err)
			}
			cl, done := viaConn(nil)(t, mux)
			m, err := e2e_mock.NewSRPCMockClientWithServiceID(cl, id).MockRequest(bg, &e2e_mock.MockMsg{Body: "b"})
			want := []string{srpc.ErrUnimplemented.Error(), "", errImpl.Error()}[k]
			if want == "" && (err != nil || m.GetBody() != "b!") || want != "" && (err == nil || err.Error() != want) {
				t.Failf("MockRequest %d: %v %v", k, m, err)
			}
			t.Outcome("%d %v", k, errStr(err))
			done()
		}})
}

// nestedClient calls through the RpcStream method of an echo client.
func nestedClient(cl echo.SRPCEchoerClient) srpc.Client {
	return rpcstream.NewRpcStreamClient(cl.RpcStream, "component", false)
}
