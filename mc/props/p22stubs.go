package props

import (
	"context"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/gensup"
	"verifmc/mc"
)

// The repository's own stubs in the form in which P22 drives generated services.

func emsg(x string) *echo.EchoMsg { return &echo.EchoMsg{Body: x} }

func rpmsg(x string) *rpcstream.RpcStreamPacket {
	return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: []byte(x)}}
}

// sendFns are the sending methods of a stream of messages M.
func sendFns[M any](s *gensup.Strm, mk func(string) M, raw any) *gensup.Strm {
	x := raw.(interface{ Send(M) error })
	s.Send = func(b string) error { return x.Send(mk(b)) }
	var none M
	s.SendNil = func() error { return x.Send(none) }
	if y, ok := raw.(interface{ SendAndClose(M) error }); ok {
		s.SendAndClose = func(b string) error { return y.SendAndClose(mk(b)) }
		s.SendAndCloseNil = func() error { return y.SendAndClose(none) }
	}
	return s
}

// recvFns are the receiving methods of a stream of messages M.
func recvFns[M any](s *gensup.Strm, mk func() M, str func(M) string, raw any) *gensup.Strm {
	x := raw.(interface {
		Recv() (M, error)
		RecvTo(M) error
	})
	s.Recv = func() (string, error) {
		m, err := x.Recv()
		if err != nil {
			return "", err
		}
		return str(m), nil
	}
	s.RecvTo = func() (string, error) {
		m := mk()
		err := x.RecvTo(m)
		return str(m), err
	}
	return s
}

func estr(m *echo.EchoMsg) string { return m.GetBody() }
func enew() *echo.EchoMsg         { return new(echo.EchoMsg) }

func rstr(m *rpcstream.RpcStreamPacket) string { return string(m.GetData()) }
func rnew() *rpcstream.RpcStreamPacket         { return new(rpcstream.RpcStreamPacket) }

type echoImpl struct{ i gensup.Impl }

var _ echo.SRPCEchoerServer = (*echoImpl)(nil)

func (h *echoImpl) Echo(ctx context.Context, in *echo.EchoMsg) (*echo.EchoMsg, error) {
	x, err := h.i.Unary(ctx, "echo.Echoer.Echo", in.GetBody())
	if err != nil || x == "nil" {
		return nil, err
	}
	return emsg(x), nil
}

func (h *echoImpl) EchoServerStream(in *echo.EchoMsg, s echo.SRPCEchoer_EchoServerStreamStream) error {
	return h.i.ServerStream("echo.Echoer.EchoServerStream", in.GetBody(), sendFns(&gensup.Strm{Stream: s}, emsg, s))
}

func (h *echoImpl) EchoClientStream(s echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	x, err := h.i.ClientStream("echo.Echoer.EchoClientStream", recvFns(&gensup.Strm{Stream: s}, enew, estr, s))
	if err != nil || x == "nil" {
		return nil, err
	}
	return emsg(x), nil
}

func (h *echoImpl) EchoBidiStream(s echo.SRPCEchoer_EchoBidiStreamStream) error {
	return h.i.Bidi("echo.Echoer.EchoBidiStream", recvFns(sendFns(&gensup.Strm{Stream: s}, emsg, s), enew, estr, s))
}

func (h *echoImpl) RpcStream(s echo.SRPCEchoer_RpcStreamStream) error {
	return h.i.Bidi("echo.Echoer.RpcStream", recvFns(sendFns(&gensup.Strm{Stream: s}, rpmsg, s), rnew, rstr, s))
}

func (h *echoImpl) DoNothing(context.Context, *emptypb.Empty) (*emptypb.Empty, error) {
	return &emptypb.Empty{}, nil
}

type mockImpl struct{ i gensup.Impl }

func (h *mockImpl) MockRequest(ctx context.Context, in *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
	x, err := h.i.Unary(ctx, "e2e.mock.Mock.MockRequest", in.GetBody())
	if err != nil || x == "nil" {
		return nil, err
	}
	return &e2e_mock.MockMsg{Body: x}, nil
}

var stubServices = []gensup.Service{
	{
		Name: "echo.Echoer", ConstID: echo.SRPCEchoerServiceID,
		New:       func(cl srpc.Client) any { return echo.NewSRPCEchoerClient(cl) },
		NewWithID: func(cl srpc.Client, id string) any { return echo.NewSRPCEchoerClientWithServiceID(cl, id) },
		Handler:   func(i gensup.Impl, id string) srpc.Handler { return echo.NewSRPCEchoerHandler(&echoImpl{i}, id) },
		Register:  func(mux srpc.Mux, i gensup.Impl) error { return echo.SRPCRegisterEchoer(mux, &echoImpl{i}) },
		Client:    func(c any) srpc.Client { return c.(echo.SRPCEchoerClient).SRPCClient() },
		Methods: []gensup.Method{
			{Name: "Echo", Kind: gensup.Unary, Call: func(ctx context.Context, c any, in string) (string, error) {
				m, err := c.(echo.SRPCEchoerClient).Echo(ctx, emsg(in))
				if err != nil {
					return "", err
				}
				return m.GetBody(), nil
			}},
			{Name: "EchoServerStream", Kind: gensup.ServerStream, Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) {
				s, err := c.(echo.SRPCEchoerClient).EchoServerStream(ctx, emsg(in))
				if err != nil {
					return nil, err
				}
				return recvFns(&gensup.Strm{Stream: s}, enew, estr, s), nil
			}},
			{Name: "EchoClientStream", Kind: gensup.ClientStream, Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) {
				s, err := c.(echo.SRPCEchoerClient).EchoClientStream(ctx)
				if err != nil {
					return nil, err
				}
				g := sendFns(&gensup.Strm{Stream: s}, emsg, s)
				g.CloseAndRecv = func() (string, error) {
					m, err := s.CloseAndRecv()
					if err != nil {
						return "", err
					}
					return m.GetBody(), nil
				}
				g.CloseAndMsgRecv = func() (string, error) {
					x, ok := s.(interface{ CloseAndMsgRecv(*echo.EchoMsg) error })
					if !ok {
						return g.CloseAndRecv() // not part of the interface
					}
					m := enew()
					err := x.CloseAndMsgRecv(m)
					return m.GetBody(), err
				}
				return g, nil
			}},
			{Name: "EchoBidiStream", Kind: gensup.Bidi, Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) {
				s, err := c.(echo.SRPCEchoerClient).EchoBidiStream(ctx)
				if err != nil {
					return nil, err
				}
				return recvFns(sendFns(&gensup.Strm{Stream: s}, emsg, s), enew, estr, s), nil
			}},
			{Name: "RpcStream", Kind: gensup.Bidi, Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) {
				s, err := c.(echo.SRPCEchoerClient).RpcStream(ctx)
				if err != nil {
					return nil, err
				}
				return recvFns(sendFns(&gensup.Strm{Stream: s}, rpmsg, s), rnew, rstr, s), nil
			}},
		},
	},
	{
		Name: "e2e.mock.Mock", ConstID: e2e_mock.SRPCMockServiceID,
		New:       func(cl srpc.Client) any { return e2e_mock.NewSRPCMockClient(cl) },
		NewWithID: func(cl srpc.Client, id string) any { return e2e_mock.NewSRPCMockClientWithServiceID(cl, id) },
		Handler:   func(i gensup.Impl, id string) srpc.Handler { return e2e_mock.NewSRPCMockHandler(&mockImpl{i}, id) },
		Register:  func(mux srpc.Mux, i gensup.Impl) error { return e2e_mock.SRPCRegisterMock(mux, &mockImpl{i}) },
		Client:    func(c any) srpc.Client { return c.(e2e_mock.SRPCMockClient).SRPCClient() },
		Methods: []gensup.Method{
			{Name: "MockRequest", Kind: gensup.Unary, Call: func(ctx context.Context, c any, in string) (string, error) {
				m, err := c.(e2e_mock.SRPCMockClient).MockRequest(ctx, &e2e_mock.MockMsg{Body: in})
				if err != nil {
					return "", err
				}
				return m.GetBody(), nil
			}},
		},
	},
}

func init() {
	for _, tr := range transports[:3] {
		q := 1
		if tr.name != "conn" {
			q = 0
		}
		reg(&mc.Scenario{Prop: "P22", Name: "stubs-" + tr.name, Quick: q, Thorough: q + 1, Weight: 2,
			Doc:  "every method of the repository's own echo and mock stubs with a chosen implementation (every program of sends, answers and failures), under default, overridden and unknown service IDs, over " + tr.name,
			Main: func(t *mc.T) { p22gen(t, tr, stubServices, stubServices) }})
	}
}
