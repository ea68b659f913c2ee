// Package gensup is the string-based view of generated services that P22 drives.
package gensup

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
)

// Strm is either end of a generated stream. Operations the end does not have are nil.
type Strm struct {
	srpc.Stream
	Send, SendAndClose       func(string) error
	SendNil, SendAndCloseNil func() error
	Recv, RecvTo             func() (string, error)
	CloseAndRecv             func() (string, error)
	CloseAndMsgRecv          func() (string, error)
}

// Kinds of methods: bit 0 is a streaming client, bit 1 a streaming server.
const (
	Unary = iota
	ClientStream
	ServerStream
	Bidi
)

// Impl is what the generated server calls. Names are "Service.Method" in proto spelling.
type Impl interface {
	Unary(ctx context.Context, name, in string) (string, error)
	ServerStream(name, in string, s *Strm) error
	ClientStream(name string, s *Strm) (string, error)
	Bidi(name string, s *Strm) error
}

// Method is one generated client method.
type Method struct {
	Name string
	Kind int
	Call func(ctx context.Context, c any, in string) (string, error)
	Open func(ctx context.Context, c any, in string) (*Strm, error)
}

// Service is one generated service.
type Service struct {
	Name      string
	ConstID   string
	Methods   []Method
	New       func(cl srpc.Client) any
	NewWithID func(cl srpc.Client, id string) any
	Handler   func(impl Impl, id string) srpc.Handler
	Register  func(mux srpc.Mux, impl Impl) error
	Client    func(c any) srpc.Client
}
