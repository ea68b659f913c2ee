package props

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// errReset is what both ends of a harness connection report after an injected failure.
var errReset = errors.New("connection reset (injected)")

// errLocal is reported by operations on an end closed locally.
var errLocal = errors.New("use of closed connection")

// conn is a buffered duplex byte stream owned by the harness; each operation is atomic.
type conn struct {
	t    *mc.T
	v    mc.Var
	buf  [2][]byte // in flight towards end i
	shut [2]bool   // end i was closed
	nclo [2]int    // times Close was called on end i
	dead error     // injected failure
	ops  int

	// capacity bounds each direction (0: unbounded).
	capacity int
	// failAt makes the failAt-th read or write (1-based, both ends together) fail; 0: never.
	failAt int
	// failErr is the injected error, errReset when nil.
	failErr error
	// failKeep keeps the data already written readable after the failure.
	failKeep bool
	// failEOF makes the failure look like an orderly close by the peer.
	failEOF bool
	// chunk, when set, picks how many of n available bytes a read returns.
	chunk func(n int) int
	// short, when set, picks how many bytes of an n byte write are accepted at once.
	short func(n int) int
	// onOp, when set, is called at every I/O operation with its number (1-based).
	onOp func(n int)
	// failOne makes the failure affect only that one operation.
	failOne bool
	// failed is set once the failure happened.
	failed bool
	// failEnd/failRead say where.
	failEnd  int
	failRead bool
	// expired read deadline per end
	expired [2]bool
}

// end is one end of a conn.
type end struct {
	c *conn
	i int
}

func newConn(t *mc.T) (*conn, *end, *end) {
	c := &conn{t: t}
	return c, &end{c, 0}, &end{c, 1}
}

// fault counts an I/O operation and reports whether it fails.
func (c *conn) fault(i int, read bool) error {
	if c.dead != nil {
		return c.dead
	}
	c.ops++
	if c.onOp != nil {
		c.onOp(c.ops)
	}
	if c.failAt != 0 && c.ops == c.failAt {
		c.failed = true
		c.failEnd, c.failRead = i, read
		if c.failEOF {
			c.shut[1-i] = true
			return nil
		}
		err := c.failErr
		if err == nil {
			err = errReset
		}
		if c.failOne {
			return err
		}
		c.dead = err
		if !c.failKeep {
			c.buf[0], c.buf[1] = nil, nil
		}
		return c.dead
	}
	return nil
}

func (e *end) Read(p []byte) (n int, err error) {
	c := e.c
	first := true
	c.v.Wait(func() bool {
		if c.shut[e.i] {
			err = errLocal
			return true
		}
		if c.expired[e.i] {
			err = os.ErrDeadlineExceeded
			return true
		}
		if len(c.buf[e.i]) != 0 || len(p) == 0 {
			if first {
				first = false
				if c.dead == nil || !c.failKeep {
					if err = c.fault(e.i, true); err != nil {
						return true
					}
				}
			}
			n = len(c.buf[e.i])
			if n > len(p) {
				n = len(p)
			}
			if c.chunk != nil && n > 1 {
				n = c.chunk(n)
			}
			copy(p, c.buf[e.i][:n])
			c.buf[e.i] = c.buf[e.i][n:]
			return true
		}
		if c.dead != nil {
			err = c.dead
			return true
		}
		if c.shut[1-e.i] {
			err = io.EOF
			return true
		}
		return false
	})
	return n, err
}

func (e *end) Write(p []byte) (n int, err error) {
	c := e.c
	counted := false
	for len(p) != 0 && err == nil {
		done := false
		c.v.Wait(func() bool {
			if c.shut[e.i] {
				err = errLocal
				return true
			}
			if !counted {
				counted = true
				if err = c.fault(e.i, false); err != nil {
					return true
				}
			}
			if c.dead != nil {
				err = c.dead
				return true
			}
			if c.shut[1-e.i] {
				err = io.ErrClosedPipe
				return true
			}
			m := len(p)
			if c.capacity != 0 {
				if room := c.capacity - len(c.buf[1-e.i]); room < m {
					m = room
				}
			}
			if m <= 0 {
				return false
			}
			if c.short != nil && m > 1 {
				if k := c.short(m); k < m {
					m = k
					done = true
				}
			}
			c.buf[1-e.i] = append(c.buf[1-e.i], p[:m]...)
			p = p[m:]
			n += m
			return true
		})
		if done {
			return n, err
		}
	}
	return n, err
}

func (e *end) Close() error {
	c := e.c
	c.v.Do(func() {
		c.shut[e.i] = true
		c.nclo[e.i]++
	})
	return nil
}

// released reports whether end i was closed.
func (c *conn) released(i int) (ok bool) {
	mc.Quiet(func() { ok = c.nclo[i] != 0 })
	return ok
}

type addr struct{}

func (addr) Network() string { return "verif" }
func (addr) String() string  { return "verif" }

func (e *end) LocalAddr() net.Addr                { return addr{} }
func (e *end) RemoteAddr() net.Addr               { return addr{} }
func (e *end) SetDeadline(t time.Time) error      { return e.SetReadDeadline(t) }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }

// SetReadDeadline supports deadlines in the past, which end pending and later reads.
func (e *end) SetReadDeadline(t time.Time) error {
	past := !t.IsZero() && t.Before(time.Unix(1e6, 0))
	if past != e.c.expired[e.i] {
		e.c.v.Do(func() { e.c.expired[e.i] = past })
	}
	return nil
}

var _ net.Conn = (*end)(nil)

// serverConn connects a new harness connection to srv and returns an open-stream function
// for it, as NewServerPipe does for net.Pipe. setup may configure the connection.
func serverConn(t *mc.T, ctx context.Context, srv *srpc.Server, setup func(c *conn)) srpc.OpenStreamFunc {
	return func(_ context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
		c, a, b := newConn(t)
		if setup != nil {
			setup(c)
		}
		t.Go("server.HandleStream", func() { srv.HandleStream(ctx, b) })
		prw := srpc.NewPacketReadWriter(a)
		t.Go("client.ReadPump", func() { prw.ReadPump(msgHandler, closeHandler) })
		return prw, nil
	}
}

// raw builds a message.
func raw(s string) *srpc.RawMessage { return srpc.NewRawMessage([]byte(s), true) }

// recv receives one message as a string.
func recv(s srpc.Stream) (string, error) {
	m := srpc.NewRawMessage(nil, true)
	err := s.MsgRecv(m)
	return string(m.GetData()), err
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

type ctxT = context.Context

var bg = context.Background()
