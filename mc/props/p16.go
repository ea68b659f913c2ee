package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// script is a Stream whose incoming messages are given and whose outgoing ones are recorded.
type script struct {
	in   [][]byte
	end  error
	sent [][]byte
	fail error // sends fail with it
	// retained messages must not be changed by the caller afterwards
	closed, closedSend int
	before             func()         // called before each receive
	onSend             func(b []byte) // called for each send
}

func (s *script) Context() context.Context { return context.Background() }
func (s *script) MsgSend(m srpc.Message) error {
	if s.onSend != nil {
		s.onSend(encMsg(m))
	}
	if s.fail != nil {
		return s.fail
	}
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	s.sent = append(s.sent, b)
	return nil
}
func (s *script) MsgRecv(m srpc.Message) error {
	if s.before != nil {
		s.before()
	}
	if len(s.in) == 0 {
		return s.end
	}
	b := append([]byte{}, s.in[0]...)
	s.in = s.in[1:]
	err := m.UnmarshalVT(b)
	// the transport reuses its buffer
	for i := range b {
		b[i] = 0xcc
	}
	return err
}
func (s *script) CloseSend() error                        { s.closedSend++; return nil }
func (s *script) Close() error                            { s.closed++; return nil }
func (s *script) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }
func (s *script) Recv() (*rpcstream.RpcStreamPacket, error) {
	m := new(rpcstream.RpcStreamPacket)
	return m, s.MsgRecv(m)
}

func encMsg(m srpc.Message) []byte {
	b, err := m.MarshalVT()
	if err != nil {
		panic(err)
	}
	return b
}

func rpcData(b []byte) *rpcstream.RpcStreamPacket {
	return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}}
}

func rpcAck(e string) *rpcstream.RpcStreamPacket {
	return &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: e}}}
}

// p16read checks every read-size pattern over the messages of sizes ns; at the end the
// stream reports end. A negative size is a packet without data (-1), an ack (-2) or an ack
// with an error (-3) on the nested-stream adapter.
func p16read(t *mc.T, nested bool, ns []int, end error, pat []int) {
	mc.Case()
	s := &script{end: end}
	var want []byte
	wantErr := ""
	if end != nil {
		wantErr = end.Error()
	}
	stop := false
	for i, n := range ns {
		var b []byte
		if n > 0 {
			b = payload(i+1, n)
		}
		msg := b
		if nested {
			p := rpcData(b)
			switch n {
			case -1:
				p = &rpcstream.RpcStreamPacket{}
			case -2:
				p = rpcAck("")
			case -3:
				p = rpcAck("remote failure")
				if !stop {
					wantErr = "remote failure"
					stop = true
				}
			}
			msg = encMsg(p)
		}
		if !stop {
			want = append(want, b...)
		}
		s.in = append(s.in, msg)
	}
	var r io.ReadWriteCloser
	if nested {
		r = rpcstream.NewRpcStreamReadWriter(s)
	} else {
		r = srpc.NewStreamRwc(s)
	}
	what := func() string { return fmt.Sprintf("nested=%v messages %v reads %v", nested, ns, pat) }
	var got []byte
	recvd := 0 // bytes of the messages received so far
	for i := 0; ; i++ {
		n := pat[len(pat)-1]
		if i < len(pat) {
			n = pat[i]
		}
		p := bytes.Repeat([]byte{0xee}, n+2)
		s.before = func() {
			// the next message may never come
			if n != 0 && recvd > len(got) {
				t.Failf("%s: a read waits for more although %d bytes have arrived", what(), recvd-len(got))
			}
			if k := len(ns) - len(s.in); k < len(ns) && ns[k] > 0 {
				recvd += ns[k]
			}
		}
		k, err := r.Read(p[:n:n])
		if k < 0 || k > n || p[n] != 0xee || p[n+1] != 0xee {
			t.Failf("%s: read %d of %d bytes", what(), k, n)
			return
		}
		got = append(got, p[:k]...)
		if err != nil {
			if err.Error() != wantErr {
				t.Failf("%s: ended with %v, want %q", what(), err, wantErr)
			}
			break
		}
		if k == 0 && n != 0 && len(got) >= len(want) {
			t.Failf("%s: empty read without an error", what())
			return
		}
		if i > 60 {
			t.Failf("%s: does not end", what())
			return
		}
	}
	if !bytes.Equal(got, want) {
		t.Failf("%s: read %x, want %x", what(), got, want)
	}
}

func init() {
	for _, nested := range []bool{false, true} {
		nested := nested
		name := map[bool]string{false: "stream", true: "nested"}[nested]
		reg(&mc.Scenario{Prop: "P16", Name: "reads-" + name, Quick: 0, Thorough: 0,
			Doc: "every sequence of up to 3 (thorough: 4) messages of 0 to 3 and 6 bytes (nested: also packets without data, acks and error acks), every pattern of 4 read sizes of 0 to 4 and 9 bytes, ending with EOF, cancellation or an error",
			Main: func(t *mc.T) {
				sizes := []int{0, 1, 2, 3, 6}
				if nested {
					sizes = append(sizes, -1, -2, -3)
				}
				end := []error{io.EOF, errReset, context.Canceled}[t.Choose(3)]
				depth := 3
				if t.Tier == "thorough" {
					depth = 4
				}
				first := t.Choose(len(sizes))
				n := 0
				mc.Quiet(func() {
					var ns, pat []int
					reads := []int{1, 2, 3, 4, 9, 0}
					var pats func()
					pats = func() {
						if len(pat) == 4 {
							if pat[3] != 0 {
								n++
								p16read(t, nested, ns, end, pat)
							}
							return
						}
						for _, x := range reads {
							if t.Failed() {
								return
							}
							pat = append(pat, x)
							pats()
							pat = pat[:len(pat)-1]
						}
					}
					var msgs func()
					msgs = func() {
						pats()
						if len(ns) < depth {
							for _, x := range sizes {
								ns = append(ns, x)
								msgs()
								ns = ns[:len(ns)-1]
							}
						}
					}
					ns = append(ns, sizes[first])
					msgs()
				})
				t.Outcome("%s", end)
			}})
	}
	reg(&mc.Scenario{Prop: "P16", Name: "large", Quick: 0, Thorough: 0,
		Doc: "messages and reads around the sizes of internal buffers (511..4097 bytes), three messages, every pattern of two read sizes",
		Main: func(t *mc.T) {
			sizes := []int{0, 511, 512, 513, 4095, 4096, 4097}
			nested, a, b := t.Bool(), t.Choose(7), t.Choose(7)
			mc.Quiet(func() {
				for _, c := range sizes {
					for _, x := range sizes[1:] {
						for _, y := range sizes[1:] {
							p16read(t, nested, []int{sizes[a], sizes[b], c}, io.EOF, []int{x, y})
						}
					}
				}
			})
			t.Outcome("%v", nested)
		}})
	reg(&mc.Scenario{Prop: "P16", Name: "writes", Quick: 0, Thorough: 0,
		Doc: "every sequence of up to 4 writes of 0 to 3 bytes through each adapter, the caller reusing one buffer, with a send failing at any write",
		Main: func(t *mc.T) {
			kind, failAt := t.Choose(3), t.Choose(5)
			s := &script{}
			var w io.WriteCloser
			switch kind {
			case 0:
				w = srpc.NewStreamRwc(s)
			case 1:
				w = rpcstream.NewRpcStreamReadWriter(s)
			case 2:
				w = rpcstream.NewRpcStreamWriter(s)
			}
			buf := make([]byte, 4)
			var want []string
			n := t.Choose(5)
			for i := 0; i < n; i++ {
				k := t.Choose(4)
				copy(buf, payload(i+1, k))
				s.fail = nil
				if i+1 == failAt {
					s.fail = errReset
				}
				c, err := w.Write(buf[:k])
				if s.fail != nil && k != 0 {
					if c != 0 || err == nil || err.Error() != errReset.Error() {
						t.Failf("failed write of %d bytes returned %d, %v", k, c, err)
					}
				} else {
					if k != 0 && (c != k || err != nil) {
						t.Failf("write of %d bytes returned %d, %v", k, c, err)
					}
					if k != 0 {
						want = append(want, string(buf[:k]))
					}
				}
				for j := range buf {
					buf[j] = 0xdd
				}
			}
			var got []string
			for _, m := range s.sent {
				if kind != 0 {
					p := new(rpcstream.RpcStreamPacket)
					if err := p.UnmarshalVT(m); err != nil {
						t.Failf("sent packet does not decode: %v", err)
					}
					if _, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Data); !ok {
						t.Failf("sent packet is %s", fields(p))
					}
					m = p.GetData()
				}
				if len(m) != 0 {
					got = append(got, string(m))
				}
			}
			if show(got) != show(want) {
				t.Failf("adapter %d sent %s, want %s", kind, show(got), show(want))
			}
			_ = w.Close()
			if kind == 2 && (s.closedSend != 1 || s.closed != 0) || kind != 2 && s.closed != 1 {
				t.Failf("closing adapter %d closed the stream %d times, half-closed %d times", kind, s.closed, s.closedSend)
			}
			t.Outcome("%d %v", kind, failAt <= n && failAt > 0)
		}})
	reg(&mc.Scenario{Prop: "P16", Name: "large-writes", Quick: 0, Thorough: 0,
		Doc: "two writes of sizes around powers of two up to 1 MiB through each adapter and the packet writer: one message each, with exactly those bytes",
		Main: func(t *mc.T) {
			sizes := []int{1}
			for n := 256; n <= 1<<20; n *= 2 {
				sizes = append(sizes, n-1, n, n+1)
			}
			kind := t.Choose(4)
			ns := []int{sizes[t.Choose(len(sizes))], []int{1, 5000}[t.Choose(2)]}
			s := &script{}
			var w io.Writer
			switch kind {
			case 0:
				w = srpc.NewStreamRwc(s)
			case 1:
				w = rpcstream.NewRpcStreamReadWriter(s)
			default:
				w = rpcstream.NewRpcStreamWriter(s)
			}
			var want [][]byte
			for i, n := range ns {
				b := payload(i+1, n)
				if kind == 3 {
					p := srpc.NewCallDataPacket(b, false, false, nil)
					if err := w.(srpc.PacketWriter).WritePacket(p); err != nil {
						t.Failf("WritePacket of %d bytes: %v", n, err)
					}
					want = append(want, enc(p))
					continue
				}
				want = append(want, bytes.Clone(b))
				if k, err := w.Write(b); k != n || err != nil {
					t.Failf("write of %d bytes returned %d, %v", n, k, err)
				}
				clear(b)
			}
			if len(s.sent) != len(want) {
				t.Failf("adapter %d: writes of %v bytes became %d messages", kind, ns, len(s.sent))
				return
			}
			for i, m := range s.sent {
				if kind != 0 {
					p := new(rpcstream.RpcStreamPacket)
					if err := p.UnmarshalVT(m); err != nil {
						t.Failf("sent packet does not decode: %v", err)
					}
					m = p.GetData()
				}
				if !bytes.Equal(m, want[i]) {
					t.Failf("adapter %d: write %d of %v sent %s, want %s", kind, i, ns, brief(m), brief(want[i]))
				}
			}
			t.Outcome("%d", kind)
		}})
	reg(&mc.Scenario{Prop: "P16", Name: "packet-pump", Quick: 0, Thorough: 0,
		Doc: "every sequence of up to 4 packets (data, empty data, ack, none) through the nested packet pump, ending in every way, the handler failing on any packet; and WritePacket of every alphabet packet",
		Main: func(t *mc.T) {
			n := t.Choose(5)
			s := &script{end: []error{io.EOF, errReset, context.Canceled}[t.Choose(3)]}
			var want []string
			for i := 0; i < n; i++ {
				switch t.Choose(4) {
				case 0:
					b := payload(i+1, 2)
					s.in = append(s.in, encMsg(rpcData(b)))
					want = append(want, string(b))
				case 1:
					s.in = append(s.in, encMsg(rpcData(nil)))
				case 2:
					s.in = append(s.in, encMsg(rpcAck("")))
				case 3:
					s.in = append(s.in, nil)
				}
			}
			failOn := t.Choose(len(want)+1) - 1
			wantErr := s.end
			if failOn >= 0 {
				want, wantErr = want[:failOn+1], errHandler
			}
			var got []string
			closes := 0
			rpcstream.ReadPump(s, func(b []byte) error {
				got = append(got, string(b))
				if len(got)-1 == failOn {
					return errHandler
				}
				return nil
			}, func(err error) {
				closes++
				if err != wantErr {
					t.Failf("pump closed with %v, want %v", err, wantErr)
				}
			})
			if closes != 1 || show(got) != show(want) {
				t.Failf("pump delivered %s (closed %d times), want %s", show(got), closes, show(want))
			}
			s2 := &script{}
			var wires [][]byte
			for _, x := range alphabet {
				if x.pkt != nil {
					if err := rpcstream.NewRpcStreamWriter(s2).WritePacket(x.pkt); err != nil {
						t.Failf("WritePacket: %v", err)
					}
					if b := enc(x.pkt); len(b) != 0 {
						wires = append(wires, b)
					}
				}
			}
			for i, m := range s2.sent {
				p := new(rpcstream.RpcStreamPacket)
				_ = p.UnmarshalVT(m)
				if i >= len(wires) || !bytes.Equal(p.GetData(), wires[i]) {
					t.Failf("packet %d written as %x", i, m)
					break
				}
			}
			if len(s2.sent) != len(wires) {
				t.Failf("%d packets written, want %d", len(s2.sent), len(wires))
			}
			t.Outcome("%d %s", len(got), strings.Fields(errStr(wantErr))[0])
		}})
}
