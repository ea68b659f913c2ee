package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// source is a reader whose split into reads is chosen by pick.
type source struct {
	data []byte
	pos  int
	// pick returns how many of at most n bytes the next read returns; -1 is a read of
	// nothing without an error.
	pick func(pos, n int) int
	// end is reported after the data, with the last bytes when withData is set.
	end      error
	withData bool
	reads    int
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	n := len(s.data) - s.pos
	if n == 0 {
		return 0, s.end
	}
	if n > len(p) {
		n = len(p)
	}
	if s.pick != nil {
		n = s.pick(s.pos, n)
	}
	if n < 0 {
		return 0, nil
	}
	copy(p, s.data[s.pos:s.pos+n])
	// a reader may use all of the buffer as scratch space
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xee
	}
	s.pos += n
	if s.pos == len(s.data) && s.withData {
		return n, s.end
	}
	return n, nil
}

func (s *source) Write(p []byte) (int, error) { return len(p), nil }
func (s *source) Close() error                { return nil }

// refFrames is the reference decoder: the complete frames and whether the stream is bad.
func refFrames(b []byte) (out [][]byte, bad bool) {
	for len(b) >= 4 {
		n := uint64(binary.LittleEndian.Uint32(b))
		if n == 0 || n > 10_000_000 {
			return out, true
		}
		if uint64(len(b)-4) < n {
			break
		}
		out = append(out, b[4:4+n])
		b = b[4+n:]
	}
	return out, false
}

// payload makes distinguishable contents.
func payload(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*37 + j*11 + j/251)
	}
	return b
}

// transportErrors are the ways a stream ends; the first two are orderly.
var transportErrors = []error{io.EOF, context.Canceled, errReset, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, context.DeadlineExceeded, io.ErrShortBuffer}

var errHandler = errors.New("handler error")

// readAll runs the pump over the source and compares with the reference. The handler
// fails on frame failOn (-1: never).
func readAll(t *mc.T, what string, s *source, failOn int) { readAllErr(t, what, s, failOn, errHandler) }

// handlerErrors are what a packet handler may return.
var handlerErrors = []error{errHandler, srpc.ErrCompleted, io.EOF, context.Canceled, srpc.ErrUnrecognizedPacket, io.ErrUnexpectedEOF}

func readAllErr(t *mc.T, what string, s *source, failOn int, errHandler error) {
	var got [][]byte
	closes := 0
	var closeErr error
	want, bad := refFrames(s.data)
	var wantErr error
	anyErr := bad
	switch {
	case failOn >= 0 && failOn < len(want):
		want, wantErr, anyErr = want[:failOn+1], errHandler, false
	case !bad && s.end != io.EOF && s.end != context.Canceled:
		wantErr = s.end
	}
	prw := srpc.NewPacketReadWriter(s)
	prw.ReadPump(func(b []byte) error {
		if closes != 0 {
			t.Failf("%s: packet after the close", what)
		}
		got = append(got, append([]byte{}, b...))
		if len(got)-1 == failOn {
			return errHandler
		}
		return nil
	}, func(err error) {
		closes++
		closeErr = err
	})
	if closes != 1 {
		t.Failf("%s: close callback ran %d times", what, closes)
	}
	if len(got) != len(want) {
		t.Failf("%s: %d packets delivered, want %d (closed with %v)", what, len(got), len(want), closeErr)
		return
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			t.Failf("%s: packet %d is %s, want %s", what, i, brief(got[i]), brief(want[i]))
		}
	}
	if anyErr && closeErr == nil || !anyErr && closeErr != wantErr {
		t.Failf("%s: closed with %v, want %v (or any error: %v)", what, closeErr, wantErr, anyErr)
	}
	t.Outcome("%d frames %s", len(got), errStr(closeErr))
}

func brief(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// tails is what may follow the proper frames.
var tails = []struct {
	name string
	b    []byte
}{
	{"nothing", nil},
	{"1 byte of a prefix", []byte{3}},
	{"3 bytes of a prefix", []byte{3, 0, 0}},
	{"prefix only", []byte{3, 0, 0, 0}},
	{"incomplete payload", []byte{3, 0, 0, 0, 1, 2}},
	{"zero prefix", []byte{0, 0, 0, 0}},
	{"zero prefix and a frame", []byte{0, 0, 0, 0, 1, 0, 0, 0, 9}},
	{"oversized prefix", []byte{0x81, 0x96, 0x98, 0}},
	{"huge prefix", []byte{0xff, 0xff, 0xff, 0xff}},
	{"negative prefix and bytes", []byte{1, 0, 0, 0x80, 1, 2}},
}

func init() {
	reg(&mc.Scenario{Prop: "P09", Name: "small-frames", Quick: 0, Thorough: 0, Weight: 2,
		Doc: "up to three frames of 1, 2 or 4 bytes (up to 15 bytes in all; 17 in the thorough tier) and every tail (partial prefix, partial payload, zero prefix, oversized prefixes) under every split of the byte stream into reads",
		Main: func(t *mc.T) {
			limit := 15
			if t.Tier == "thorough" {
				limit = 17
			}
			var data []byte
			what := ""
			for i := 0; i < 3; i++ {
				k := t.Choose(4)
				if k == 3 {
					break
				}
				n := []int{1, 2, 4}[k]
				data = append(data, frame(payload(i+1, n))...)
				what += fmt.Sprintf("%d ", n)
			}
			tl := tails[t.Choose(len(tails))]
			data = append(data, tl.b...)
			if len(data) > limit {
				return
			}
			s := &source{data: data, end: io.EOF}
			splits := ""
			s.pick = func(_, n int) int {
				k := n - t.Choose(n)
				splits += fmt.Sprintf(" %d", k)
				return k
			}
			readAll(t, "frames "+what+"then "+tl.name, s, -1)
		}})
	sizes := []int{1, 2040, 2043, 2044, 2045, 2048, 4092, 4097, 70000}
	reg(&mc.Scenario{Prop: "P09", Name: "boundary-frames", Quick: 2, Thorough: 4, Weight: 2,
		Doc: "up to two (thorough: three) frames with payloads around the read buffer size, with up to 2 (thorough: 4) reads cut short at or next to a frame boundary, or after 1 byte",
		Main: func(t *mc.T) {
			var data []byte
			what := ""
			var bounds []int
			max := 2
			if t.Tier == "thorough" {
				max = 3
			}
			for i := 0; i < max; i++ {
				k := t.Choose(len(sizes) + 1)
				if k == len(sizes) {
					break
				}
				bounds = append(bounds, len(data), len(data)+4)
				data = append(data, frame(payload(i+1, sizes[k]))...)
				what += fmt.Sprintf("%d ", sizes[k])
			}
			bounds = append(bounds, len(data))
			s := &source{data: data, end: io.EOF}
			cut := 0
			s.pick = func(pos, n int) int {
				opts := []int{n, 1}
				for _, b := range bounds {
					for _, x := range []int{b - 1, b, b + 1} {
						if x > pos+1 && x < pos+n && len(opts) < 9 {
							opts = append(opts, x-pos)
						}
					}
				}
				if cut >= 6 {
					return n
				}
				k := t.Deviate(len(opts))
				if k != 0 {
					cut++
				}
				return opts[k]
			}
			readAll(t, "frames "+what, s, -1)
		}})
	reg(&mc.Scenario{Prop: "P09", Name: "ends", Quick: 2, Thorough: 4,
		Doc: "up to three small frames and every tail; the transport ends with EOF, cancellation or an error, alone or together with the last bytes; the handler fails on any frame; up to 2 (thorough: 4) cut or empty reads anywhere",
		Main: func(t *mc.T) {
			var data []byte
			n := t.Choose(4)
			for i := 0; i < n; i++ {
				data = append(data, frame(payload(i+1, i+1))...)
			}
			tl := tails[t.Choose(len(tails))]
			data = append(data, tl.b...)
			s := &source{data: data, end: transportErrors[t.Choose(len(transportErrors))], withData: t.Bool()}
			failOn := t.Choose(n+1) - 1
			herr := errHandler
			if failOn >= 0 {
				herr = handlerErrors[t.Choose(len(handlerErrors))]
			}
			empty := 0
			s.pick = func(_, n int) int {
				k := t.Deviate(n + 1)
				if k == n {
					if empty++; empty > 3 {
						return n
					}
					return -1
				}
				return n - k
			}
			readAllErr(t, fmt.Sprintf("%d frames then %s, end %v (with data %v), handler fails on %d with %v", n, tl.name, s.end, s.withData, failOn, herr), s, failOn, herr)
		}})
	reg(&mc.Scenario{Prop: "P09", Name: "maximum", Quick: 0, Thorough: 1,
		Doc: "a frame of the maximum size or one byte more, before and after a small frame; nil close callback",
		Main: func(t *mc.T) {
			big := 10_000_000 + t.Choose(3) - 1
			var data []byte
			if t.Bool() {
				data = append(data, frame([]byte{7})...)
			}
			data = append(data, frame(make([]byte, big))...)
			data = append(data, frame([]byte{8})...)
			readAll(t, fmt.Sprintf("frame of %d bytes", big), &source{data: data, end: io.EOF}, -1)
			srpc.NewPacketReadWriter(&source{data: data[:3], end: errReset}).ReadPump(func([]byte) error { return nil }, nil)
		}})
}
