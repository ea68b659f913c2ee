package props

import (
	"bytes"
	"fmt"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// sink is a transport that accepts writes in the way accept says.
type sink struct {
	v   mc.Var
	buf []byte
	// accept returns how many of n bytes are taken and the error.
	accept func(call, n int) (int, error)
	calls  int
	dead   error
	hit    string // the goroutine whose write failed first
	inside int
	raw    []byte // written through Write: taken as a whole
}

func (s *sink) Write(p []byte) (n int, err error) {
	s.v.Do(func() {
		s.calls++
		if s.dead != nil {
			err = s.dead
			return
		}
		n = len(p)
		if s.accept != nil && !(s.raw != nil && bytes.Equal(p, s.raw)) {
			n, err = s.accept(s.calls, len(p))
		}
		s.buf = append(s.buf, p[:n]...)
		s.dead = err
	})
	return n, err
}

func (s *sink) Read(p []byte) (int, error) { return 0, errReset }
func (s *sink) Close() error               { return nil }

// wrote is one packet and the result of writing it.
type wrote struct {
	data []byte
	err  error
	done bool
}

// p10 runs writers of the given packet sizes over s.
func p10(t *mc.T, s *sink, sizes [][]int, viaWrite bool) {
	prw := srpc.NewPacketReadWriter(s)
	recs := make([][]*wrote, len(sizes))
	for w, ns := range sizes {
		for i, n := range ns {
			recs[w] = append(recs[w], &wrote{data: payload(w*16+i+1, n)})
		}
	}
	if viaWrite {
		r := recs[0][0]
		s.raw = frame(enc(srpc.NewCallDataPacket(r.data, len(r.data) == 0, false, nil)))
	}
	for w := range recs {
		w := w
		t.Go(fmt.Sprintf("writer-%d", w), func() {
			for i, r := range recs[w] {
				pkt := srpc.NewCallDataPacket(r.data, len(r.data) == 0, false, nil)
				if viaWrite && w == 0 && i == 0 {
					f := frame(enc(pkt))
					n, err := prw.Write(f)
					if err == nil && n != len(f) {
						t.Failf("Write returned %d of %d without an error", n, len(f))
					}
					r.err = err
				} else {
					r.err = prw.WritePacket(pkt)
				}
				r.done = true
				if r.err != nil {
					return
				}
			}
		})
	}
	if !t.MustFinish("writers") {
		return
	}
	frames, bad := refFrames(s.buf)
	used := 0
	for _, f := range frames {
		used += 4 + len(f)
	}
	if bad || (used != len(s.buf) && s.dead == nil) {
		t.Failf("the transport carries an incomplete or malformed frame: %s", brief(s.buf))
		return
	}
	// each frame is the next packet of some writer
	next := make([]int, len(recs))
	for k, f := range frames {
		p := new(srpc.Packet)
		if err := p.UnmarshalVT(f); err != nil {
			t.Failf("frame %d does not decode: %v: %s", k, err, brief(f))
			return
		}
		found := false
		for w := range recs {
			if next[w] < len(recs[w]) && bytes.Equal(recs[w][next[w]].data, p.GetCallData().GetData()) &&
				bytes.Equal(f, enc(srpc.NewCallDataPacket(recs[w][next[w]].data, len(recs[w][next[w]].data) == 0, false, nil))) {
				if !recs[w][next[w]].done {
					t.Failf("packet on the wire although its write did not happen")
				}
				next[w]++
				found = true
				break
			}
		}
		if !found {
			t.Failf("frame %d (%s) is not the next packet of any writer", k, brief(f))
			return
		}
	}
	failed := 0
	for w := range recs {
		ok := 0
		for _, r := range recs[w] {
			if r.done && r.err == nil {
				ok++
			}
			if r.err != nil {
				failed++
				if r.err != errReset {
					t.Failf("a write failed with %v instead of the transport's error", r.err)
				}
			}
		}
		if s.dead == nil && ok != len(recs[w]) {
			t.Failf("writer %d wrote %d of %d packets although the transport works", w, ok, len(recs[w]))
		}
		if next[w] < ok {
			t.Failf("writer %d: %d writes succeeded but only %d packets are on the wire", w, ok, next[w])
		}
	}
	if s.dead != nil && failed == 0 {
		t.Failf("the transport failed but no write reported it")
	}
	t.Outcome("%d frames %d failed", len(frames), failed)
}

func init() {
	reg(&mc.Scenario{Prop: "P10", Name: "three-writers", Quick: 5, Thorough: 10,
		Doc: "three goroutines writing two packets each (one of them through Write) to a transport that takes whole writes",
		Main: func(t *mc.T) {
			p10(t, &sink{}, [][]int{{1, 30}, {20, 0}, {3, 300}}, t.Bool())
		}})
	reg(&mc.Scenario{Prop: "P10", Name: "short-writes", Quick: 2, Thorough: 3, Weight: 2,
		Doc: "two writers (one of them starting with a packet framed by itself and written through Write) over a transport that takes any prefix of a write (also nothing, once) at each of the first six writes",
		Main: func(t *mc.T) {
			zero, raw := false, t.Bool()
			s := &sink{accept: func(call, n int) (int, error) {
				if call > 6 || n < 2 {
					return n, nil
				}
				opts := []int{n, 1, n / 2, n - 1, 4, 3}
				k := t.Choose(len(opts) + 1)
				if k == len(opts) {
					if zero {
						return n, nil
					}
					zero = true
					return 0, nil
				}
				if opts[k] > n {
					return n, nil
				}
				return opts[k], nil
			}}
			p10(t, s, [][]int{{1, 2}, {5}}, raw)
		}})
	reg(&mc.Scenario{Prop: "P10", Name: "all-cuts", Quick: 0, Thorough: 0,
		Doc: "one writer, packets of up to 4 bytes, every division of the writes into accepted pieces",
		Main: func(t *mc.T) {
			s := &sink{accept: func(call, n int) (int, error) { return n - t.Choose(n), nil }}
			p10(t, s, [][]int{{t.Choose(5)}}, false)
		}})
	reg(&mc.Scenario{Prop: "P10", Name: "errors", Quick: 5, Thorough: 10,
		Doc: "two writers over a transport that fails at any write after taking nothing, part or all of it, possibly after short writes",
		Main: func(t *mc.T) {
			at := 1 + t.Choose(4)
			short := t.Bool()
			part := t.Choose(3)
			s := &sink{accept: func(call, n int) (int, error) {
				if call == at {
					return n * part / 2, errReset
				}
				if short && call < at && n > 1 {
					return n - 1, nil
				}
				return n, nil
			}}
			p10(t, s, [][]int{{1, 20}, {5, 6}}, t.Bool())
		}})
	reg(&mc.Scenario{Prop: "P10", Name: "call-traffic", Quick: 5, Thorough: 10,
		Doc: "two goroutines send on one client stream while a third half-closes or cancels; everything on the wire is a sequence of complete frames beginning with the call start",
		Main: func(t *mc.T) {
			s := &sink{}
			cl := srpc.NewClient(func(_ ctxT, h srpc.PacketDataHandler, c srpc.CloseHandler) (srpc.PacketWriter, error) {
				return srpc.NewPacketReadWriter(s), nil
			})
			strm := openStream(t, cl, bg, "svc", "mth", nil)
			if strm == nil {
				return
			}
			mode := t.Choose(3)
			t.Go("s1", func() { _ = strm.MsgSend(raw("aaaa")) })
			t.Go("s2", func() { _ = strm.MsgSend(raw("bbbbbbb")) })
			t.Go("s3", func() {
				switch mode {
				case 0:
					_ = strm.CloseSend()
				case 1:
					_ = strm.MsgSend(raw(""))
				case 2:
					_ = strm.Close()
				}
			})
			t.MustFinish("senders")
			n := map[string]int{}
			for i, p := range packets(t, s.buf) {
				k := showPkts([]*srpc.Packet{p})
				n[k]++
				if (i == 0) != (k == "start(svc.mth)") || n[k] > 1 {
					t.Failf("packet %d on the wire is %s", i, k)
				}
				switch k {
				case "start(svc.mth)", "data(aaaa)", "data(bbbbbbb)", "+complete", "data()", "cancel(true)":
				default:
					t.Failf("unexpected packet %s", k)
				}
			}
			t.Outcome("%d", len(n))
			_ = strm.Close()
			t.MustFinish("after close")
		}})
}
