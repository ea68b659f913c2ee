package props

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// sym is one thing a peer may put on a stream.
type sym struct {
	name string
	// raw bytes on the wire, length prefix included.
	wire []byte
	// pkt is the packet object (nil for byte-level defects).
	pkt *srpc.Packet
	// what it means
	kind  byte // s start, d data, c cancel, n no-op, x protocol error
	svc   string
	data  string
	has   bool // carries a message
	compl bool
	err   string
}

func frame(b []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func pktSym(name string, kind byte, p *srpc.Packet) sym {
	return sym{name: name, kind: kind, pkt: p, wire: frame(enc(p))}
}

func startSym(name, svc string, data []byte, zero bool) sym {
	s := pktSym(name, 's', srpc.NewCallStartPacket(svc, "mth", data, zero))
	s.svc, s.data, s.has = svc, string(data), zero || len(data) != 0
	return s
}

func dataSym(name string, data []byte, zero, compl bool, err string) sym {
	s := pktSym(name, 'd', &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: data, DataIsZero: zero, Complete: compl, Error: err}}})
	s.data, s.has, s.compl, s.err = string(data), zero || len(data) != 0, compl || err != "", err
	return s
}

// alphabet is every packet kind and every defect.
var alphabet = func() []sym {
	start := func(svc, mth string) *srpc.Packet { return srpc.NewCallStartPacket(svc, mth, nil, false) }
	return []sym{
		startSym("start", "svc", nil, false),
		startSym("start(p)", "svc", []byte("p"), false),
		startSym("start(empty)", "svc", nil, true),
		startSym("start'", "svc2", nil, false),
		dataSym("data(a)", []byte("a"), false, false, ""),
		dataSym("data(empty)", nil, true, false, ""),
		dataSym("complete", nil, false, true, ""),
		dataSym("data(b)+complete", []byte("b"), false, true, ""),
		dataSym("data(empty)+complete", nil, true, true, ""),
		dataSym("error", nil, false, true, "boom"),
		dataSym("data(empty)+error", nil, true, true, "bust"),
		dataSym("data(c)+error", []byte("c"), false, false, "bang"),
		pktSym("cancel", 'c', srpc.NewCallCancelPacket()),
		// no message at all
		pktSym("cancel(false)", 'n', &srpc.Packet{Body: &srpc.Packet_CallCancel{}}),
		// defects
		pktSym("start-no-method", 'x', start("svc", "")),
		pktSym("start-no-service", 'x', start("", "mth")),
		pktSym("data-nothing", 'x', &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{}}}),
		{name: "unknown-packet", kind: 'x', wire: frame([]byte{0x7a, 1, 'q'})},
		{name: "malformed", kind: 'x', wire: frame([]byte{0x0a, 9, 'q'})},
		{name: "zero-length", kind: 'x', wire: frame(nil)},
		{name: "too-long", kind: 'x', wire: []byte{0xff, 0xff, 0xff, 0x7f}},
	}
}()

// few is the part of the alphabet used together with schedules.
func few(names ...string) (out []sym) {
	for _, n := range names {
		found := false
		for _, s := range alphabet {
			if s.name == n {
				out = append(out, s)
				found = true
			}
		}
		if !found {
			panic(n)
		}
	}
	return out
}

// refServer is the reference state machine of the receiving half of a server stream.
type refServer struct {
	svc    string // service of the call that was started
	data   []string
	closed bool   // no more data is accepted
	end    string // how the data ends: "", "eof", "error <text>", "canceled", "protocol"
	stop   bool   // protocol error or cancellation: the stream is over
}

func (r *refServer) step(s sym) (accepted bool) {
	if r.stop {
		return false
	}
	fail := func() bool {
		r.stop = true
		if !r.closed {
			r.end = "protocol"
		}
		r.closed = true
		return false
	}
	switch s.kind {
	case 's':
		if r.svc != "" || r.closed {
			return fail()
		}
		r.svc = s.svc
		if s.has {
			r.data = append(r.data, s.data)
		}
	case 'd':
		if r.closed {
			return fail()
		}
		if s.has {
			r.data = append(r.data, s.data)
		}
		if s.compl {
			r.closed = true
			r.end = "eof"
			if s.err != "" {
				r.end = "error " + s.err
			}
		}
	case 'c':
		r.stop = true
		if !r.closed {
			r.end = "canceled"
		}
		r.closed = true
	case 'x':
		return fail()
	}
	return true
}

// outcome of a receive loop in the reference's terms.
func endOf(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "eof"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case err.Error() == "boom" || err.Error() == "bang" || err.Error() == "bust":
		return "error " + err.Error()
	}
	return "protocol"
}

// matches reports whether err is an admissible end of the data. After a proper end the
// stream may still be cancelled or broken, which a late reader may see.
func (r *refServer) matches(err error) bool {
	e := endOf(err)
	if e == r.end {
		return true
	}
	if r.stop && r.end == "eof" {
		return e == "canceled" || e == "protocol"
	}
	return false
}

// packets decodes what was written to the wire.
func packets(t *mc.T, b []byte) (out []*srpc.Packet) {
	for len(b) != 0 {
		if len(b) < 4 || len(b)-4 < int(binary.LittleEndian.Uint32(b)) {
			t.Failf("incomplete frame on the wire: %x", b)
			return out
		}
		n := int(binary.LittleEndian.Uint32(b))
		p := new(srpc.Packet)
		if err := p.UnmarshalVT(b[4 : 4+n]); err != nil {
			t.Failf("undecodable packet on the wire: %x", b[4:4+n])
		}
		out = append(out, p)
		b = b[4+n:]
	}
	return out
}

func showPkts(ps []*srpc.Packet) string {
	var o []string
	for _, p := range ps {
		switch b := p.GetBody().(type) {
		case *srpc.Packet_CallData:
			s := fmt.Sprintf("data(%s)", b.CallData.GetData())
			if len(b.CallData.GetData()) == 0 && !b.CallData.GetDataIsZero() {
				s = ""
			}
			if b.CallData.GetComplete() {
				s += "+complete"
			}
			if b.CallData.GetError() != "" {
				s += "+error(" + b.CallData.GetError() + ")"
			}
			o = append(o, s)
		case *srpc.Packet_CallCancel:
			o = append(o, fmt.Sprintf("cancel(%v)", b.CallCancel))
		case *srpc.Packet_CallStart:
			o = append(o, "start("+b.CallStart.GetRpcService()+"."+b.CallStart.GetRpcMethod()+")")
		default:
			o = append(o, "empty")
		}
	}
	return strings.Join(o, " ")
}

var handlerModes = []string{"drain", "early-error", "hang", "drain-then-error"}

// p07 sends a chosen sequence to a server and compares with the reference.
func p07(t *mc.T, syms []sym, depth int, mode int, timing int) {
	batch, step := timing == 0, timing == 1
	c, a, b := newConn(t)
	_ = c
	var ref refServer
	var got []string
	var gotErr error
	calls, ended, drained := 0, false, false
	inv := srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
		mc.Quiet(func() { calls++ })
		if calls > 1 {
			t.Failf("a second handler was invoked on one stream")
		}
		if mth != "mth" || svc != ref.svc && !t.Failed() {
			t.Failf("handler invoked for %q %q, the first valid start was %q", svc, mth, ref.svc)
		}
		defer func() { ended = true; t.Publish() }()
		switch mode {
		case 1:
			return true, errors.New("bad")
		case 2:
			<-s.Context().Done()
			return true, s.Context().Err()
		}
		got, gotErr = recvAll(s)
		drained = true
		t.Publish()
		if gotErr != io.EOF {
			return true, gotErr
		}
		if mode == 3 {
			return true, errors.New("bad")
		}
		if err := s.MsgSend(raw("r1")); err != nil {
			return true, err
		}
		return true, s.MsgSend(raw(""))
	})
	t.Go("server.HandleStream", func() { srpc.NewServer(inv).HandleStream(context.Background(), b) })
	var out []byte
	t.Go("peer.read", func() {
		buf := make([]byte, 4096)
		for {
			n, err := a.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				return
			}
		}
	})
	var names []string
	var wire []byte
	for i := 0; i < depth; i++ {
		k := t.Choose(len(syms) + 1)
		if k == len(syms) {
			break
		}
		s := syms[k]
		names = append(names, s.name)
		ref.step(s)
		if batch {
			wire = append(wire, s.wire...)
		} else {
			_, _ = a.Write(s.wire)
			if step {
				t.Idle()
			}
			if calls != 0 && ref.svc == "" {
				t.Failf("after [%s]: handler invoked without a valid start", strings.Join(names, " "))
			}
		}
		if ref.stop {
			// whatever follows must not matter
			for _, x := range few("data(a)", "start'") {
				wire2 := x.wire
				if batch {
					wire = append(wire, wire2...)
				} else {
					_, _ = a.Write(wire2)
				}
			}
			break
		}
	}
	if batch {
		_, _ = a.Write(wire)
	}
	seq := "[" + strings.Join(names, " ") + "]"
	t.Idle()
	// quiescent with the connection open
	fail := func(f string, x ...any) {
		t.Failf("after %s, handler %s: %s", seq, handlerModes[mode], fmt.Sprintf(f, x...))
	}
	if (calls == 1) != (ref.svc != "") {
		fail("%d handlers invoked, expected service %q", calls, ref.svc)
	}
	if ref.stop && !c.released(1) {
		fail("the stream was not ended")
	}
	if ref.stop && calls == 1 && !ended {
		fail("the handler's context was not cancelled")
	}
	if !ref.stop && !ref.closed && calls == 1 && mode != 1 && ended {
		fail("the handler ended although the call is still open")
	}
	if (mode == 0 || mode == 3) && ref.svc != "" {
		if !drained && ref.closed {
			fail("the handler did not see the end of the data")
		}
		if drained && (show(got) != show(ref.data) || !ref.matches(gotErr)) {
			fail("handler received %s then %v, expected %s then %q", show(got), gotErr, show(ref.data), ref.end)
		}
	}
	_ = a.Close()
	t.MustFinish("after the peer closed " + seq)
	if (mode == 0 || mode == 3) && ref.svc != "" && !ref.closed && show(got) != show(ref.data) {
		fail("handler received %s, expected %s", show(got), show(ref.data))
	}
	ps := packets(t, out)
	want := ""
	switch {
	case ref.svc == "":
	case mode == 1, mode == 3 && ref.end == "eof":
		want = "+complete+error(bad)"
	case mode == 0 && ref.end == "eof":
		want = "data(r1) data() +complete"
	case strings.HasPrefix(ref.end, "error ") && mode != 2:
		want = "+complete+error(" + ref.end[6:] + ")"
	}
	if o := showPkts(ps); o != want {
		// once the stream is stopped, any part of the answer may be missing, and an error
		// (the handler's sends fail) may be reported in the place of the rest
		if n := len(ps); n != 0 && ps[n-1].GetCallData().GetError() != "" {
			ps = ps[:n-1]
		}
		if part := showPkts(ps); !ref.stop || !strings.HasPrefix(want+" ", part+" ") && part != "" {
			fail("server answered %q, expected %q", o, want)
		}
	}
	t.Outcome("%s %d calls, %s", ref.end, calls, endOf(gotErr))
}

func init() {
	n := 4
	for i := 0; i < n; i++ {
		mode := i
		reg(&mc.Scenario{Prop: "P07", Name: "sequences-" + handlerModes[mode], Quick: 0, Thorough: 1,
			Doc: "every sequence of up to 4 packets (5 in the thorough tier) over the whole alphabet, one at a time or in one write, against handler " + handlerModes[mode],
			Main: func(t *mc.T) {
				d := 4
				if t.Tier == "thorough" {
					d = 5
				}
				p07(t, alphabet, d, mode, t.Choose(2))
			}})
		reg(&mc.Scenario{Prop: "P07", Name: "schedules-" + handlerModes[mode], Quick: 2, Thorough: 3,
			Doc: "every sequence of up to 3 packets over eight of the symbols, in one write or one write each, with schedules of reader, handler and peer, against handler " + handlerModes[mode],
			Main: func(t *mc.T) {
				p07seq(t, few("start(p)", "data(a)", "complete", "data(b)+complete", "data(c)+error", "cancel", "malformed", "start'"), 3, mode)
			}})
	}
	reg(&mc.Scenario{Prop: "P07", Name: "names", Quick: 0, Thorough: 0,
		Doc:  "starts of services and methods whose names differ only in case, blanks, slashes, dots, normalization or length: the handler is asked for exactly these",
		Main: p07names})
	reg(&mc.Scenario{Prop: "P07", Name: "direct", Quick: 0, Thorough: 2,
		Doc:  "every sequence of up to 3 packet objects (also nil packets and nil bodies) handed to ServerRPC.HandlePacket; accepted or rejected as the reference says",
		Main: p07direct})
}

// otherNames go with the unusual names.
var otherNames = []string{"x", "", " ", "/x/", "X"}

// p07names starts calls of services and methods with unusual names.
func p07names(t *mc.T) {
	svc, mth := oddIDs[t.Choose(len(oddIDs))], otherNames[t.Choose(len(otherNames))]
	if t.Bool() {
		svc, mth = mth, svc
	}
	calls := 0
	rpc := srpc.NewServerRPC(bg, srpc.InvokerFunc(func(s, m string, _ srpc.Stream) (bool, error) {
		if calls++; s != svc || m != mth {
			t.Failf("start of %q %q: handler invoked for %q %q", brief([]byte(svc)), brief([]byte(mth)), brief([]byte(s)), brief([]byte(m)))
		}
		return true, nil
	}), &nullWriter{})
	err := rpc.HandlePacketData(enc(&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: svc, RpcMethod: mth}}}))
	t.MustFinish("the handler")
	want := 1
	if svc == "" || mth == "" {
		want = 0
	}
	if calls != want || (err == nil) != (want == 1) {
		t.Failf("start of %q %q: %v, handler invoked %d times", brief([]byte(svc)), brief([]byte(mth)), err, calls)
	}
	t.Outcome("%d %v", want, err)
}

// p07seq chooses the whole sequence first and then sends it while the server runs.
func p07seq(t *mc.T, syms []sym, depth, mode int) { p07(t, syms, depth, mode, 2*t.Choose(2)) }

func p07direct(t *mc.T) {
	objs := append([]sym{}, alphabet...)
	objs = append(objs,
		sym{name: "no-body", kind: 'x', pkt: &srpc.Packet{}},
		sym{name: "nil-start", kind: 'x', pkt: &srpc.Packet{Body: &srpc.Packet_CallStart{}}},
		sym{name: "nil-data", kind: 'x', pkt: &srpc.Packet{Body: &srpc.Packet_CallData{}}})
	w := &nullWriter{}
	var ref refServer
	var got []string
	var gotErr error
	calls := 0
	rpc := srpc.NewServerRPC(context.Background(), srpc.InvokerFunc(func(svc, mth string, s srpc.Stream) (bool, error) {
		calls++
		if svc != ref.svc || mth != "mth" {
			t.Failf("handler invoked for %q %q", svc, mth)
		}
		got, gotErr = recvAll(s)
		return true, nil
	}), w)
	if t.Bool() {
		if err := rpc.HandlePacket(nil); err != nil {
			t.Failf("HandlePacket(nil): %v", err)
		}
	}
	var names []string
	for i := 0; i < 3 && !ref.stop; i++ {
		k := t.Choose(len(objs) + 1)
		if k == len(objs) {
			break
		}
		s := objs[k]
		names = append(names, s.name)
		asPkt := s.pkt != nil && (s.wire == nil || t.Bool())
		if !asPkt && len(s.wire) <= 4 {
			break // a defect of the framing
		}
		want := ref.step(s)
		var err error
		if asPkt {
			err = rpc.HandlePacket(s.pkt)
		} else {
			err = rpc.HandlePacketData(s.wire[4:])
		}
		if (err == nil) != want {
			t.Failf("%v: HandlePacket(%s) returned %v", names, s.name, err)
		}
		if err != nil {
			rpc.HandleStreamClose(err)
		}
	}
	t.Idle()
	if (calls == 1) != (ref.svc != "") {
		t.Failf("%v: %d handlers invoked", names, calls)
	}
	if ref.stop && rpc.Context().Err() == nil {
		t.Failf("%v: context not cancelled", names)
	}
	rpc.HandleStreamClose(nil)
	t.MustFinish("after the close")
	if calls != 0 && show(got) != show(ref.data) {
		t.Failf("%v: handler received %s, expected %s", names, show(got), show(ref.data))
	}
	if calls != 0 && ref.closed && !ref.matches(gotErr) {
		t.Failf("%v: data ended with %v, expected %q", names, gotErr, ref.end)
	}
	t.Outcome("%s %d", ref.end, calls)
}
