package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	lite "github.com/aperturerobotics/protobuf-go-lite"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// ---- reference wire format ----

// rmsg is a decoded message of the reference: field values by number.
type rmsg struct {
	kind  *rkind
	b     map[int][]byte // bytes and strings
	v     map[int]bool   // bools
	sub   map[int]*rmsg
	oneof int // the field set, for kinds with a oneof
	unk   []byte
}

// rkind describes a message type.
type rkind struct {
	name   string
	bytesF []int
	boolF  []int
	subF   map[int]*rkind
	oneof  bool
	new    func() message
}

// message is what the generated types offer.
type message interface {
	lite.Message
	MarshalToVT([]byte) (int, error)
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
	EqualMessageVT(any) bool
	CloneMessageVT() lite.CloneMessage
	String() string
}

var (
	kStart  = &rkind{name: "CallStart", bytesF: []int{1, 2, 3}, boolF: []int{4}, new: func() message { return &srpc.CallStart{} }}
	kData   = &rkind{name: "CallData", bytesF: []int{1, 4}, boolF: []int{2, 3}, new: func() message { return &srpc.CallData{} }}
	kPacket = &rkind{name: "Packet", boolF: []int{3}, subF: map[int]*rkind{1: kStart, 2: kData}, oneof: true, new: func() message { return &srpc.Packet{} }}
	kInit   = &rkind{name: "RpcStreamInit", bytesF: []int{1}, new: func() message { return &rpcstream.RpcStreamInit{} }}
	kAck    = &rkind{name: "RpcAck", bytesF: []int{1}, new: func() message { return &rpcstream.RpcAck{} }}
	kRpc    = &rkind{name: "RpcStreamPacket", bytesF: []int{3}, subF: map[int]*rkind{1: kInit, 2: kAck}, oneof: true, new: func() message { return &rpcstream.RpcStreamPacket{} }}
	kinds   = []*rkind{kPacket, kStart, kData, kRpc, kInit, kAck}
)

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func newRmsg(k *rkind) *rmsg {
	return &rmsg{kind: k, b: map[int][]byte{}, v: map[int]bool{}, sub: map[int]*rmsg{}}
}

type verdict int

const (
	good verdict = iota
	bad
	either // encodings on which parsers may differ
)

// varint decodes a varint; overlong ones (beyond 64 bits) are reported as either.
func varint(b []byte) (v uint64, n int, r verdict) {
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			if i == 9 && b[i] > 1 {
				return v, i + 1, either
			}
			return v, i + 1, good
		}
	}
	return 0, 0, bad
}

// parse decodes b into m.
func (m *rmsg) parse(b []byte) (r verdict) {
	for len(b) != 0 {
		start := b
		tag, n, tr := varint(b)
		if tr == bad {
			return bad
		}
		b = b[n:]
		num, wt := int(tag>>3), int(tag&7)
		if tr == either || num > 1<<29-1 {
			return either
		}
		if num == 0 {
			return bad
		}
		var val uint64
		var body []byte
		switch wt {
		case 0:
			v, n, vr := varint(b)
			if vr == bad {
				return bad
			}
			if vr == either {
				r = either
			}
			val, b = v, b[n:]
		case 1, 5:
			n := 8
			if wt == 5 {
				n = 4
			}
			if len(b) < n {
				return bad
			}
			b = b[n:]
		case 2:
			l, n, lr := varint(b)
			if lr == bad || lr == good && l > uint64(len(b)-n) {
				return bad
			}
			if lr == either {
				return either
			}
			body, b = b[n:n+int(l)], b[n+int(l):]
		case 3:
			// a group is unknown here; its contents are up to the parser
			return either
		default:
			return bad
		}
		k := m.kind
		switch {
		case has(k.bytesF, num):
			if wt != 2 {
				return either
			}
			if k.oneof {
				m.set(num)
			}
			m.b[num] = body
		case has(k.boolF, num):
			if wt != 0 {
				return either
			}
			if k.oneof {
				m.set(num)
			}
			m.v[num] = val != 0
		case k.subF[num] != nil:
			if wt != 2 {
				return either
			}
			s := m.sub[num] // repeated occurrences merge
			m.set(num)
			if s == nil {
				s = newRmsg(k.subF[num])
			}
			m.sub[num] = s
			switch s.parse(body) {
			case bad:
				return bad
			case either:
				r = either
			}
		default:
			m.unk = append(m.unk, start[:len(start)-len(b)]...)
		}
	}
	return r
}

// set makes num the member of the oneof.
func (m *rmsg) set(num int) {
	m.b, m.v, m.sub = map[int][]byte{}, map[int]bool{}, map[int]*rmsg{}
	m.oneof = num
}

// encode is the canonical encoding.
func (m *rmsg) encode() (o []byte) {
	for num := 1; num < 8; num++ {
		present := m.kind.oneof && m.oneof == num
		if s := m.sub[num]; s != nil {
			e := s.encode()
			o = append(o, byte(num<<3|2))
			o = binary.AppendUvarint(o, uint64(len(e)))
			o = append(o, e...)
		} else if has(m.kind.bytesF, num) && (present || len(m.b[num]) != 0) {
			o = append(o, byte(num<<3|2))
			o = binary.AppendUvarint(o, uint64(len(m.b[num])))
			o = append(o, m.b[num]...)
		} else if has(m.kind.boolF, num) && (present || m.v[num]) {
			o = append(o, byte(num<<3))
			if m.v[num] {
				o = append(o, 1)
			} else {
				o = append(o, 0)
			}
		}
	}
	return append(o, m.unk...)
}

// fields prints a generated message in the reference's terms.
func fields(m any) string {
	switch x := m.(type) {
	case *srpc.Packet:
		switch b := x.GetBody().(type) {
		case nil:
			return "Packet{}"
		case *srpc.Packet_CallStart:
			return "Packet{1:" + fields(b.CallStart) + "}"
		case *srpc.Packet_CallData:
			return "Packet{2:" + fields(b.CallData) + "}"
		case *srpc.Packet_CallCancel:
			return fmt.Sprintf("Packet{3:%v}", b.CallCancel)
		}
	case *srpc.CallStart:
		return fmt.Sprintf("CallStart{%q %q %q %v}", x.GetRpcService(), x.GetRpcMethod(), x.GetData(), x.GetDataIsZero())
	case *srpc.CallData:
		return fmt.Sprintf("CallData{%q %v %v %q}", x.GetData(), x.GetDataIsZero(), x.GetComplete(), x.GetError())
	case *rpcstream.RpcStreamPacket:
		switch b := x.GetBody().(type) {
		case nil:
			return "RpcStreamPacket{}"
		case *rpcstream.RpcStreamPacket_Init:
			return "RpcStreamPacket{1:" + fields(b.Init) + "}"
		case *rpcstream.RpcStreamPacket_Ack:
			return "RpcStreamPacket{2:" + fields(b.Ack) + "}"
		case *rpcstream.RpcStreamPacket_Data:
			return fmt.Sprintf("RpcStreamPacket{3:%q}", b.Data)
		}
	case *rpcstream.RpcStreamInit:
		return fmt.Sprintf("RpcStreamInit{%q}", x.GetComponentId())
	case *rpcstream.RpcAck:
		return fmt.Sprintf("RpcAck{%q}", x.GetError())
	}
	return fmt.Sprintf("? %T", m)
}

func (m *rmsg) fields() string {
	if m.kind.oneof {
		switch {
		case m.oneof == 0:
			return m.kind.name + "{}"
		case m.sub[m.oneof] != nil:
			return fmt.Sprintf("%s{%d:%s}", m.kind.name, m.oneof, m.sub[m.oneof].fields())
		case has(m.kind.boolF, m.oneof):
			return fmt.Sprintf("%s{%d:%v}", m.kind.name, m.oneof, m.v[m.oneof])
		}
		return fmt.Sprintf("%s{%d:%q}", m.kind.name, m.oneof, m.b[m.oneof])
	}
	var o []string
	for num := 1; num < 8; num++ {
		if has(m.kind.bytesF, num) {
			o = append(o, fmt.Sprintf("%q", m.b[num]))
		} else if has(m.kind.boolF, num) {
			o = append(o, fmt.Sprint(m.v[num]))
		}
	}
	return m.kind.name + "{" + strings.Join(o, " ") + "}"
}

// decodeOne decodes b as every kind and compares with the reference; counts verdicts.
func decodeOne(t *mc.T, k *rkind, b []byte, n *[3]int) {
	mc.Case()
	defer func() {
		if e := recover(); e != nil {
			t.Failf("decoding %s from %x panics: %v", k.name, b, e)
		}
	}()
	ref := newRmsg(k)
	want := ref.parse(b)
	n[want]++
	in := append(make([]byte, 0, len(b)), b...)
	m := k.new()
	err := m.UnmarshalVT(in)
	if want == good && err != nil || want == bad && err == nil {
		t.Failf("decoding %s from %x: %v, the reference decoder says valid=%v", k.name, b, err, want == good)
		return
	}
	if err != nil {
		return
	}
	// the message must not depend on the input buffer any more
	for i := range in {
		in[i] ^= 0x55
	}
	if want == good {
		if f := fields(m); f != ref.fields() {
			t.Failf("decoding %s from %x: got %s, want %s", k.name, b, f, ref.fields())
			return
		}
		if out, err := m.MarshalVT(); err != nil || !bytes.Equal(out, ref.encode()) {
			t.Failf("%s decoded from %x encodes to %x (%v), want %x", k.name, b, out, err, ref.encode())
		}
	}
	reencode(t, k, m, false)
}

// scribble changes everything reachable from v in place.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanAddr() {
				scribble(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "?")
	}
}

// reencode checks that all encoders agree and round-trip.
func reencode(t *mc.T, k *rkind, m message, text bool) []byte {
	out, err := m.MarshalVT()
	if err != nil || m.SizeVT() != len(out) {
		t.Failf("%s: MarshalVT gives %d bytes (%v), SizeVT %d", fields(m), len(out), err, m.SizeVT())
		return nil
	}
	for _, room := range []int{0, 3} {
		buf := bytes.Repeat([]byte{0xee}, len(out)+room)
		n, err := m.MarshalToVT(buf)
		if err != nil || n != len(out) || !bytes.Equal(buf[:n], out) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xee}, room)) {
			t.Failf("%s: MarshalToVT gives %x (%v), MarshalVT %x", fields(m), buf, err, out)
		}
		buf = bytes.Repeat([]byte{0xee}, len(out)+room)
		n, err = m.MarshalToSizedBufferVT(buf)
		if err != nil || n != len(out) || !bytes.Equal(buf[room:], out) || !bytes.Equal(buf[:room], bytes.Repeat([]byte{0xee}, room)) {
			t.Failf("%s: MarshalToSizedBufferVT gives %x (%v), MarshalVT %x", fields(m), buf, err, out)
		}
	}
	m2 := k.new()
	if err := m2.UnmarshalVT(out); err != nil || fields(m2) != fields(m) || !m.EqualMessageVT(m2) || !m2.EqualMessageVT(m) {
		t.Failf("%s decodes from its own encoding %x as %s (%v)", fields(m), out, fields(m2), err)
	}
	c := m.CloneMessageVT()
	if !m.EqualMessageVT(c) || fields(c) != fields(m) {
		t.Failf("%s: clone is %s", fields(m), fields(c))
	}
	scribble(reflect.ValueOf(c))
	if again, err := m.MarshalVT(); err != nil || !bytes.Equal(again, out) {
		t.Failf("%s: after its clone was changed the message is encoded as %x instead of %x (%v)", fields(m), again, out, err)
	}
	if text {
		j, err := m.MarshalJSON()
		m3 := k.new()
		if err == nil {
			err = m3.UnmarshalJSON(j)
		}
		if err != nil || fields(m3) != fields(m) {
			t.Failf("%s: JSON %s decodes as %s (%v)", fields(m), j, fields(m3), err)
		}
		_ = m.String()
	}
	return out
}

// ---- packets ----

var strs = []string{"", "s", "a/b.C", " \n", "%s%", strings.Repeat("x", 127), strings.Repeat("y", 128), "é\x00\"", strings.Repeat("z", 16384)}
var blobs = [][]byte{nil, {}, {0}, {0xff, 0x80}, bytes.Repeat([]byte{7}, 127), bytes.Repeat([]byte{8}, 128), bytes.Repeat([]byte{9}, 16400)}

// refValidate is the reference of Validate.
func refValidate(p *srpc.Packet) bool {
	switch b := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		return b.CallStart.GetRpcService() != "" && b.CallStart.GetRpcMethod() != ""
	case *srpc.Packet_CallData:
		d := b.CallData
		return len(d.GetData()) != 0 || d.GetDataIsZero() || d.GetComplete() || d.GetError() != ""
	case *srpc.Packet_CallCancel:
		return true
	}
	return false
}

func (m *rmsg) with(num int, x any) *rmsg {
	switch v := x.(type) {
	case []byte:
		m.b[num] = v
	case string:
		m.b[num] = []byte(v)
	case bool:
		m.v[num] = v
	case *rmsg:
		m.sub[num] = v
	}
	if m.kind.oneof {
		m.oneof = num
	}
	return m
}

func init() {
	reg(&mc.Scenario{Prop: "P11", Name: "packets", Quick: 0, Thorough: 0,
		Doc: "every packet over alphabets of field values (empty, short, around the length-prefix sizes, not ASCII): encoders against a reference encoder, decoders, size, clone, equality, JSON, validation",
		Main: func(t *mc.T) {
			which, si := t.Choose(6), t.Choose(len(strs))
			mc.Quiet(func() {
				switch which {
				case 0:
					sv := strs[si]
					for _, mt := range strs {
						for _, d := range blobs {
							for _, z := range []bool{false, true} {
								cs := &srpc.CallStart{RpcService: sv, RpcMethod: mt, Data: d, DataIsZero: z}
								rs := newRmsg(kStart).with(1, sv).with(2, mt).with(3, d).with(4, z)
								check11(t, kStart, cs, rs)
								p := &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: cs}}
								check11(t, kPacket, p, newRmsg(kPacket).with(1, rs))
								valid11(t, p)
								p2 := srpc.NewCallStartPacket(sv, mt, d, z)
								if !p2.EqualVT(p) && !(len(d) == 0) {
									t.Failf("NewCallStartPacket builds %s, want %s", fields(p2), fields(p))
								}
							}
						}
					}
				case 1:
					e := strs[si]
					for _, d := range blobs {
						for _, z := range []bool{false, true} {
							for _, c := range []bool{false, true} {
								cd := &srpc.CallData{Data: d, DataIsZero: z, Complete: c, Error: e}
								rs := newRmsg(kData).with(1, d).with(2, z).with(3, c).with(4, e)
								check11(t, kData, cd, rs)
								p := &srpc.Packet{Body: &srpc.Packet_CallData{CallData: cd}}
								check11(t, kPacket, p, newRmsg(kPacket).with(2, rs))
								valid11(t, p)
								var err error
								if e != "" {
									err = errors.New(e)
								}
								p2 := srpc.NewCallDataPacket(d, z, c, err)
								want := fields(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: d, DataIsZero: z, Complete: c || e != "", Error: e}}})
								if fields(p2) != want {
									t.Failf("NewCallDataPacket builds %s, want %s", fields(p2), want)
								}
							}
						}
					}
				case 2:
					for _, c := range []bool{false, true} {
						p := &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: c}}
						check11(t, kPacket, p, newRmsg(kPacket).with(3, c))
						valid11(t, p)
					}
					if f := fields(srpc.NewCallCancelPacket()); f != "Packet{3:true}" {
						t.Failf("NewCallCancelPacket builds %s", f)
					}
					check11(t, kPacket, &srpc.Packet{}, newRmsg(kPacket))
					valid11(t, &srpc.Packet{})
					valid11(t, nil)
					valid11(t, &srpc.Packet{Body: &srpc.Packet_CallStart{}})
					valid11(t, &srpc.Packet{Body: &srpc.Packet_CallData{}})
				case 3:
					for _, s := range strs {
						ri := newRmsg(kInit).with(1, s)
						in := &rpcstream.RpcStreamInit{ComponentId: s}
						check11(t, kInit, in, ri)
						check11(t, kRpc, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: in}}, newRmsg(kRpc).with(1, ri))
						ra := newRmsg(kAck).with(1, s)
						ack := &rpcstream.RpcAck{Error: s}
						check11(t, kAck, ack, ra)
						check11(t, kRpc, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: ack}}, newRmsg(kRpc).with(2, ra))
					}
				case 4:
					for _, d := range blobs {
						check11(t, kRpc, &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: d}}, newRmsg(kRpc).with(3, d))
					}
					check11(t, kRpc, &rpcstream.RpcStreamPacket{}, newRmsg(kRpc))
				case 5:
					// different messages are different
					var all []message
					for _, s := range alphabet {
						if s.pkt != nil {
							all = append(all, s.pkt)
						}
					}
					for i, a := range all {
						for j, b := range all {
							if eq := a.EqualMessageVT(b); eq != (fields(a) == fields(b)) || i == j && !eq {
								t.Failf("%s and %s: equal=%v", fields(a), fields(b), eq)
							}
						}
					}
				}
			})
			t.Outcome("ok")
		}})
	reg(&mc.Scenario{Prop: "P11", Name: "byte-strings", Quick: 0, Thorough: 0, Weight: 2,
		Doc: "every byte string of up to 4 (thorough: 5) bytes over 23 wire-relevant bytes, and all of up to 2 bytes over all 256, decoded as every message type, against a reference decoder",
		Main: func(t *mc.T) {
			alpha := []byte{0, 1, 2, 3, 4, 8, 9, 0x0a, 0x0d, 0x10, 0x12, 0x18, 0x1a, 0x20, 0x22, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7f, 0x80, 0xff}
			depth := 4
			if t.Tier == "thorough" {
				depth = 5
			}
			k := kinds[t.Choose(len(kinds))]
			var n [3]int
			a := t.Choose(len(alpha) + 1)
			mc.Quiet(func() {
				if a == len(alpha) {
					for x := 0; x < 256; x++ {
						decodeOne(t, k, []byte{byte(x)}, &n)
						for y := 0; y < 256; y++ {
							decodeOne(t, k, []byte{byte(x), byte(y)}, &n)
						}
					}
				} else {
					var rec func(b []byte)
					rec = func(b []byte) {
						decodeOne(t, k, b, &n)
						if len(b) < depth && !t.Failed() {
							for _, x := range alpha {
								rec(append(b, x))
							}
						}
					}
					rec(append(make([]byte, 0, depth), alpha[a]))
				}
			})
			for v, x := range n {
				if x != 0 {
					t.Outcome("%s", []string{"valid", "invalid", "unspecified"}[v])
				}
			}
		}})
	reg(&mc.Scenario{Prop: "P11", Name: "mutations", Quick: 0, Thorough: 0,
		Doc: "every truncation, every single-byte replacement (all 256 values), every insertion and removal of a byte in valid encodings of every kind, also with unknown fields and repeated fields",
		Main: func(t *mc.T) {
			type sample struct {
				k *rkind
				b []byte
			}
			var s []sample
			for _, x := range alphabet {
				if x.pkt != nil {
					s = append(s, sample{kPacket, enc(x.pkt)})
				}
			}
			full := enc(srpc.NewCallStartPacket("svc", "mth", []byte("data"), true))
			fd := enc(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: []byte("data"), DataIsZero: true, Complete: true, Error: "err"}}})
			s = append(s, sample{kPacket, full}, sample{kPacket, fd}, sample{kPacket, append(append([]byte{}, full...), fd...)},
				sample{kPacket, append(append([]byte{}, full...), full...)}, sample{kPacket, append([]byte{0x7a, 1, 'u', 0x78, 5, 0x7d, 1, 2, 3, 4}, fd...)},
				sample{kStart, full[2:]}, sample{kData, fd[2:]},
				sample{kRpc, []byte{0x0a, 3, 0x0a, 1, 'c'}}, sample{kRpc, []byte{0x12, 3, 0x0a, 1, 'e'}}, sample{kRpc, []byte{0x1a, 2, 1, 2}},
				sample{kRpc, []byte{0x0a, 3, 0x0a, 1, 'c', 0x1a, 0, 0x81, 1, 1, 2, 3, 4, 5, 6, 7, 8}})
			x := s[t.Choose(len(s))]
			var n [3]int
			mc.Quiet(func() {
				for i := 0; i <= len(x.b); i++ {
					decodeOne(t, x.k, x.b[:i], &n)
					for v := 0; v < 256; v++ {
						ins := append(append(append([]byte{}, x.b[:i]...), byte(v)), x.b[i:]...)
						decodeOne(t, x.k, ins, &n)
						if i < len(x.b) {
							rep := append([]byte{}, x.b...)
							rep[i] = byte(v)
							decodeOne(t, x.k, rep, &n)
							// and the next byte with continuation values
							for _, w := range []byte{0, 0x7f, 0x80, 0xff} {
								if i+1 < len(x.b) {
									r2 := append([]byte{}, rep...)
									r2[i+1] = w
									decodeOne(t, x.k, r2, &n)
								}
							}
						}
					}
					if i < len(x.b) {
						decodeOne(t, x.k, append(append([]byte{}, x.b[:i]...), x.b[i+1:]...), &n)
					}
				}
			})
			t.Outcome("%v %v %v", n[0] != 0, n[1] != 0, n[2] != 0)
		}})
	reg(&mc.Scenario{Prop: "P11", Name: "handler", Quick: 0, Thorough: 0,
		Doc: "NewPacketDataHandler over valid and malformed packets and failing handlers",
		Main: func(t *mc.T) {
			s := alphabet[t.Choose(len(alphabet))]
			fails := t.Bool()
			if len(s.wire) <= 4 || s.name == "too-long" {
				return
			}
			calls := 0
			var got *srpc.Packet
			err := srpc.NewPacketDataHandler(func(p *srpc.Packet) error {
				calls++
				got = p
				if fails {
					return errHandler
				}
				return nil
			})(s.wire[4:])
			if s.pkt == nil && s.name == "malformed" {
				if calls != 0 || err == nil {
					t.Failf("%s: handler called %d times, error %v", s.name, calls, err)
				}
				return
			}
			if calls != 1 || (err == nil) == fails || s.pkt != nil && fields(got) != fields(s.pkt) {
				t.Failf("%s: handler called %d times with %s, error %v", s.name, calls, fields(got), err)
			}
			t.Outcome("%v", fails)
		}})
}

func check11(t *mc.T, k *rkind, m message, ref *rmsg) {
	mc.Case()
	out := reencode(t, k, m, !bytes.Contains(ref.encode(), []byte("\x00\"")))
	if want := ref.encode(); !bytes.Equal(out, want) {
		t.Failf("%s encodes to %s, want %s", fields(m), brief(out), brief(want))
	}
	var n [3]int
	decodeOne(t, k, out, &n)
}

func valid11(t *mc.T, p *srpc.Packet) {
	defer func() {
		if e := recover(); e != nil {
			t.Failf("Validate panics on %s: %v", fields(p), e)
		}
	}()
	if err := p.Validate(); (err == nil) != refValidate(p) {
		t.Failf("Validate(%s) = %v", fields(p), err)
	}
}
