package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// rawModel drives a RawMessage and a reference value.
type rawModel struct {
	t     *mc.T
	m     *srpc.RawMessage
	copy  bool
	val   []byte // copy mode: the value; otherwise the retained buffer itself
	ins   [][]byte
	outs  [][]byte
	were  []string // copy mode: what the outputs contain
	trace []string

	inputs []string // instead of rawInputs
}

var rawInputs = []string{"", "a", "bcd", "efghi"}

func briefStr(s string) string {
	if len(s) > 16 {
		return fmt.Sprintf("%d bytes", len(s))
	}
	return s
}

func (r *rawModel) fail(f string, a ...any) {
	r.t.Failf("copy=%v %v: %s", r.copy, r.trace, fmt.Sprintf(f, a...))
}

func (r *rawModel) step(op int) {
	name := ""
	switch {
	case op < 8:
		in := rawInputs[op%4]
		if r.inputs != nil {
			in = r.inputs[op%4]
		}
		b := []byte(in)
		r.ins = append(r.ins, b)
		if op < 4 {
			name = "set(" + briefStr(in) + ")"
			r.m.SetData(b)
		} else {
			name = "decode(" + briefStr(in) + ")"
			if err := r.m.UnmarshalVT(b); err != nil {
				r.fail("UnmarshalVT: %v", err)
			}
		}
		if r.copy {
			r.val = append([]byte{}, b...)
		} else {
			r.val = b
		}
	case op == 8:
		name = "clear"
		r.m.Clear()
		r.val = r.val[:0]
	case op == 9:
		name = "reset"
		r.m.Reset()
		r.val = nil
	case op == 10:
		name = "encode"
		out, err := r.m.MarshalVT()
		if err != nil || !bytes.Equal(out, r.val) {
			r.fail("MarshalVT returns %q, %v; want %q", briefStr(string(out)), err, briefStr(string(r.val)))
		}
		r.outs, r.were = append(r.outs, out), append(r.were, string(out))
	case op == 11:
		name = "scribble-inputs"
		for _, b := range r.ins {
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x20
			}
		}
	case op == 12:
		name = "scribble-outputs"
		for _, b := range r.outs {
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x10
			}
		}
		for i, b := range r.outs {
			r.were[i] = string(b)
		}
	}
	r.trace = append(r.trace, name)
	if r.copy {
		for i, b := range r.outs {
			if string(b) != r.were[i] {
				r.fail("the output %q became %q", briefStr(r.were[i]), briefStr(string(b)))
				return
			}
		}
	}
	// the value is what the reference says
	want := r.val
	if !bytes.Equal(r.m.GetData(), want) || r.m.SizeVT() != len(want) {
		r.fail("GetData is %q (size %d), want %q", briefStr(string(r.m.GetData())), r.m.SizeVT(), briefStr(string(want)))
		return
	}
	buf := make([]byte, len(want))
	if n, err := r.m.MarshalToSizedBufferVT(buf); err != nil || n != len(want) || !bytes.Equal(buf, want) {
		r.fail("MarshalToSizedBufferVT gives %q, %d, %v; want %q", briefStr(string(buf)), n, err, briefStr(string(want)))
	}
	if _, err := r.m.MarshalToSizedBufferVT(make([]byte, len(want)+1)); err == nil {
		r.fail("MarshalToSizedBufferVT accepts a buffer of the wrong size")
	}
	if !r.copy && len(want) != 0 {
		out, err := r.m.MarshalVT()
		if err != nil || len(out) != len(want) || &out[0] != &want[0] || &r.m.GetData()[0] != &want[0] {
			r.fail("the buffer is not retained as given")
		}
	}
}

func init() {
	ops := 13
	reg(&mc.Scenario{Prop: "P21", Name: "histories", Quick: 0, Thorough: 0,
		Doc: "every sequence of up to 5 (thorough: 6) operations (set/decode of four payloads, clear, reset, encode, the caller overwriting its inputs or the produced outputs) on a message in both modes, from every way of constructing it",
		Main: func(t *mc.T) {
			depth := 5
			if t.Tier == "thorough" {
				depth = 6
			}
			ctor, first := t.Choose(6), t.Choose(ops)
			mc.Quiet(func() {
				seq := make([]int, 0, depth)
				seq = append(seq, first)
				run := func() {
					mc.Case()
					r := &rawModel{t: t}
					switch ctor {
					case 0:
						r.m, r.copy = srpc.NewRawMessage(nil, true), true
					case 1:
						r.m = srpc.NewRawMessage(nil, false)
					case 2:
						r.m = new(srpc.RawMessage)
					case 3:
						r.m, r.copy, r.val = srpc.NewRawMessage([]byte("xyz"), true), true, []byte("xyz")
					case 4:
						b := []byte("xyz")
						r.m, r.val = srpc.NewRawMessage(b, false), b
					case 5:
						b := append(make([]byte, 0, 16), "xy"...)
						r.m, r.copy, r.val = srpc.NewRawMessage(b, true), true, []byte("xy")
					}
					for _, op := range seq {
						r.step(op)
						if t.Failed() {
							return
						}
					}
				}
				var rec func()
				rec = func() {
					if len(seq) == depth {
						run()
						return
					}
					for op := 0; op < ops && !t.Failed(); op++ {
						seq = append(seq, op)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
			t.Outcome("ok")
		}})
	reg(&mc.Scenario{Prop: "P21", Name: "sizes", Quick: 0, Thorough: 0,
		Doc: "every sequence of 3 (thorough: 4) of the operations with every pair of two payload sizes from 0 to 64 KiB around the powers of two (2 operations above 16 KiB), in both modes",
		Main: func(t *mc.T) {
			sizes := []int{0, 1, 7, 8, 9, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 65537}
			depth := 3
			if t.Tier == "thorough" {
				depth = 4
			}
			i, j, mode := t.Choose(len(sizes)), t.Choose(len(sizes)), t.Bool()
			if sizes[i]+sizes[j] > 1<<14 {
				depth = 2
			}
			mc.Quiet(func() {
				var seq []int
				run := func() {
					mc.Case()
					r := &rawModel{t: t, m: srpc.NewRawMessage(nil, mode), copy: mode,
						inputs: []string{strings.Repeat("a", sizes[i]), strings.Repeat("b", sizes[j])}}
					for _, op := range seq {
						r.step(op)
						if t.Failed() {
							return
						}
					}
				}
				var rec func()
				rec = func() {
					if len(seq) == depth {
						run()
						return
					}
					for _, op := range []int{0, 1, 4, 5, 8, 9, 10, 11, 12} {
						if t.Failed() {
							return
						}
						seq = append(seq, op)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
			t.Outcome("ok")
		}})
	reg(&mc.Scenario{Prop: "P21", Name: "two-messages", Quick: 0, Thorough: 0,
		Doc: "two copying messages and their outputs fed into each other in every order of up to 5 (thorough: 6) steps; changing the data of one never shows in the other",
		Main: func(t *mc.T) {
			depth := 5
			if t.Tier == "thorough" {
				depth = 6
			}
			start := t.Choose(8)
			mc.Quiet(func() {
				var seq []int
				run := func() {
					mc.Case()
					m := [2]*srpc.RawMessage{srpc.NewRawMessage(nil, true), srpc.NewRawMessage(nil, true)}
					v := [2]string{}
					in := []byte("in1")
					var tr []string
					for _, op := range seq {
						i := op & 1
						switch op >> 1 {
						case 0:
							tr = append(tr, fmt.Sprintf("m%d.decode(input)", i))
							_ = m[i].UnmarshalVT(in)
							v[i] = string(in)
						case 1:
							tr = append(tr, fmt.Sprintf("m%d.decode(m%d.encode)", i, 1-i))
							b, _ := m[1-i].MarshalVT()
							_ = m[i].UnmarshalVT(b)
							v[i] = v[1-i]
						case 2:
							tr = append(tr, fmt.Sprintf("m%d.set(m%d.data)", i, 1-i))
							m[i].SetData(m[1-i].GetData())
							v[i] = v[1-i]
						case 3:
							tr = append(tr, fmt.Sprintf("overwrite m%d.data and the input", i))
							for j := range m[i].GetData() {
								m[i].GetData()[j] = '#'
							}
							v[i] = strings.Repeat("#", len(v[i]))
							in[0]++
						}
						for k := range m {
							if string(m[k].GetData()) != v[k] {
								t.Failf("%v: m%d is %q, want %q", tr, k, m[k].GetData(), v[k])
								return
							}
						}
					}
				}
				var rec func()
				rec = func() {
					if len(seq) == depth {
						run()
						return
					}
					for op := 0; op < 8 && !t.Failed(); op++ {
						seq = append(seq, op)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				seq = append(seq, start)
				rec()
			})
			t.Outcome("ok")
		}})
}
