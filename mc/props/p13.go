package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/sirupsen/logrus"

	"verifmc/mc"
)

var errOther13 = errors.New("connection refused")

// fakeClient is a scripted client that records its calls.
type fakeClient struct {
	name string
	do   func(ctx context.Context) (srpc.Stream, error)
	log  *[]string
	ctx  context.Context
	in   srpc.Message
	out  srpc.Message
}

func (f *fakeClient) rec(kind string, ctx context.Context, svc, mth string, in, out srpc.Message) {
	e := fmt.Sprintf("%s.%s(%s,%s)", f.name, kind, svc, mth)
	if f.ctx != nil && ctx != f.ctx {
		e += " other context"
	}
	if in != f.in || out != f.out {
		e += " other messages"
	}
	*f.log = append(*f.log, e)
}

func (f *fakeClient) ExecCall(ctx context.Context, svc, mth string, in, out srpc.Message) error {
	f.rec("call", ctx, svc, mth, in, out)
	_, err := f.do(ctx)
	return err
}

func (f *fakeClient) NewStream(ctx context.Context, svc, mth string, first srpc.Message) (srpc.Stream, error) {
	f.rec("stream", ctx, svc, mth, first, f.out)
	return f.do(ctx)
}

// callBoth makes a unary or streaming call.
func callBoth(cl srpc.Client, stream bool, ctx context.Context, svc, mth string, in, out srpc.Message) (srpc.Stream, error) {
	if stream {
		return cl.NewStream(ctx, svc, mth, in)
	}
	return nil, cl.ExecCall(ctx, svc, mth, in, out)
}

func kindName(stream bool) string {
	if stream {
		return "stream"
	}
	return "call"
}

// words lists all strings over alpha up to length n.
func words(alpha string, n int) []string {
	out := []string{""}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < n {
			for _, c := range alpha {
				out = append(out, out[i]+string(c))
			}
		}
	}
	return out
}

func quietLog() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(l)
}

// entry13 is one member of a client set.
type entry13 struct {
	name string
	err  error
	// cancel makes the caller's context end during the attempt
	nilc, cancel bool
}

var entries13 = []entry13{
	{name: "nil", nilc: true},
	{name: "ok"},
	{name: "unimplemented", err: srpc.ErrUnimplemented},
	{name: "remote unimplemented", err: errors.New("unimplemented")},
	{name: "canceled", err: context.Canceled},
	{name: "canceled with the caller", err: context.Canceled, cancel: true},
	{name: "other", err: errOther13},
	{name: "deadline", err: context.DeadlineExceeded},
	{name: "eof", err: io.EOF},
	{name: "unimplemented, caller canceled", err: srpc.ErrUnimplemented, cancel: true},
}

func init() {
	reg(&mc.Scenario{Prop: "P13", Name: "prefix", Quick: 0, Thorough: 0,
		Doc: "every list of up to 3 prefixes out of 6 and every service ID of up to 4 characters over {a,b,/}: prefix client (both call kinds), prefix invoker and CheckStripPrefix against a reference",
		Main: func(t *mc.T) {
			pre := []string{"a", "ab", "b", "a/", "/", "ba/a"}
			first := t.Choose(len(pre) + 1)
			a, b := srpc.NewPipeStream(bg)
			mc.Quiet(func() {
				ids := words("ab/", 4)
				in, out := raw("in"), raw("out")
				var rec func(list []string)
				rec = func(list []string) {
					given := append([]string(nil), list...)
					log := new([]string)
					fc := &fakeClient{name: "c", log: log, ctx: bg, in: in, out: out, do: func(context.Context) (srpc.Stream, error) { return a, errOther13 }}
					pc := srpc.NewPrefixClient(fc, given)
					h := &stub{name: "h", handled: true, err: errHandler12, log: log, strm: a}
					pi := srpc.NewPrefixInvoker(h, given)
					for _, id := range ids {
						mc.Case()
						wid, wp, match := id, "", len(list) == 0
						for _, p := range list {
							if len(id) >= len(p) && id[:len(p)] == p {
								wid, wp, match = id[len(p):], p, true
								break
							}
						}
						what := fmt.Sprintf("prefixes %q, service %q", list, id)
						if gid, gp := srpc.CheckStripPrefix(id, given); gid != wid || gp != wp {
							t.Failf("%s: CheckStripPrefix = %q %q", what, gid, gp)
						}
						for _, stream := range []bool{false, true} {
							*log = nil
							s, err := callBoth(pc, stream, bg, id, "m", in, out)
							got := strings.Join(*log, " ")
							if match && (got != "c."+kindName(stream)+"("+wid+",m)" || err != errOther13 || stream && s != a) {
								t.Failf("%s: prefix client made %q, returned %v", what, got, err)
							}
							if !match && (got != "" || err == nil || err.Error() != srpc.ErrUnimplemented.Error()) {
								t.Failf("%s: prefix client made %q, returned %v; want unimplemented", what, got, err)
							}
						}
						*log = nil
						found, err := pi.InvokeMethod(id, "m", a)
						got := strings.Join(*log, " ")
						if match && (got != "h("+wid+",m)" || !found || err != errHandler12) || !match && (got != "" || found || err != nil) {
							t.Failf("%s: prefix invoker made %q, returned %v %v", what, got, found, err)
						}
					}
					for i := range list {
						if given[i] != list[i] {
							t.Failf("the prefix list was changed to %q", given)
						}
					}
					if len(list) > 0 && len(list) < 3 && !t.Failed() {
						for _, p := range pre {
							rec(append(list[:len(list):len(list)], p))
						}
					}
				}
				if first == len(pre) {
					rec(nil)
				} else {
					rec([]string{pre[first]})
				}
			})
			_ = a.Close()
			_ = b.Close()
			t.Outcome("%d", first)
		}})
	reg(&mc.Scenario{Prop: "P13", Name: "client-set", Quick: 0, Thorough: 0,
		Doc: "every client set of up to 4 (thorough: 5) members over 10 outcomes (missing, ok, unimplemented from here or the remote, cancelled alone or with the caller, deadline, end of stream, other error), both call kinds: the clients tried, in order, with unaltered arguments, and the result",
		Main: func(t *mc.T) {
			depth := 4
			if t.Tier == "thorough" {
				depth = 5
			}
			first := t.Choose(len(entries13) + 1)
			stream := t.Bool()
			a, b := srpc.NewPipeStream(bg)
			mc.Quiet(func() {
				in, out := raw("in"), raw("out")
				one := func(seq []int) {
					mc.Case()
					ctx, cancel := context.WithCancel(bg)
					defer cancel()
					log := new([]string)
					var cls []srpc.Client
					var want, what []string
					wantErr, decided, any := srpc.ErrUnimplemented, false, false
					for i, x := range seq {
						e := entries13[x]
						what = append(what, e.name)
						if e.nilc {
							cls = append(cls, nil)
							continue
						}
						any = true
						f := &fakeClient{name: fmt.Sprint(i), log: log, ctx: ctx, in: in, out: out, do: func(context.Context) (srpc.Stream, error) {
							if e.cancel {
								cancel()
							}
							if e.err != nil {
								return nil, e.err
							}
							return a, nil
						}}
						cls = append(cls, f)
						if decided {
							continue
						}
						want = append(want, fmt.Sprintf("%d.%s(s,m)", i, kindName(stream)))
						switch {
						case e.err == nil:
							decided, wantErr = true, nil
						case e.err == context.Canceled:
							for _, y := range seq[:i+1] {
								if entries13[y].cancel {
									decided, wantErr = true, context.Canceled
								}
							}
						case e.err.Error() != "unimplemented":
							decided, wantErr = true, e.err
						}
					}
					if !any {
						wantErr = srpc.ErrNoAvailableClients
					}
					s, err := callBoth(srpc.NewClientSet(cls), stream, ctx, "s", "m", in, out)
					if got := strings.Join(*log, " "); got != strings.Join(want, " ") || !errors.Is(err, wantErr) || (err == nil && stream && s != a) {
						t.Failf("client set %q: tried %q, returned %v; want %q, %v", what, got, err, want, wantErr)
					}
				}
				var rec func(seq []int)
				rec = func(seq []int) {
					one(seq)
					if len(seq) < depth && !t.Failed() {
						for x := range entries13 {
							rec(append(seq[:len(seq):len(seq)], x))
						}
					}
				}
				if first == len(entries13) {
					one(nil)
				} else {
					rec([]int{first})
				}
			})
			_ = a.Close()
			_ = b.Close()
			t.Outcome("%d %v", first, stream)
		}})
	reg(&mc.Scenario{Prop: "P13", Name: "invokers", Quick: 0, Thorough: 0,
		Doc: "every invoker list of up to 4 (thorough: 5) members (missing, not found, handled, failing, failing as handled, unimplemented as handled or not, nil function, wrapped function) against a reference",
		Main: func(t *mc.T) {
			depth := 4
			if t.Tier == "thorough" {
				depth = 5
			}
			a, b := srpc.NewPipeStream(bg)
			mc.Quiet(func() {
				var rec func(seq []int)
				rec = func(seq []int) {
					mc.Case()
					log := new([]string)
					var list srpc.InvokerSlice
					var want []string
					wf, we, decided := false, error(nil), false
					for i, x := range seq {
						h := &stub{name: fmt.Sprint(i), log: log, strm: a, handled: x == 2 || x == 4 || x == 7}
						if x == 3 || x == 4 {
							h.err = errHandler12
						}
						if x == 7 || x == 8 {
							h.err = srpc.ErrUnimplemented
						}
						switch x {
						case 0:
							list = append(list, nil)
						case 5:
							list = append(list, srpc.InvokerFunc(nil))
						case 6:
							h.handled = true
							list = append(list, srpc.InvokerFunc(h.InvokeMethod))
						default:
							list = append(list, h)
						}
						if x != 0 && x != 5 && !decided {
							want = append(want, fmt.Sprintf("%d(s,m)", i))
							if h.handled || h.err != nil {
								wf, we, decided = true, h.err, true
							}
						}
					}
					found, err := list.InvokeMethod("s", "m", a)
					if got := strings.Join(*log, " "); got != strings.Join(want, " ") || found != wf || err != we {
						t.Failf("invokers %v: invoked %q, returned %v %v; want %q %v %v", seq, got, found, err, want, wf, we)
					}
					if len(seq) < depth && !t.Failed() {
						for x := 0; x < 9; x++ {
							rec(append(seq[:len(seq):len(seq)], x))
						}
					}
				}
				rec(nil)
			})
			_ = a.Close()
			_ = b.Close()
			t.Outcome("ok")
		}})
	for _, very := range []bool{false, true} {
		very := very
		reg(&mc.Scenario{Prop: "P13", Name: fmt.Sprintf("logging-mux-%v", very), Quick: 0, Thorough: 0,
			Doc: "every sequence of up to 2 registrations, every query and call of a logged mux against the same reference as a plain one",
			Main: func(t *mc.T) {
				le := quietLog()
				mux12(t, 2, func(m srpc.Mux) srpc.Mux { return srpc.NewVMux(m, le, very) })
			}})
	}
	reg(&mc.Scenario{Prop: "P13", Name: "logging-client", Quick: 0, Thorough: 0,
		Doc: "a logged client with every outcome in both call kinds, twice in a row: same arguments, same result",
		Main: func(t *mc.T) {
			a, b := srpc.NewPipeStream(bg)
			le := quietLog()
			mc.Quiet(func() {
				for _, e := range []error{nil, errOther13, context.Canceled, srpc.ErrUnimplemented, io.EOF} {
					for _, stream := range []bool{false, true} {
						for _, in := range []srpc.Message{nil, raw("in")} {
							mc.Case()
							log := new([]string)
							out := raw("out")
							type key struct{}
							ctx := context.WithValue(bg, key{}, 1)
							fc := &fakeClient{name: "c", log: log, ctx: ctx, in: in, out: out, do: func(context.Context) (srpc.Stream, error) {
								if e != nil {
									return nil, e
								}
								return a, nil
							}}
							vc := srpc.NewVClient(fc, le)
							for i := 0; i < 2; i++ {
								*log = nil
								s, err := callBoth(vc, stream, ctx, "s", "m", in, out)
								if got := strings.Join(*log, " "); got != "c."+kindName(stream)+"(s,m)" || err != e || stream && e == nil && s != a {
									t.Failf("logged client: %q, returned %v", got, err)
								}
							}
						}
					}
				}
			})
			_ = a.Close()
			_ = b.Close()
			t.Outcome("ok")
		}})
	reg(&mc.Scenario{Prop: "P13", Name: "canceled-attempt", Quick: 3, Thorough: 5,
		Doc: "a client set whose first client blocks until its own or the caller's context ends, the caller cancelling at any moment: the caller gets the cancellation or the second client's result, the second client is tried at most once and never after the caller's cancellation was returned",
		Main: func(t *mc.T) {
			stream := t.Bool()
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			own, fail := context.WithCancel(bg)
			defer fail()
			var v mc.Var
			tried, canceled := 0, false
			c1 := &fakeClient{name: "1", log: new([]string), do: func(ctx context.Context) (srpc.Stream, error) {
				select {
				case <-ctx.Done():
				case <-own.Done():
				}
				return nil, context.Canceled
			}}
			late := false
			c2 := &fakeClient{name: "2", log: new([]string), do: func(ctx context.Context) (srpc.Stream, error) {
				v.Do(func() { tried++; late = canceled })
				return nil, nil
			}}
			set := srpc.NewClientSet([]srpc.Client{c1, nil, c2})
			var res error
			t.Go("call", func() {
				_, res = callBoth(set, stream, ctx, "s", "m", nil, nil)
			})
			who := t.Choose(3)
			if who != 1 {
				t.Go("cancel", func() { cancel(); v.Do(func() { canceled = true }) })
			}
			if who != 0 {
				t.Go("fail", func() { fail() })
			}
			t.MustFinish("the call")
			v.Do(func() {
				switch {
				case who == 0 && (res != context.Canceled || tried != 0):
					t.Failf("the caller cancelled: %v, second client tried %d times", res, tried)
				case who == 1 && (res != nil || tried != 1):
					t.Failf("the first client was cancelled: %v, second client tried %d times", res, tried)
				case res != nil && (res != context.Canceled || tried != 0) || res == nil && tried != 1:
					t.Failf("returned %v, second client tried %d times", res, tried)
				}
				t.Outcome("%d %v %d %v", who, res, tried, late)
			})
		}})
	reg(&mc.Scenario{Prop: "P13", Name: "failover", Quick: 1, Thorough: 2, Weight: 2,
		Doc: "two servers behind a client set, prefix clients and logged clients, prefix invokers in front of logged muxes: a unary call reaches the server that implements it with the stripped service, concurrently with a call to the other",
		Main: func(t *mc.T) {
			le := quietLog()
			var calls tally
			mk := func(name string, mths ...string) srpc.Client {
				m := srpc.NewVMux(srpc.NewMux(), le, false)
				h := &tagged{name: name, mths: mths, calls: &calls}
				if err := m.Register(h); err != nil {
					t.Failf("Register: %v", err)
				}
				cl, _ := viaPipe(t, srpc.NewPrefixInvoker(m, []string{"x/", "y/"}))
				return srpc.NewVClient(cl, le)
			}
			set := srpc.NewClientSet([]srpc.Client{mk("one", "m1"), mk("two", "m1", "m2")})
			pc := srpc.NewPrefixClient(set, []string{"q:", "p:"})
			call := func(mth, want string) {
				out := raw("")
				err := pc.ExecCall(bg, "p:y/svc", mth, raw("in"), out)
				if err != nil || string(out.GetData()) != want {
					t.Failf("call of %s: %q %v, want %q", mth, out.GetData(), err, want)
				}
			}
			t.Go("m1", func() { call("m1", "one/svc/m1:in") })
			t.Go("m2", func() { call("m2", "two/svc/m2:in") })
			t.MustFinish("the calls")
			if err := pc.ExecCall(bg, "p:z/svc", "m1", raw("in"), raw("")); err == nil || err.Error() != "unimplemented" {
				t.Failf("a service nobody has: %v", err)
			}
			if s := calls.String(); s != "one/svc/m1=1 two/svc/m2=1" {
				t.Failf("handlers invoked: %s", s)
			}
			t.Outcome("%s", calls.String())
		}})
}

// tagged answers a unary call with its name, the service, the method and the request.
type tagged struct {
	name  string
	mths  []string
	calls *tally
}

func (h *tagged) GetServiceID() string   { return "svc" }
func (h *tagged) GetMethodIDs() []string { return h.mths }
func (h *tagged) InvokeMethod(svc, mth string, strm srpc.Stream) (bool, error) {
	id := h.name + "/" + svc + "/" + mth
	h.calls.add("%s", id)
	in, err := recv(strm)
	if err != nil {
		return true, err
	}
	return true, strm.MsgSend(raw(id + ":" + in))
}
