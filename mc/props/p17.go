package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/aperturerobotics/starpc/srpc"

	"verifmc/mc"
)

// readConn reads until an error with buffers of 2048 bytes.
func readConn(c io.Reader) (got []byte, err error) {
	buf := make([]byte, 2048)
	for i := 0; i < 64; i++ {
		n, err := c.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			return got, err
		}
	}
	return got, errors.New("endless")
}

var errCloseFails = errors.New("close failed")

// closeFails reports an error when it is closed.
type closeFails struct {
	io.ReadWriteCloser
	fails bool
}

func (c *closeFails) Close() error {
	err := c.ReadWriteCloser.Close()
	if c.fails {
		return errCloseFails
	}
	return err
}

func init() {
	reg(&mc.Scenario{Prop: "P17", Name: "chunks", Quick: 2, Thorough: 4, Weight: 2,
		Doc: "the peer writes up to 4 chunks (1 byte to more than a buffer) and ends orderly or by reset; buffers of 1 or 2 packets; the reader compares every byte, buffers are recycled while the pump runs",
		Main: func(t *mc.T) {
			c, a, b := newConn(t)
			keep := t.Bool()
			size := 1 + t.Choose(2)
			cut := t.Bool()
			if cut {
				c.chunk = func(n int) int { return n - t.Deviate(2)*(n/2) }
			}
			rc := srpc.NewRwcConn(context.Background(), a, nil, nil, size)
			var sent []byte
			t.Go("peer", func() {
				for i := 0; i < 4; i++ {
					p := payload(i+1, []int{1, 40, 2100, 3}[i])
					sent = append(sent, p...)
					_, _ = b.Write(p)
				}
				if keep {
					_ = b.Close()
				} else {
					c.v.Do(func() { c.dead, c.failKeep = errReset, true })
				}
			})
			var got []byte
			t.Go("reader", func() {
				var err error
				got, err = readConn(rc)
				want := error(io.EOF)
				if !keep {
					want = errReset
				}
				if err != want {
					t.Failf("read ended with %v, want %v", err, want)
				}
			})
			if t.MustFinish("reader") && !bytes.Equal(got, sent) {
				t.Failf("read %s, want %s", brief(got), brief(sent))
			}
			t.Outcome("%d", len(got))
			_ = rc.Close()
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "ends-with-data", Quick: 1, Thorough: 3,
		Doc: "a source whose last bytes come together with EOF or an error, with empty reads, read through the wrapper",
		Main: func(t *mc.T) {
			end := []error{io.EOF, errReset}[t.Choose(2)]
			s := &source{data: payload(1, t.Choose(5)), end: end, withData: t.Bool()}
			empty := 0
			s.pick = func(_, n int) int {
				k := t.Choose(n + 1)
				if k == n {
					if empty++; empty < 3 {
						return -1
					}
					return n
				}
				return n - k
			}
			rc := srpc.NewRwcConn(context.Background(), s, nil, nil, 1)
			got, err := readConn(rc)
			if !bytes.Equal(got, s.data) || err != end {
				t.Failf("read %x then %v, want %x then %v", got, err, s.data, end)
			}
			// the end is sticky
			if _, err := rc.Read(make([]byte, 8)); err != end {
				t.Failf("a later read returned %v", err)
			}
			t.Outcome("%d", len(got))
			_ = rc.Close()
			t.MustFinish("end")
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "shutdown", Quick: 3, Thorough: 5, Weight: 2, BlockCost: mc.Free,
		Doc: "the peer writes more than fits while the connection is closed, or its context cancelled and the stream closed, at any moment, with or without a reader, the stream reporting an error when it is closed or not; readers return and no goroutine remains",
		Main: func(t *mc.T) {
			_, a, b := newConn(t)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			how, reader := t.Choose(3), t.Choose(3)
			fails := t.Bool()
			rc := srpc.NewRwcConn(ctx, &closeFails{a, fails}, nil, nil, 1)
			want := []byte("abc")
			t.Go("peer", func() {
				for i := range want {
					if _, err := b.Write(want[i : i+1]); err != nil {
						return
					}
				}
			})
			if reader != 0 {
				if reader == 2 {
					t.Idle() // the buffer is full, the pump waits
				}
				t.Go("reader", func() {
					got, err := readConn(rc)
					if !bytes.HasPrefix(want, got) {
						t.Failf("read %q", got)
					}
					if err == nil || err == io.EOF && how != 2 {
						t.Failf("read %q then %v", got, err)
					}
				})
			} else if t.Bool() {
				t.Idle()
			}
			t.Go("stop", func() {
				switch how {
				case 0:
					if err := rc.Close(); (err == errCloseFails) != fails {
						t.Failf("Close returned %v", err)
					}
				case 1:
					cancel()
				case 2:
					_ = b.Close()
				}
			})
			t.Idle()
			if p := t.Pending(); len(p) != 0 {
				t.Failf("after %s: %v still blocked", []string{"Close", "cancel", "the peer's close"}[how], p)
			}
			if how == 1 {
				if _, err := rc.Read(make([]byte, 8)); err == nil {
					// buffered data may still be read
					_, _ = rc.Read(make([]byte, 8))
				}
			}
			if how != 0 {
				_ = rc.Close()
			}
			if t.MustFinish("after the shutdown") && t.Live() != 0 {
				t.Failf("after %s: the receive pump is still running", []string{"Close", "cancel and Close", "the peer's close and Close"}[how])
			}
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "writes", Quick: 2, Thorough: 3,
		Doc: "writes of up to 5 bytes to a stream that takes any part of each write, or fails after part of it; writes while reading",
		Main: func(t *mc.T) {
			failAt := t.Choose(4)
			k := &sink{accept: func(call, n int) (int, error) {
				if call == failAt {
					return t.Choose(n + 1), errReset
				}
				return n - t.Choose(n), nil
			}}
			rc := srpc.NewRwcConn(context.Background(), k, nil, nil, 1)
			p := payload(1, t.Choose(6))
			n, err := rc.Write(p)
			if n != len(k.buf) || !bytes.Equal(k.buf, p[:n]) {
				t.Failf("write of %x reported %d, the stream got %x", p, n, k.buf)
			}
			if err == nil && n != len(p) || err != nil && err != errReset || (err != nil) != (k.dead != nil) {
				t.Failf("write of %d bytes returned %d, %v (stream: %v)", len(p), n, err, k.dead)
			}
			t.Outcome("%d %v", n, err != nil)
			_ = rc.Close()
			t.MustFinish("writes")
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "duplex", Quick: 2, Thorough: 3,
		Doc: "both ends of a stream wrapped, each writing and reading at the same time",
		Main: func(t *mc.T) {
			c, a, b := newConn(t)
			c.capacity = 3
			ends := []*srpc.RwcConn{srpc.NewRwcConn(context.Background(), a, addr{}, addr{}, 1), srpc.NewRwcConn(context.Background(), b, nil, nil, 2)}
			msg := [][]byte{[]byte("abcde"), []byte("VWXYZ")}
			for i := range ends {
				i := i
				t.Go(fmt.Sprintf("write-%d", i), func() {
					if n, err := ends[i].Write(msg[i]); n != 5 || err != nil {
						t.Failf("write: %d, %v", n, err)
					}
				})
				t.Go(fmt.Sprintf("read-%d", i), func() {
					var got []byte
					buf := make([]byte, 2048)
					for len(got) < 5 {
						n, err := ends[i].Read(buf)
						got = append(got, buf[:n]...)
						if err != nil {
							t.Failf("read: %v", err)
							return
						}
					}
					if !bytes.Equal(got, msg[1-i]) {
						t.Failf("read %q, want %q", got, msg[1-i])
					}
				})
			}
			if t.MustFinish("duplex") && (ends[0].LocalAddr() == nil || ends[0].RemoteAddr() == nil || ends[1].LocalAddr() != nil) {
				t.Failf("addresses are not the given ones")
			}
			_ = ends[0].Close()
			_ = ends[1].Close()
			t.MustFinish("close")
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "deadlines", Quick: 2, Thorough: 4,
		Doc: "a read deadline in the past, in the future or cleared, set through either setter, with and without data arriving before it, against close and cancellation",
		Main: func(t *mc.T) {
			_, a, b := newConn(t)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			rc := srpc.NewRwcConn(ctx, a, nil, nil, 2)
			when, both, arrives := t.Choose(3), t.Bool(), t.Choose(3)
			var dl time.Time
			switch when {
			case 0:
				dl = time.Now().Add(-time.Second)
			case 1:
				dl = time.Now().Add(50 * time.Millisecond)
			}
			set := rc.SetReadDeadline
			if both {
				set = rc.SetDeadline
			}
			if err := set(dl); err != nil {
				t.Failf("SetDeadline: %v", err)
			}
			if arrives == 1 {
				_, _ = b.Write([]byte("x"))
				t.Idle()
			}
			returned := false
			var n int
			var err error
			buf := make([]byte, 2048)
			t.Go("reader", func() {
				n, err = rc.Read(buf)
				returned = true
			})
			if arrives == 2 {
				t.Go("late data", func() {
					time.Sleep(20 * time.Millisecond)
					_, _ = b.Write([]byte("x"))
				})
			}
			if when == 2 && arrives == 0 {
				t.Idle()
				if returned {
					t.Failf("read without a deadline and data returned %d, %v", n, err)
				}
				if t.Bool() {
					cancel()
				} else {
					_ = rc.Close()
				}
			}
			time.Sleep(200 * time.Millisecond) // virtual time
			t.MustFinish("read with a deadline")
			ok := n == 1 && err == nil && buf[0] == 'x'
			timedOut := n == 0 && errors.Is(err, os.ErrDeadlineExceeded)
			switch {
			case when == 0 && arrives == 1: // both are true
				if !ok && !timedOut {
					t.Failf("read returned %d, %v", n, err)
				}
			case when == 0 || when == 1 && arrives == 0:
				if !timedOut {
					t.Failf("read past its deadline returned %d, %v", n, err)
				}
			case arrives != 0:
				if !ok {
					t.Failf("read returned %d, %v although data arrived in time", n, err)
				}
			default:
				if n != 0 || err == nil || timedOut {
					t.Failf("read from a closed connection returned %d, %v", n, err)
				}
			}
			// after an expired deadline, a new one works
			if timedOut && arrives == 0 {
				_ = rc.SetReadDeadline(time.Time{})
				_, _ = b.Write([]byte("y"))
				if n, err := rc.Read(buf); n != 1 || err != nil || buf[0] != 'y' {
					t.Failf("read after clearing the deadline returned %d, %v", n, err)
				}
			}
			t.Outcome("%d %d %s", when, arrives, errStr(err))
			_ = rc.Close()
			t.MustFinish("close")
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "deadline-moved", Quick: 2, Thorough: 4,
		Doc: "the read deadline is set, expired, extended or cleared through either setter once or twice while a read is blocked, with and without data in time",
		Main: func(t *mc.T) {
			_, a, b := newConn(t)
			rc := srpc.NewRwcConn(bg, a, nil, nil, 2)
			t0 := time.Now()
			abs := func(k int) time.Time {
				if k == 0 {
					return time.Time{}
				}
				return t0.Add([]time.Duration{0, -time.Second, 50 * time.Millisecond, 100 * time.Millisecond}[k])
			}
			first := t.Choose(4)
			if first != 0 {
				_ = rc.SetReadDeadline(abs(first))
			}
			var n int
			var err error
			var took time.Duration
			t.Go("reader", func() {
				n, err = rc.Read(make([]byte, 64))
				took = time.Since(t0)
			})
			blocked := t.Bool()
			if blocked {
				t.Idle()
			}
			seq := []int{first}
			for i := 0; i < 2; i++ {
				k := t.Choose(5)
				if k == 4 {
					break
				}
				seq = append(seq, k)
				set := rc.SetReadDeadline
				if t.Bool() {
					set = rc.SetDeadline
				}
				t.Go("setter", func() { _ = set(abs(k)); _ = rc.SetWriteDeadline(t0) })
				t.Idle()
			}
			last := seq[len(seq)-1]
			past := false
			for i, k := range seq {
				// a deadline replaced before the read began does not count
				past = past || k == 1 && (i != 0 || blocked || len(seq) == 1)
			}
			data := t.Bool()
			if data {
				t.Go("data", func() { time.Sleep(75 * time.Millisecond); _, _ = b.Write([]byte("x")) })
			}
			time.Sleep(time.Second) // virtual time
			what := fmt.Sprintf("deadlines %v, data %v", seq, data)
			if pending(t, "reader") {
				if past || last != 0 || data {
					t.Failf("%s: the read is still blocked", what)
				}
				_ = rc.SetReadDeadline(time.Now().Add(-1))
				t.Idle()
				if err != os.ErrDeadlineExceeded {
					t.Failf("%s: an expired deadline does not end a blocked read: %d %v", what, n, err)
				}
			} else {
				timedOut := n == 0 && errors.Is(err, os.ErrDeadlineExceeded)
				ok := n == 1 && err == nil
				switch {
				case first == 1 && !blocked && timedOut && took == 0:
				case past:
					if !timedOut || took != 0 {
						t.Failf("%s: read returned %d, %v after %v", what, n, err, took)
					}
				case last == 2 || last == 3 && !data:
					want := []time.Duration{0, 0, 50 * time.Millisecond, 100 * time.Millisecond}[last]
					if !timedOut || took != want {
						t.Failf("%s: read returned %d, %v after %v", what, n, err, took)
					}
				default:
					if !ok || took != 75*time.Millisecond {
						t.Failf("%s: read returned %d, %v after %v", what, n, err, took)
					}
				}
			}
			t.Outcome("%v %s", took, errStr(err))
			_ = rc.Close()
			t.MustFinish("close")
		}})
	reg(&mc.Scenario{Prop: "P17", Name: "short-buffer", Quick: 1, Thorough: 2,
		Doc: "reads into buffers smaller than the chunk report it, and never more than was read",
		Main: func(t *mc.T) {
			_, a, b := newConn(t)
			rc := srpc.NewRwcConn(context.Background(), a, nil, nil, 2)
			n := 1 + t.Choose(4)
			_, _ = b.Write(payload(1, n))
			buf := make([]byte, t.Choose(6))
			k, err := rc.Read(buf)
			if len(buf) >= n && (k != n || err != nil || !bytes.Equal(buf[:k], payload(1, n))) ||
				len(buf) < n && (k != len(buf) || err != io.ErrShortBuffer || !bytes.Equal(buf, payload(1, n)[:k])) {
				t.Failf("read of a chunk of %d into %d bytes returned %d, %v, %x", n, len(buf), k, err, buf)
			}
			_, _ = b.Write([]byte("next"))
			got := make([]byte, 8)
			if k, err := rc.Read(got); err != nil || string(got[:k]) != "next" {
				t.Failf("next chunk is %q, %v", got[:k], err)
			}
			_ = rc.Close()
			t.MustFinish("close")
		}})
}
