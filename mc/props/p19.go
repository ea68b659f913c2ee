package props

import "verifmc/mc"

// raceOf lists the scenarios that also run under the race detector (P19), with their
// deviation bounds and weights there.
var raceOf = []struct {
	name          string
	quick, th, wt int
	thoroughOnly  bool
}{
	{"P01/echo-pipe", 1, 3, 1, false},
	{"P01/duplex-pipe", 1, 3, 1, false},
	{"P01/duplex-conn", 1, 3, 1, false},
	{"P01/duplex-mux", 0, 1, 2, false},
	{"P01/duplex-rpcstream", 1, 3, 1, false},
	{"P01/duplex-conn-cap4", 1, 2, 1, false},
	{"P01/programs", 0, 1, 2, false},
	{"P01/one-way", 1, 2, 1, false},
	{"P01/chunks", 1, 3, 1, false},
	{"P01/large", 1, 2, 2, false},
	{"P02/unary-pipe", 1, 3, 1, false},
	{"P02/stream-pipe", 1, 2, 2, false},
	{"P02/unary-conn", 1, 3, 1, false},
	{"P02/stream-conn", 1, 2, 1, false},
	{"P02/unary-mux", 0, 1, 2, false},
	{"P02/stream-mux", 0, 1, 3, false},
	{"P02/unary-rpcstream", 1, 2, 1, false},
	{"P02/stream-rpcstream", 0, 1, 2, true},
	{"P02/unary-rpcstream-ack", 1, 2, 1, false},
	{"P02/stream-rpcstream-ack", 0, 1, 2, false},
	{"P02/after-completion", 1, 3, 1, false},
	{"P03/two-calls-pipe", 1, 2, 1, false},
	{"P03/ended-neighbour-pipe", 0, 1, 2, false},
	{"P03/three-calls-pipe", 0, 1, 2, false},
	{"P03/two-calls-conn", 1, 2, 1, false},
	{"P03/ended-neighbour-conn", 1, 2, 2, false},
	{"P03/three-calls-conn", 1, 2, 2, false},
	{"P03/two-calls-mux", 0, 1, 3, false},
	{"P03/ended-neighbour-mux", 0, 1, 3, false},
	{"P03/three-calls-mux", 0, 1, 3, false},
	{"P03/two-calls-rpcstream", 0, 1, 2, true},
	{"P03/ended-neighbour-rpcstream", 0, 1, 2, true},
	{"P03/three-calls-rpcstream", 0, 1, 3, true},
	{"P03/two-calls-rpcstream-ack", 0, 1, 2, false},
	{"P03/ended-neighbour-rpcstream-ack", 0, 1, 2, false},
	{"P03/three-calls-rpcstream-ack", 0, 1, 2, false},
	{"P04/unary-pipe", 0, 1, 2, false},
	{"P04/unary-answered-pipe", 0, 1, 3, false},
	{"P04/stream-pipe", 1, 2, 2, false},
	{"P04/unary-conn", 1, 2, 2, false},
	{"P04/unary-answered-conn", 0, 1, 2, false},
	{"P04/stream-conn", 1, 2, 1, false},
	{"P04/unary-mux", 0, 1, 2, false},
	{"P04/unary-answered-mux", 0, 1, 2, false},
	{"P04/stream-mux", 0, 1, 3, false},
	{"P04/unary-rpcstream", 1, 2, 1, false},
	{"P04/unary-answered-rpcstream", 1, 3, 1, false},
	{"P04/stream-rpcstream", 0, 1, 2, true},
	{"P04/unary-rpcstream-ack", 1, 2, 1, false},
	{"P04/unary-answered-rpcstream-ack", 1, 3, 1, false},
	{"P04/stream-rpcstream-ack", 0, 1, 2, false},
	{"P04/cancel-at-io-conn", 1, 2, 1, false},
	{"P04/cancel-at-io-mux", 0, 1, 3, false},
	{"P04/cancel-at-io-rpcstream", 0, 1, 3, true},
	{"P04/cancel-at-io-rpcstream-ack", 0, 1, 3, false},
	{"P04/server-conn", 1, 3, 1, false},
	{"P04/server-mux", 0, 1, 2, false},
	{"P04/server-rpcstream", 1, 2, 2, false},
	{"P05/outcomes-conn", 1, 3, 1, false},
	{"P05/outcomes-pipe", 1, 2, 1, false},
	{"P05/outcomes-mux", 0, 1, 3, false},
	{"P05/outcomes-rpc", 1, 2, 2, false},
	{"P05/outcomes-rpcack", 1, 2, 2, false},
	{"P05/sequence-mux", 0, 1, 3, false},
	{"P05/open-failure", 1, 3, 1, false},
	{"P05/fault-conn", 0, 1, 2, false},
	{"P05/fault-rpc", 0, 1, 3, true},
	{"P05/fault-rpcack", 0, 1, 3, false},
	{"P06/stream-conn", 1, 2, 2, false},
	{"P06/unary-conn", 1, 2, 2, false},
	{"P06/stream-mux", 0, 1, 3, false},
	{"P06/unary-mux", 0, 1, 3, false},
	{"P06/stream-rpc", 0, 1, 3, true},
	{"P06/unary-rpc", 0, 1, 3, true},
	{"P06/stream-rpcack", 0, 1, 3, false},
	{"P06/unary-rpcack", 0, 1, 3, false},
	{"P07/sequences-drain", 0, 1, 3, true},
	{"P07/schedules-drain", 1, 2, 1, false},
	{"P07/sequences-early-error", 0, 1, 3, true},
	{"P07/schedules-early-error", 1, 2, 1, false},
	{"P07/sequences-hang", 0, 1, 3, true},
	{"P07/schedules-hang", 1, 2, 1, false},
	{"P07/sequences-drain-then-error", 0, 1, 3, true},
	{"P07/schedules-drain-then-error", 1, 2, 1, false},
	{"P07/direct", 1, 2, 2, false},
	{"P08/sequences-stream", 0, 1, 3, true},
	{"P08/schedules-stream", 1, 2, 2, false},
	{"P08/sequences-unary", 0, 1, 3, true},
	{"P08/schedules-unary", 1, 2, 2, false},
	{"P08/wire", 0, 1, 3, false},
	{"P09/boundary-frames", 0, 1, 2, false},
	{"P09/ends", 1, 2, 1, false},
	{"P09/maximum", 0, 1, 2, true},
	{"P10/three-writers", 1, 3, 1, false},
	{"P10/short-writes", 0, 1, 2, false},
	{"P10/errors", 1, 3, 1, false},
	{"P10/call-traffic", 1, 3, 1, false},
	{"P12/concurrent", 3, 4, 1, false},
	{"P12/registrations", 2, 4, 1, false},
	{"P12/reentrant", 1, 3, 1, false},
	{"P13/canceled-attempt", 1, 3, 1, false},
	{"P13/failover", 0, 1, 2, false},
	{"P14/routing", 0, 1, 3, false},
	{"P14/missing", 1, 2, 1, false},
	{"P14/ended", 0, 1, 2, false},
	{"P14/openings", 0, 1, 2, false},
	{"P14/answers", 0, 1, 2, false},
	{"P14/nested-twice", 0, 1, 2, false},
	{"P15/raw", 0, 1, 2, false},
	{"P15/raw-late", 0, 1, 2, false},
	{"P15/raw-openings", 0, 1, 2, false},
	{"P15/proxied-calls", 0, 1, 3, false},
	{"P15/proxied-packets", 0, 1, 2, false},
	{"P16/packet-pump", 1, 3, 1, false},
	{"P17/chunks", 1, 3, 1, false},
	{"P17/ends-with-data", 1, 2, 1, false},
	{"P17/shutdown", 1, 3, 1, false},
	{"P17/writes", 1, 3, 1, false},
	{"P17/duplex", 1, 3, 1, false},
	{"P17/deadlines", 1, 3, 1, false},
	{"P17/deadline-moved", 1, 2, 1, false},
	{"P17/short-buffer", 1, 3, 1, false},
	{"P18/streams", 0, 1, 3, false},
	{"P18/listener", 0, 1, 3, false},
	{"P18/dial-listen", 0, 1, 3, false},
	{"P18/http", 0, 1, 3, false},
	{"P20/duplex", 1, 3, 1, false},
	{"P20/backpressure", 1, 3, 1, false},
	{"P20/stop", 1, 3, 1, false},
	{"P20/peer-gone", 1, 3, 1, false},
}

// races makes the P19 copies of the scenarios above. Only reports of the race detector (and
// process crashes) count there: everything else is reported by the original. The cheap ones
// also get a copy in their own property: exploring the interleavings of synchronizing
// operations only covers all schedules if the plain accesses between them do not race.
func races(l []*mc.Scenario) (out []*mc.Scenario) {
	by := map[string]*mc.Scenario{}
	for _, s := range l {
		by[s.Prop+"/"+s.Name] = s
	}
	for _, r := range raceOf {
		c := *by[r.name]
		c.Prop, c.Name = "P19", r.name[:3]+"-"+r.name[4:]
		c.Quick, c.Thorough, c.Weight = r.quick, r.th, r.wt
		c.Race, c.RaceOnly, c.ThoroughOnly = true, true, r.thoroughOnly
		c.Doc = "under the race detector: " + c.Doc
		out = append(out, &c)
		if r.quick > 0 && by[r.name+"-race"] == nil {
			o := c
			o.Prop, o.Name, o.Weight = r.name[:3], r.name[4:]+"-race", 1
			o.Quick, o.Thorough = 0, 1
			if o.Prop == "P17" {
				o.Quick = 1
			}
			out = append(out, &o)
		}
	}
	return out
}
