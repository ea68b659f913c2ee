#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so they stay in step)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))

E2E = "The end-to-end tests run one call at a time over net.Pipe under whatever schedule the Go runtime happens to pick"

prop("P01", "Stream messages arrive exactly once, in order, unaltered, then end-of-stream",
 "On a streaming call each side receives exactly the messages the other side sent, byte for byte and in sending order, including zero-length messages and a first message that travels with the call start. After the client half-closes, the handler reads all of them and then end-of-stream; after the handler returns success, the client reads all of its messages and then end-of-stream. This holds for every interleaving of the two senders and two receivers, every way the transport splits the byte stream, and for receivers that read late.",
 ["schedules", "inputs"], "all schedules of both senders, receivers and read pumps; all message sequences; all transport chunkings",
 E2E + " and with messages of one shape; interleavings of half-close, completion and late reads are not reached.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/msg-stream.go", "srpc/packet-rw.go", "srpc/client.go"],
 [("incoming queue drained before the terminal result", "srpc/common-rpc.go ReadOne"), ("zero-length marker", "srpc/common-rpc.go WriteCallData, srpc/packet.go"), ("length-prefixed framing", "srpc/packet-rw.go")],
 ["Stream.MsgRecv", "Stream.MsgSend", "Stream.CloseSend"],
 [("dataQueue/dataClosed", "received messages not yet read; no more will arrive", "srpc/common-rpc.go")])

prop("P02", "The client observes exactly the outcome the handler produced, once and for all",
 "A unary call returns the handler's response; a handler error (with a non-empty text) reaches the client as an error with the same text after all messages sent before it; a method nobody handles yields 'unimplemented'. A call that the server completed successfully ends with end-of-stream. Once a call was completed its result never changes, whatever packets, stream errors or repeated reads follow.",
 ["schedules", "programs"], "all schedules; all handler behaviours (messages sent, success, error, unhandled) in all call kinds",
 E2E + "; they do not vary when the result, the transport close and the reader meet.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/client.go"],
 [("completion packet", "srpc/server-rpc.go invokeRPC"), ("terminal result", "srpc/common-rpc.go HandleCallData/ReadOne"), ("first result wins", "srpc/client-rpc.go HandleStreamClose")],
 ["Client.ExecCall", "Stream.MsgRecv"],
 [("remoteErr", "terminal error of the call", "srpc/common-rpc.go")])

prop("P03", "Concurrent calls on one client are isolated from each other",
 "Calls that overlap on the same client and connection never exchange messages, results or errors: each call invokes exactly one handler with exactly the requested service and method, and gets that handler's output. Cancelling or failing one call leaves the others' delivery and results unaffected, and a call that is stuck, also while it is being opened, holds up no other call.",
 ["schedules"], "all schedules of two to three overlapping calls (unary, streaming, cancelled, failing), over pipes and over one multiplexed connection",
 "The tests never overlap two calls on one client.",
 ["srpc/client.go", "srpc/server.go", "srpc/muxed-conn.go", "srpc/server-pipe.go", "srpc/packet-rw.go"],
 [("one stream per call", "srpc/client.go, srpc/muxed-conn.go"), ("one handler goroutine per stream", "srpc/server.go HandleStream")],
 ["Client.ExecCall", "Client.NewStream", "Invoker.InvokeMethod"])

prop("P04", "Cancelling or closing a call unblocks both sides",
 "When the client's call context is cancelled or its stream is closed, a pending or later receive of that call returns (with a cancellation error if the context was cancelled, unless the call had been completed or its stream had already ended) and a pending unary call returns. Once the client's receive, unary call or Close returned, the handler's context on the server is cancelled and its pending receive returns with an error or end-of-stream. When the server's context is cancelled or the handler closes its stream, the handler's context is cancelled and the client's pending receive returns. After the caller's context has ended, by cancellation or its deadline, sending on the stream fails as well; so does sending in a handler whose context has ended. As long as the transport accepts data, no operation on the call stays blocked.",
 ["schedules"], "every point at which the cancellation can happen relative to every other step of the call, in all call kinds and over every transport",
 "One test cancels one call at one point; a lost wakeup needs a specific interleaving of cancel and wait.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/msg-stream.go", "srpc/server-rpc.go", "srpc/server.go", "srpc/client.go"],
 [("context watched while waiting", "srpc/common-rpc.go ReadOne"), ("cancel packet and transport close", "srpc/msg-stream.go Close, srpc/common-rpc.go closeLocked"), ("handler context", "srpc/server-rpc.go NewServerRPC")],
 ["Stream.MsgRecv", "Stream.Close", "Stream.Context", "Client.ExecCall"])

prop("P05", "A finished call releases everything it held",
 "After a call has ended and the client has closed its stream (or a unary call has returned), no goroutine, context registration on the caller's context, or open transport stream of that call remains on either side. This holds for every outcome: success, handler error, cancellation, transport failure, failure to open the transport, failure to send the call start.",
 ["schedules", "fault_sequences"], "all schedules and all outcomes, including an I/O error at any step",
 "No test looks for leaked goroutines, contexts or streams.",
 ["srpc/client.go", "srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/server-rpc.go", "srpc/server.go", "srpc/msg-stream.go"],
 [("deferred close of the unary call", "srpc/client.go ExecCall"), ("closeLocked", "srpc/common-rpc.go"), ("writer close after the handler", "srpc/server-rpc.go invokeRPC")],
 ["goroutines alive at quiescence", "children registered on the caller's context", "Close of the transport ends"])

prop("P06", "A transport failure at any step ends the call on both sides without corruption",
 "If the transport fails at any single read or write, or the connection is dropped, every pending and every later operation of the call on both sides returns instead of blocking, and the handler's context is cancelled. The messages delivered before are a prefix of those sent, and a unary call reports success only with the complete response of a handler that succeeded. On a direct (neither multiplexed nor nested) stream, the connection's error is reported to a client whose call had not been completed.",
 ["fault_sequences", "schedules"], "a failure injected at every I/O operation of the call (reset, loss of in-flight data, orderly close), combined with schedules",
 "No test injects a transport failure.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/packet-rw.go", "srpc/client.go"],
 [("stream close handling", "srpc/common-rpc.go HandleStreamClose"), ("read pump reports its end", "srpc/packet-rw.go ReadPump"), ("write error fails the start", "srpc/client-rpc.go Start")],
 ["Stream.MsgRecv", "Stream.MsgSend", "Client.ExecCall", "Stream.Context"])

prop("P07", "The server obeys the call protocol for every sequence of incoming packets",
 "Whatever sequence of well-formed or malformed packets a peer sends on a stream, the server never panics, invokes at most one handler for it, with exactly the service and method of the first valid call start, and hands it exactly the data that precedes the first completion, error or cancellation, in order. A protocol error (a second start, data after completion, an unknown, empty or incomplete packet, a start without service or method) ends the stream and cancels the handler's context; a cancellation cancels the handler.",
 ["inputs", "histories", "schedules"], "all packet sequences up to a depth over an alphabet of every packet kind and defect, compared with a reference state machine, under all schedules of packets against the handler",
 "Tests only exercise sequences the client itself produces.",
 ["srpc/server-rpc.go", "srpc/common-rpc.go", "srpc/packet.go"],
 [("single start", "srpc/server-rpc.go HandleCallStart"), ("closed flag", "srpc/common-rpc.go HandleCallData"), ("validation", "srpc/packet.go Validate")],
 ["Server.HandleStream", "ServerRPC.HandlePacket"])

prop("P08", "The client obeys the call protocol for every sequence and timing of packets",
 "Whatever sequence of well-formed or malformed packets a server sends, and even if they arrive before the client has sent its call start, the client never panics or hangs. It delivers exactly the data preceding the first completion, error or cancellation, then the matching terminal result, and rejects call starts and data after completion. A call whose stream ended before the call was started reports an error.",
 ["inputs", "histories", "schedules"], "all packet sequences up to a depth, delivered before, during and after the start of the call, compared with a reference state machine",
 "Tests only see packets the real server sends, after the call start.",
 ["srpc/client-rpc.go", "srpc/common-rpc.go", "srpc/packet.go", "srpc/client.go"],
 [("packet dispatch", "srpc/client-rpc.go HandlePacket"), ("writer set by Start", "srpc/client-rpc.go Start"), ("stream close", "srpc/common-rpc.go HandleStreamClose")],
 ["ClientRPC.HandlePacket", "Stream.MsgRecv", "Client.ExecCall"])

prop("P09", "Packet decoding is independent of how the byte stream is split",
 "For every sequence of frames and every way reads split or merge them, the packet handler receives exactly the framed payloads, in order and unaltered, each once. A zero length prefix or one above the maximum message size ends the stream with an error after the frames before it; an incomplete trailing frame is never delivered; an error from the handler or the transport is reported to the close callback exactly once.",
 ["inputs", "fault_sequences"], "all frame sequences over boundary payload sizes and all splits of the byte stream into reads (with data-and-EOF reads and zero-byte reads), against a reference decoder",
 "Tests read whole packets from net.Pipe; prefixes split across reads or several packets per read are not exercised.",
 ["srpc/packet-rw.go"],
 [("length prefix and buffer", "srpc/packet-rw.go ReadToHandler"), ("size check", "srpc/packet-rw.go maxMessageSize")],
 ["PacketReadWriter.ReadPump", "PacketReadWriter.ReadToHandler"])

prop("P10", "Each written packet becomes one contiguous, complete frame",
 "Packets written concurrently to one stream reach the transport as complete frames, one after the other, never interleaved, even if the transport accepts a write only in part. Every packet whose write reported success appears exactly once; writes of one goroutine appear in its order; a transport error is returned to the writer that hit it.",
 ["schedules", "fault_sequences"], "all schedules of two or three concurrent writers, all short-write patterns, errors at any write",
 "No test writes concurrently or through a transport with short writes.",
 ["srpc/packet-rw.go"],
 [("write mutex", "srpc/packet-rw.go WritePacket"), ("write loop", "srpc/packet-rw.go WritePacket")],
 ["PacketReadWriter.WritePacket", "bytes on the transport"])

prop("P11", "Packets and messages survive encoding; malformed bytes never panic",
 "Encoding then decoding any packet or nested-stream packet yields an equal one, the announced size equals the number of bytes produced, and all encoders agree. A decoded packet is independent of the buffer it came from, a clone of the packet it was made from. Decoding never panics, accepts what a reference wire-format parser accepts and rejects what it rejects (over-long varints, groups and a wrong wire type for a known field are left open), and skips unknown fields. Validation accepts exactly the packets that carry what their kind requires.",
 ["inputs"], "all packets over field-value alphabets; all byte strings up to a length over a wire-relevant alphabet; all single-byte and truncation mutations of valid encodings",
 "No test decodes malformed or unusual encodings.",
 ["srpc/rpcproto.pb.go", "srpc/packet.go", "rpcstream/rpcstream.pb.go"],
 [("generated codec", "srpc/rpcproto.pb.go MarshalToSizedBufferVT/UnmarshalVT"), ("validation", "srpc/packet.go Validate")],
 ["Packet.MarshalVT", "Packet.UnmarshalVT", "Packet.Validate", "RpcStreamPacket.MarshalVT"])

prop("P12", "The mux routes every call to the right handler",
 "A call is routed to the handler most recently registered for exactly that service and method; with an empty service to some handler registered for the method; otherwise to the fallback invokers in order until one handles it or fails; otherwise it is reported as not found without invoking anything. The service and method queries agree with routing. Registrations, queries and calls may run concurrently, also from within handlers, and each call sees some registration order consistent with what had completed before it.",
 ["histories", "schedules"], "all sequences of registrations and calls up to a depth over two services and two methods, plus all schedules of concurrent register/query/invoke, against a map reference",
 "One test registers one service.",
 ["srpc/mux.go", "srpc/invoker.go", "srpc/handler.go"],
 [("service and method maps", "srpc/mux.go Register/InvokeMethod"), ("lock", "srpc/mux.go rmtx"), ("fallback", "srpc/mux.go InvokeMethod")],
 ["Mux.Register", "Mux.InvokeMethod", "Mux.HasService", "Mux.HasServiceMethod"])

prop("P13", "Client and invoker combinators select and forward exactly as documented",
 "Prefix wrappers match the first configured prefix, strip exactly it, and answer unimplemented without calling anything when none matches (with no prefixes they forward unchanged). A client set tries its clients in order, moving on only when one answers unimplemented or is cancelled while the caller is not, and returns the first other outcome (unimplemented if there is none, a separate error if there are no clients); an invoker list does the same with handled-or-failed. Logging wrappers change neither arguments nor results.",
 ["inputs", "configurations", "schedules"], "all prefix lists and service IDs over a small alphabet; all outcome vectors of up to four clients or invokers, with cancellation at any point",
 "Only a prefix-free success path is tested.",
 ["srpc/client-prefix.go", "srpc/client-set.go", "srpc/client-verbose.go", "srpc/invoker-prefix.go", "srpc/strip-prefix.go", "srpc/invoker.go", "srpc/mux-verbose.go"],
 [("prefix matching", "srpc/strip-prefix.go"), ("failover loop", "srpc/client-set.go execCall"), ("invoker list", "srpc/invoker.go")],
 ["Client.ExecCall", "Client.NewStream", "Invoker.InvokeMethod"])

prop("P14", "Calls nested in a call behave like direct calls",
 "A call made through a nested-stream client reaches the invoker that the remote looked up for exactly the given component ID and behaves like a direct call (messages, results, errors, cancellation), with or without waiting for the acknowledgement; when waiting for it, only an acknowledgement without an error opens the stream. An unknown component or a lookup failure is reported to the caller as an error and no handler runs. The lookup's release function is called exactly once, after the nested stream ended; nothing stays blocked.",
 ["schedules", "inputs", "configurations"], "all schedules of one or two nested calls, with and without acknowledgement, for found, missing and failing components, all handler outcomes and cancellation points, and all malformed openings",
 "One test opens one nested call under one schedule.",
 ["rpcstream/rpcstream.go", "rpcstream/writer.go", "rpcstream/read-writer.go"],
 [("init and ack", "rpcstream/rpcstream.go OpenRpcStream/HandleRpcStream"), ("nested read pump", "rpcstream/read-writer.go ReadPump")],
 ["rpcstream.NewRpcStreamClient", "rpcstream.HandleRpcStream", "release function"])

prop("P15", "Raw and proxied nested streams relay faithfully and end cleanly",
 "Proxying a nested stream to a byte stream, or to another nested stream, delivers bytes or packets in order and unaltered in both directions (a prefix of what was sent, and all of it if the sender's side is the first to end), announces the component ID the lookup chose, and relays the acknowledgement. Lookup or connection errors are reported to the opener. When either side ends or fails both are closed, the release function runs exactly once after the relay stopped, and nothing stays blocked.",
 ["schedules", "fault_sequences", "inputs"], "all schedules of both copy directions against end, failure and cancellation of either side",
 "Raw and proxied streams have no Go test.",
 ["rpcstream/raw-stream.go", "rpcstream/proxy.go", "rpcstream/read-writer.go"],
 [("copy loops", "rpcstream/proxy.go copyRpcStreamTo, rpcstream/raw-stream.go copyRwcTo"), ("deferred release", "rpcstream/raw-stream.go, rpcstream/proxy.go")],
 ["HandleRawRpcStream", "HandleProxyRpcStream"])

prop("P16", "Byte-stream adapters preserve the byte sequence",
 "Reading a message stream through the byte-stream adapters yields exactly the concatenation of the messages' payloads for every pattern of read sizes, never losing, repeating or reordering a byte, skipping empty messages; a read returns what has arrived instead of waiting for more, and reports the stream's end or error only after all bytes before it. Each non-empty write becomes one message with exactly those bytes, and the caller may reuse its buffer afterwards.",
 ["inputs"], "all message sequences and all read-size patterns up to a bound, with end, error or remote error at any position, against a flat byte reference",
 "The adapters have no test.",
 ["srpc/stream-rwc.go", "rpcstream/read-writer.go", "rpcstream/writer.go", "srpc/message.go"],
 [("left-over buffer", "srpc/stream-rwc.go Read, rpcstream/read-writer.go Read"), ("copying write", "srpc/stream-rwc.go Write")],
 ["StreamRwc.Read/Write", "RpcStreamReadWriter.Read/Write"])

prop("P17", "The buffered connection wrapper delivers everything read and shuts down",
 "A connection built on a byte stream delivers the chunks read from it in order, unaltered even though buffers are recycled, then the stream's error or end-of-stream. Writes pass all bytes on despite short writes or return the error with the count written. A read into a buffer smaller than the chunk reports a short buffer, as packet connections do. Closing it, or cancelling its context, unblocks readers and leaves no goroutine behind once the underlying stream is closed, even if nobody reads; an expired read deadline fails with a deadline error, also one that is set while a read is blocked. It reports the addresses it was given.",
 ["schedules", "fault_sequences", "inputs"], "all schedules of the receive pump against reader, writer, close and cancel, with all chunk and short-write patterns and small buffers",
 "The wrapper has no test.",
 ["srpc/rwc-conn.go"],
 [("receive pump", "srpc/rwc-conn.go rxPump"), ("buffer arena", "srpc/rwc-conn.go getArenaBuf/Read")],
 ["RwcConn.Read", "RwcConn.Write", "RwcConn.Close"])

prop("P18", "Multiplexed connections serve every stream and every client independently",
 "A server accepting a multiplexed connection serves each incoming stream concurrently; a stalled call does not block another; a listener serves several connections at the same time and keeps accepting after one ends or fails. However long a stream is silent before its call starts, the call is served. The HTTP server serves exactly the path it was given (every path if none). A connection's configuration affects no other connection. A client obtained by dialling a listening server can call it. Accepting stops with an error when the connection closes or the context is cancelled and the connection ends, and all its calls then end.",
 ["schedules", "histories"], "all schedules of two streams and two connections against stalls, closes and failures",
 "Tests use one pipe per call; muxed listeners are not tested with two clients.",
 ["srpc/server.go", "srpc/muxed-conn.go", "srpc/accept.go", "srpc/net.go", "srpc/server-http.go", "srpc/websocket.go"],
 [("accept loops", "srpc/server.go AcceptMuxedConn, srpc/accept.go"), ("mux roles", "srpc/muxed-conn.go NewMuxedConn, srpc/net.go Dial")],
 ["Server.AcceptMuxedConn", "AcceptMuxedListener", "Dial", "Listen"])

prop("P19", "The runtime is free of data races under its documented concurrency",
 "Concurrent use of clients, servers, streams (one sender and one receiver per stream, with close and cancellation from any goroutine), packet writers, muxes, nested streams and wrappers never performs two conflicting unsynchronised memory accesses.",
 ["schedules"], "the race detector on every explored schedule of the concurrent scenarios of the other properties",
 "The race detector only sees the schedule a test happens to run.",
 ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/packet-rw.go", "srpc/mux.go", "srpc/client-verbose.go", "srpc/stream-pipe.go", "rpcstream/rpcstream.go"],
 [("broadcast lock", "srpc/common-rpc.go bcast"), ("write mutex", "srpc/packet-rw.go"), ("mux lock", "srpc/mux.go")],
 ["Go race detector"])

prop("P20", "The in-memory stream pair is an ordered, cancellable message pipe",
 "A message sent on one end of an in-memory stream pair is received once, in order and unaltered on the other end; after half-close or close the peer receives what was sent and then end-of-stream. Cancelling or closing an end unblocks its own pending send and receive with a cancellation error. No sequence of sends, receives, half-closes and closes in one goroutine per direction panics or hangs while the peer or context is gone.",
 ["schedules", "histories"], "all schedules of sender, receiver, closer and canceller on a pair; all short operation histories",
 "Only used as a fixture.",
 ["srpc/stream-pipe.go"],
 [("data channel and close-once", "srpc/stream-pipe.go")],
 ["NewPipeStream"])

prop("P21", "Raw messages honour their copy mode and never alias caller memory",
 "A raw message marshals to exactly the bytes last set or decoded, after any sequence of set, clear, reset, decode and encode. In copy mode neither later changes to the bytes given to set or decode nor to the produced output affect the message, an output does not change when the message is set again, and no decoded message shares memory with another; without copy mode the buffer is retained as given.",
 ["histories", "inputs"], "all operation sequences up to a depth over small payloads in both modes, with the caller scribbling over its buffers, against a value reference",
 "One test runs one sequence.",
 ["srpc/message.go"],
 [("copying setter", "srpc/message.go SetData/MarshalVT")],
 ["RawMessage"])

prop("P22", "Generated clients and servers connect the right methods and stream kinds",
 "For every service the generated client and server code calls the method of the same name with the declared request, response and streaming kind, under the default or an overridden service ID (a handler also when asked without a service), and answers unknown methods as not found. All four call kinds deliver requests, responses and errors through the generated stubs as through raw streams; send-and-close sends the message and then half-closes.",
 ["programs", "configurations", "schedules"], "every combination of streaming kinds in generated services, every method, default and overridden service IDs; schedules of the generated stubs in the repository",
 "Tests cover the one generated example service under its default ID.",
 ["cmd/protoc-gen-go-starpc/main.go", "echo/echo_srpc.pb.go", "mock/mock_srpc.pb.go", "echo/server.go", "mock/mock.go"],
 [("generator", "cmd/protoc-gen-go-starpc/main.go"), ("generated dispatch", "echo/echo_srpc.pb.go InvokeMethod")],
 ["generated client methods", "generated handler InvokeMethod"])

TSE = "The TypeScript tests need npm packages and a running server"

prop("P23", "TypeScript calls deliver messages, results, errors and aborts on both sides",
 "For every call kind of the TypeScript client and server, each side receives the messages of the other in order, unaltered, once, including empty ones, and then the end; a unary or client-streaming call yields the handler's response. An error of the handler (with a text) rejects the call with the same text, an unknown method and an undecodable request reject it, and if the caller's own requests fail, handler and caller get that error; before an error a prefix of the messages is delivered. Aborting a call, or losing its transport, at any point after the stream was opened makes the call reject (unless it had its result) and the handler's pending read end, and closes the stream; aborting while the stream is still being opened rejects the call and closes the stream once it opens. A call that has ended leaves nothing attached to the caller's abort signal. No operation waits for ever and concurrent calls do not affect each other.",
 ["schedules", "inputs", "fault_sequences"], "all orders of packet deliveries, timers and user operations on both sides; all numbers of messages; every point of abort, loss of the transport and handler failure",
 TSE + "; they run one call at a time and nothing fails in them.",
 ["srpc/client.ts", "srpc/client-rpc.ts", "srpc/common-rpc.ts", "srpc/server-rpc.ts", "srpc/server.ts", "srpc/invoker.ts", "srpc/open-stream-ctr.ts", "srpc/pushable.ts"],
 [("packet dispatch and terminal result", "srpc/common-rpc.ts handlePacket/close"), ("abort", "srpc/client.ts initRpc"), ("handler invocation", "srpc/server-rpc.ts invokeRPC")],
 ["Client.request", "Client.clientStreamingRequest", "Client.serverStreamingRequest", "Client.bidirectionalStreamingRequest", "Server.rpcStreamHandler"])

prop("P24", "TypeScript calls obey the protocol for every sequence of packets",
 "Whatever sequence of well-formed, malformed or undecodable packets a peer sends, the TypeScript server starts at most one handler per call, with exactly the service, method and data of the first valid call start, hands it exactly the data preceding the first completion, error or cancellation, and starts none for a call that already ended; the client delivers exactly the data preceding the first completion, error or cancellation and then the matching end or error. A protocol error (second or incomplete start, data before the start, an undecodable packet) ends the call. Every packet a call writes has the encoding rpcproto.proto prescribes.",
 ["inputs", "histories"], "all packet sequences up to a depth over an alphabet of every packet kind and defect, against a reference automaton, with every handler and caller behaviour and every way packets can be passed in",
 TSE + "; they only see sequences the library itself produces.",
 ["srpc/common-rpc.ts", "srpc/client-rpc.ts", "srpc/server-rpc.ts", "srpc/packet.ts", "srpc/rpcproto.pb.ts"],
 [("packet dispatch", "srpc/common-rpc.ts handlePacket, handleMessage"), ("single start", "srpc/server-rpc.ts handleCallStart"), ("end of call", "srpc/common-rpc.ts handleCallData/close")],
 ["ServerRPC.handlePacket", "ClientRPC.handlePacket", "packets written"])

prop("P25", "TypeScript framing is independent of how the byte stream is split",
 "Prefixing then un-prefixing any sequence of messages yields the same messages, in order, however the byte stream is cut into chunks; a trailing incomplete frame is never delivered. The prefix is the payload's length as a little-endian uint32, as on the Go side. Packets are encoded and decoded one for one, in order, given singly or in arrays. Over a byte stream each written packet arrives whole, and the end or the failure of the stream ends the packet stream.",
 ["inputs", "schedules"], "all sequences of messages over boundary sizes and all cuts of the byte stream; all event orders of a packet stream on a byte stream that may end or fail",
 TSE + " and always pass whole packets.",
 ["srpc/length-prefix.ts", "srpc/packet.ts", "srpc/array-list.ts", "srpc/message.ts", "srpc/stream.ts"],
 [("length prefix", "srpc/length-prefix.ts"), ("packet stream", "srpc/stream.ts streamToPacketStream"), ("message transforms", "srpc/message.ts")],
 ["parseLengthPrefixTransform", "prependLengthPrefixTransform", "streamToPacketStream", "buildDecodeMessageTransform"])

prop("P26", "TypeScript nested streams carry a call inside a call",
 "A nested stream opened from TypeScript carries data in both directions in order, unaltered and once, with or without waiting for the acknowledgement. If the acknowledgement is required, opening fails with the remote's error text if it carries one, and fails if the stream ends or data arrives before it; a failed opening leaves no call open. The handling side reads exactly one init, answers with one acknowledgement carrying the lookup's error if any, and only then runs the handler. A call through the nested stream behaves like a direct call, and when it has ended both calls end.",
 ["inputs", "schedules"], "all packet sequences at the opening; all event orders of data in both directions and of all call kinds through the nested stream",
 TSE + " and open one nested stream that works.",
 ["rpcstream/rpcstream.ts", "echo/server.ts", "rpcstream/rpcstream.pb.ts"],
 [("init and acknowledgement", "rpcstream/rpcstream.ts openRpcStream, handleRpcStream"), ("nested stream", "rpcstream/rpcstream.ts RpcStream")],
 ["openRpcStream", "buildRpcStreamOpenStream", "handleRpcStream", "RpcStream"])

prop("P27", "TypeScript message channels deliver in order and notice a dead peer",
 "Two ends of a channel stream over a MessagePort or a BroadcastChannel, created at any time relative to each other, exchange data in order, unaltered and once, and then the end or the error the sender ended with. Closing an end, with or without an error, once or repeatedly, at any time, ends both ends' reads and lets no one wait for ever. With keep-alives and an idle timeout, a peer that stays silent for the timeout closes the stream with the stream-idle error, not before; a peer sending data or keep-alives does not, and no timer survives the close. A channel duplex delivers everything written and then the end. The watchdog expires its timeout after the last feeding unless cleared; a value container gives every waiter the current value or the next one.",
 ["schedules", "inputs"], "all orders of message deliveries, timer expiries and operations on both ends; all feed/clear/set/wait histories up to a depth",
 TSE + "; timers and closing at awkward moments are not exercised.",
 ["srpc/channel.ts", "srpc/message-port.ts", "srpc/broadcast-channel.ts", "srpc/watchdog.ts", "srpc/value-ctr.ts", "srpc/handle-stream-ctr.ts", "srpc/pushable.ts"],
 [("open/ack handshake and close", "srpc/channel.ts ChannelStream"), ("keep-alive and idle watchdog", "srpc/channel.ts, srpc/watchdog.ts"), ("duplex", "srpc/message-port.ts, srpc/broadcast-channel.ts")],
 ["ChannelStream.source", "ChannelStream.sink", "ChannelStream.close", "newMessagePortDuplex", "Watchdog", "ValueCtr"])

prop("P28", "TypeScript mux and handlers route every call to the right method",
 "A lookup yields the method of the handler most recently registered for the service and offering the method, else that of the first lookup function (in order of registration) that knows it, else nothing; the call is then refused. Names nobody registered, whatever they are, are never found. A handler offers exactly the methods its implementation implements, bound to that object, under the declared or an overridden service id. Invoking a method decodes the requests, encodes the answers and passes errors for each streaming kind, all in order. The generated echo and mock clients call their own method with its own kind and service id. The error helpers classify errors and never throw.",
 ["histories", "inputs", "configurations"], "all histories of registrations and all queries over a small alphabet; all sets of implemented methods; all kinds of method, request sequences and behaviours; all generated methods",
 TSE + " and one registered service.",
 ["srpc/mux.ts", "srpc/handler.ts", "srpc/invoker.ts", "srpc/definition.ts", "srpc/proto-rpc.ts", "srpc/errors.ts", "echo/echo_srpc.pb.ts", "mock/mock_srpc.pb.ts"],
 [("service map and lookups", "srpc/mux.ts StaticMux"), ("handler", "srpc/handler.ts createHandler"), ("invoke function", "srpc/invoker.ts createInvokeFn")],
 ["StaticMux.lookupMethod", "createHandler", "createInvokeFn", "EchoerClient", "MockClient"])

prop("P29", "TypeScript connections run calls both ways and end with their carrier",
 "Over one connection (a byte stream, MessagePort, BroadcastChannel or WebSocket with the stream muxer on top) calls of any kind run concurrently in both directions and each gets its own result; no stream remains afterwards. A side without a server refuses incoming calls and stays usable in the other direction. If either side closes the connection, or the carrier is lost, at any point, pending calls and handlers end and both sides close. The muxer gets the caller's direction and settings; a carrier that cannot tell when it is lost gets keep-alives unless the caller says otherwise.",
 ["schedules", "fault_sequences"], "all orders of deliveries in both directions for all pairs of call kinds; closing or losing the connection at any point",
 TSE + " and one connection carrying one call at a time.",
 ["srpc/conn.ts", "srpc/message-port.ts", "srpc/broadcast-channel.ts", "srpc/websocket.ts", "srpc/stream.ts", "srpc/server.ts"],
 [("stream muxing", "srpc/conn.ts StreamConn"), ("carriers", "srpc/message-port.ts MessagePortConn, srpc/broadcast-channel.ts BroadcastChannelConn, srpc/websocket.ts WebSocketConn")],
 ["StreamConn.openStream", "StreamConn.buildClient", "StreamConn.close", "MessagePortConn.close"])

prop("P30", "Generated TypeScript definitions and clients match their service",
 "For every service the TypeScript generator emits one definition with the service's full name and, in order, each method's name, request and response type, streaming kind and idempotency, a service name constant, an interface and (if there are methods) a client. Each client method, also when detached from its client, makes exactly one call of its own kind to its own method under the default or an overridden service id, passes the abort signal on, encodes its requests with the request type and decodes answers with the response type, in order, passes errors both ways, and releases the call when its answers are left early. What is generated type-checks, is the same each time, and two sides made from it understand each other. The checked-in echo and mock code does the same.",
 ["programs", "configurations", "inputs", "schedules"], "every combination of streaming kinds, types and idempotency in generated services, every method, default and overridden service ids, message sequences, failures; event orders of two concurrent calls through the generated code",
 TSE + "; the generator itself has no test.",
 ["cmd/protoc-gen-es-starpc/typescript.ts", "echo/echo_srpc.pb.ts", "mock/mock_srpc.pb.ts", "srpc/message.ts", "srpc/definition.ts"],
 [("generator", "cmd/protoc-gen-es-starpc/typescript.ts generateService"), ("message transforms", "srpc/message.ts")],
 ["generateTs", "generated Definition", "generated Client methods"])

prop("P31", "Go and TypeScript ends of a call interoperate",
 "A TypeScript client of a Go server and a Go client of a TypeScript server behave as if both ends were of one language: for every kind of call, every message (empty, unicode, large) arrives once, in order and unaltered; the caller gets the handler's answers or the text of its error; a handler that answers early, echoes or stops reading is no problem; cancelling or closing the call, or a failing request source, reaches the handler, and a lost transport ends both ends; unknown services fail at the caller. The same holds for calls inside a call of RpcStream, with and without waiting for the ack, also through a Go proxy, with the right component, errors for missing ones. Concurrent calls in either direction do not affect each other, and afterwards both ends have released everything.",
 ["inputs", "schedules", "crash points"], "every call program of both languages within the stated depth, every point at which a call is cancelled or its transport lost, and the orders of deliveries and user operations; half-closing and fully closing streams, packets whole or byte by byte",
 "The end-to-end run against the other language is a script outside the unit tests and plays one happy path per call kind.",
 ["srpc/stream.ts", "srpc/packet.ts", "srpc/common-rpc.ts", "srpc/common-rpc.go", "srpc/packet-rw.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "rpcstream/rpcstream.ts", "rpcstream/rpcstream.go", "rpcstream/proxy.go", "echo/echo_srpc.pb.go", "echo/echo_srpc.pb.ts"],
 [("TypeScript call protocol", "srpc/common-rpc.ts, client.ts, server-rpc.ts"), ("Go call protocol", "srpc/common-rpc.go, client-rpc.go, server-rpc.go"), ("nested streams of both languages", "rpcstream/")],
 ["Client", "Server", "NewClient", "Server.HandleStream", "openRpcStream", "handleRpcStream", "HandleRpcStream", "NewRpcStreamClient"])

NA = {
}

def have():
    p = os.path.join(V, ".build", "verifmc-plain")
    out = subprocess.run([p, "-list"], stdout=subprocess.PIPE, check=True).stdout
    ts = subprocess.run(["node", os.path.join(V, ".build", "ts", "main.mjs"), "-list"], stdout=subprocess.PIPE, check=True).stdout
    tg = subprocess.run(["node", os.path.join(V, ".build", "tsgen", "main.mjs"), "-list"], stdout=subprocess.PIPE, check=True).stdout
    return {s["name"].split("/")[0] for s in json.loads(out) + json.loads(ts) + json.loads(tg)}

TS = {"P23", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31"}
TSNOTE = ("Exhaustive within the stated bounds on the real code: every execution with at most the completed number of deviations from "
          "the first-come event order (and every harness choice) was run. Trusts node, esbuild, the reconstructed npm packages in "
          "ts/stubs and the harness transports.")

NOTE = ("Exhaustive within the stated bounds on the real code: every execution with at most the completed number of deviations from "
        "the run-until-blocked schedule (and every harness choice) was run. Trusts the Go toolchain, the scheduler overlay in "
        "mc/overlay and the harness transports.")
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    h = have()
    m = dict(version=1, setup_cmd="./setup.sh",
        hooks=dict(guard="none", enable="no hooks in /repo: the checks compile /repo's packages unchanged against a Go runtime with a controlled scheduler (go build -overlay)", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                     technique="stateless model checking of the implementation: bounded-exhaustive " + (
                         "event-order, input and fault enumeration of the bundled TypeScript under a controlled event loop" + (" against the real Go code under a controlled scheduler" if p["id"] == "P31" else "") if p["id"] in TS else
                         "schedule, input and fault enumeration under a controlled Go scheduler") + (" with the race detector" if p["id"] == "P19" else ""),
                     level="model_checking", level_note=TSNOTE if p["id"] in TS else NOTE) for p in P if p["id"] in h],
        not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check yet")) for p in P if p["id"] not in h],
        notes="See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("checks:", sorted(h), "not claimed:", [x["property"] for x in m["not_applicable"]])
main()
