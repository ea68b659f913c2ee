From 40d667c7fd96af9a5a712f0abc9fe5ce057f706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 01/32] fix: do not deliver a spurious empty message when the
 sender half-closes

WriteCallData set data_is_zero on the completion packet written by CloseSend,
so the peer received an extra zero-length message before io.EOF.
---
 srpc/common-rpc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..3d4685d 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -122,6 +122,10 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	if callData := outPkt.GetCallData(); data == nil && callData.GetComplete() {
+		// nil data with complete or an error does not carry a message.
+		callData.DataIsZero = false
+	}
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From c38e96e2ca25fe3247369030213975a2ed6b2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 02/32] fix: keep the call result when the stream closes with
 an error afterwards

ClientRPC.HandleStreamClose replaced the result of a completed call with a later
stream error (for example the second completion packet of a nested call), so
MsgRecv returned that error instead of io.EOF depending on timing.
---
 srpc/client-rpc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..54444d5 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,6 +70,10 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		if r.dataClosed {
+			// the result is final once the remote completed the call.
+			closeErr = nil
+		}
 		if closeErr != nil && r.remoteErr == nil {
 			r.remoteErr = closeErr
 		}
-- 
2.43.0


From 6f052a400e2638a0b4223686393ed0d32f8964af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 03/32] fix: keep the call result on a cancel packet after
 completion, tolerate one before the call started

---
 srpc/client-rpc.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 54444d5..175b7db 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -83,6 +83,18 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	})
 }
 
+// HandleCallCancel handles the call cancel packet.
+func (r *ClientRPC) HandleCallCancel() error {
+	r.HandleStreamClose(context.Canceled)
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		// the writer is nil if the packet arrives before the call started.
+		if r.writer != nil {
+			_ = r.writer.Close()
+		}
+	})
+	return nil
+}
+
 // HandlePacket handles an incoming parsed message packet.
 func (r *ClientRPC) HandlePacket(msg *Packet) error {
 	if err := msg.Validate(); err != nil {
-- 
2.43.0


From 4d25159736d8f054dfa6bee68b63ed437bc41b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 04/32] fix: close the underlying stream of a nested call when
 the nested call ends

---
 rpcstream/rpcstream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rpcstream/rpcstream.go b/rpcstream/rpcstream.go
index 8838fc9..daec4ef 100644
--- a/rpcstream/rpcstream.go
+++ b/rpcstream/rpcstream.go
@@ -79,6 +79,15 @@ func NewRpcStreamOpenStream[T RpcStream](rpcCaller RpcStreamCaller[T], component
 			return nil, err
 		}
 
+		// close the rpc stream once the read pump ended: nothing else will.
+		handleClose := closeHandler
+		closeHandler = func(closeErr error) {
+			if handleClose != nil {
+				handleClose(closeErr)
+			}
+			_ = rw.Close()
+		}
+
 		// start the read pump
 		go ReadPump(rw, msgHandler, closeHandler)
 		// return the writer
-- 
2.43.0


From 96b77a0c9d9e966ef1e6c4dee5414b8f4478bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 05/32] fix: release the call's context when the stream cannot
 be opened or started

---
 srpc/client-rpc.go | 2 ++
 srpc/client.go     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 175b7db..c366cee 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -130,5 +130,7 @@ func (r *ClientRPC) Close() {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
 		}
+		// release the context even if the call did not start.
+		r.ctxCancel()
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..ed8fc00 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,10 +83,12 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
 	if err := clientRPC.Start(writer, firstMsg != nil, firstMsgData); err != nil {
+		clientRPC.ctxCancel()
 		return nil, err
 	}
 
-- 
2.43.0


From 31dec6d8140b49128954c7fa47df7038e8dd5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 06/32] fix: report the stream's error when it ended before the
 call started

If the remote ended the stream with an error before Start was called, the
call failed with context.Canceled although nobody cancelled it.
---
 srpc/client-rpc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index c366cee..5d84c10 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -33,7 +33,14 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 	if err := r.ctx.Err(); err != nil {
 		r.ctxCancel()
 		_ = writer.Close()
-		return context.Canceled
+		startErr := context.Canceled
+		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+			if r.remoteErr != nil {
+				// the stream already ended with an error.
+				startErr = r.remoteErr
+			}
+		})
+		return startErr
 	}
 
 	var firstMsgEmpty bool
-- 
2.43.0


From 707a1cab7afb75c1334b3d4751f791342ddab79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 07/32] fix: continue a short packet write where it stopped

The retry loop wrote the whole packet again, corrupting the framing when the
transport accepted a write only in part.
---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 39bf050bfadf2a6760e8f966097a197951c37fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 08/32] fix: handle packets read together with a transport
 error

An io.Reader may return data along with an error: complete packets in that
data were dropped.
---
 srpc/packet-rw.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..c695961 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -86,15 +86,17 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
 	isOpen := true
+	// readErr is the error that ended the stream, if any.
+	var readErr error
 
 	for isOpen {
 		// read some data into the buffer
 		n, err := r.rw.Read(buf)
 		if err != nil {
-			if err == io.EOF || err == context.Canceled {
-				isOpen = false
-			} else {
-				return err
+			// process the data read along with the error before returning.
+			isOpen = false
+			if err != io.EOF && err != context.Canceled {
+				readErr = err
 			}
 		}
 
@@ -137,7 +139,7 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	}
 
 	// closed
-	return nil
+	return readErr
 }
 
 // Close closes the packet rw.
-- 
2.43.0


From 7aa80637af4bf27b6b28d4f34538f170e1320cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 09/32] fix: in-memory stream pair panics and hangs on close

Sending on an end after CloseSend or Close, or closing it while a send is
pending, panicked (send on closed channel). Sending to an end that was
closed blocked for ever once the buffer was full.
---
 srpc/stream-pipe.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..a3c1410 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -15,15 +15,17 @@ type pipeStream struct {
 	other *pipeStream
 	// closeOnce ensures we close only once.
 	closeOnce sync.Once
+	// sendClosed is closed when no more data will be sent by this end.
+	sendClosed chan struct{}
 	// dataCh is the data channel
 	dataCh chan []byte
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{sendClosed: make(chan struct{}), dataCh: make(chan []byte, 5)}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, sendClosed: make(chan struct{}), dataCh: make(chan []byte, 5)}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -41,11 +43,23 @@ func (p *pipeStream) MsgSend(msg Message) error {
 		return err
 	}
 	select {
-	case <-p.ctx.Done():
+	case <-p.sendClosed:
+		// closed by us: do not send below, as select picks any ready case.
+	default:
+		select {
+		case <-p.ctx.Done():
+			return context.Canceled
+		case <-p.sendClosed:
+		case <-p.other.ctx.Done():
+			// the remote will not receive any more messages.
+		case p.other.dataCh <- data:
+			return nil
+		}
+	}
+	if p.ctx.Err() != nil {
 		return context.Canceled
-	case p.other.dataCh <- data:
-		return nil
 	}
+	return io.ErrClosedPipe
 }
 
 // MsgRecv receives an incoming message from the remote.
@@ -54,11 +68,16 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.other.sendClosed:
+		// receive the messages sent before the remote closed.
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
@@ -75,10 +94,10 @@ func (p *pipeStream) Close() error {
 	return nil
 }
 
-// closeRemote closes the remote data channel.
+// closeRemote signals to the remote that no more data will be sent.
 func (p *pipeStream) closeRemote() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.sendClosed)
 	})
 }
 
-- 
2.43.0


From 976c4be2d5244ce1f98d1305fcad2c5997d6a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 10/32] fix: RwcConn.Close stops the receive pump

Nothing cancelled the context of the connection: if nobody read the buffered
packets, the pump goroutine stayed blocked after Close.
---
 srpc/rwc-conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..51095b0 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -84,7 +84,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	var ok bool
 	select {
 	case <-ctx.Done():
-		if !deadline.IsZero() {
+		if !deadline.IsZero() && p.ctx.Err() == nil {
 			return 0, os.ErrDeadlineExceeded
 		}
 		return 0, context.Canceled
@@ -172,6 +172,8 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	// stop the rx pump, even if nobody reads the packets.
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 9457c0011cd7fb5041beb47a3d52865c66d9b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 11/32] fix: report the cancellation, not the stream closed
 because of it

---
 srpc/client-rpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 5d84c10..c836470 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -31,8 +31,6 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 	}
 
 	if err := r.ctx.Err(); err != nil {
-		r.ctxCancel()
-		_ = writer.Close()
 		startErr := context.Canceled
 		r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 			if r.remoteErr != nil {
@@ -40,6 +38,8 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 				startErr = r.remoteErr
 			}
 		})
+		r.ctxCancel()
+		_ = writer.Close()
 		return startErr
 	}
 
-- 
2.43.0


From 86baf1863325f5c08cd163fd46967dc230a9e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 12/32] fix: proxy panics if the remote call fails and the
 stream type is a pointer

---
 rpcstream/proxy.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..c94785e 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -46,11 +46,13 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	var remoteStrm RpcStream
 	if err == nil {
 		remoteStrm, err = remoteCaller(ctx)
-		if remoteStrm != nil {
-			defer remoteStrm.Close()
-		} else if err == nil {
+		if err == nil && remoteStrm == nil {
 			err = ErrNoServerForComponent
 		}
+		// note: remoteStrm may be a non-nil interface with a nil pointer if err != nil.
+		if err == nil {
+			defer remoteStrm.Close()
+		}
 	}
 
 	// send the init message
-- 
2.43.0


From a552d0b89db708bf731920ba73bdb0ca6a77c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 13/32] fix: a muxed listener served one connection at a time

---
 srpc/accept.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..470e61d 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,10 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		// serve the connection without blocking the accept loop.
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From e46e426fdce2e32020ac734482c86243cf02cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 14/32] fix: Dial uses the client side of the muxer

---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d9e827d934b128f96001087b6e809f30bf4be57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 15/32] fix: Listen left its listener open when the context was
 canceled

---
 srpc/net.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..f9b13ab 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,6 +27,8 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-- 
2.43.0


From cdd0a15047d677a03f75ee97b8d2b0de8f807c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:44 +0000
Subject: [PATCH 16/32] fix: read deadline set while a read is blocked has no
 effect and races with it

---
 srpc/rwc-conn.go | 81 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 61 insertions(+), 20 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 51095b0..0e1a2c9 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -26,10 +26,13 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	rd       time.Time   // read deadline
-	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	mtx       sync.Mutex    // guards below fields
+	rd        time.Time     // read deadline
+	wd        time.Time     // write deadline
+	rdChanged chan struct{} // closed when the read deadline changes
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -51,6 +54,7 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		rdChanged: make(chan struct{}),
 	}
 	go func() {
 		_ = c.rxPump()
@@ -72,7 +76,37 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
-	deadline := p.rd
+	pkt, err := p.readPacket()
+	if err != nil {
+		return 0, err
+	}
+
+	pl := len(pkt)
+	copy(b, pkt)
+	p.ar.Put(&pkt)
+	if len(b) < pl {
+		return len(b), io.ErrShortBuffer
+	}
+	return pl, nil
+}
+
+// readPacket waits for the next packet until the read deadline.
+func (p *RwcConn) readPacket() ([]byte, error) {
+	for {
+		p.mtx.Lock()
+		deadline, deadlineChanged := p.rd, p.rdChanged
+		p.mtx.Unlock()
+
+		pkt, retry, err := p.readPacketWithDeadline(deadline, deadlineChanged)
+		if !retry {
+			return pkt, err
+		}
+	}
+}
+
+// readPacketWithDeadline waits for the next packet until the given deadline.
+// Returns retry=true if the read deadline was changed while waiting.
+func (p *RwcConn) readPacketWithDeadline(deadline time.Time, deadlineChanged <-chan struct{}) (pkt []byte, retry bool, err error) {
 	ctx := p.ctx
 	if !deadline.IsZero() {
 		var ctxCancel context.CancelFunc
@@ -80,31 +114,24 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		defer ctxCancel()
 	}
 
-	var pkt []byte
-	var ok bool
 	select {
 	case <-ctx.Done():
 		if !deadline.IsZero() && p.ctx.Err() == nil {
-			return 0, os.ErrDeadlineExceeded
+			return nil, false, os.ErrDeadlineExceeded
 		}
-		return 0, context.Canceled
-	case pkt, ok = <-p.packetCh:
+		return nil, false, context.Canceled
+	case <-deadlineChanged:
+		return nil, true, nil
+	case pkt, ok := <-p.packetCh:
 		if !ok {
-			err = p.closeErr
+			err := p.closeErr
 			if err == nil {
 				err = io.EOF
 			}
-			return 0, err
+			return nil, false, err
 		}
+		return pkt, false, nil
 	}
-
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
-	}
-	return pl, nil
 }
 
 // Write writes data to the connection.
@@ -146,8 +173,10 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
-	p.rd = t
+	p.mtx.Lock()
+	p.setReadDeadline(t)
 	p.wd = t
+	p.mtx.Unlock()
 	return nil
 }
 
@@ -155,7 +184,9 @@ func (p *RwcConn) SetDeadline(t time.Time) error {
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
-	p.rd = t
+	p.mtx.Lock()
+	p.setReadDeadline(t)
+	p.mtx.Unlock()
 	return nil
 }
 
@@ -165,10 +196,20 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
+	p.mtx.Lock()
 	p.wd = t
+	p.mtx.Unlock()
 	return nil
 }
 
+// setReadDeadline changes the read deadline and wakes any blocked Read.
+// Caller must hold mtx.
+func (p *RwcConn) setReadDeadline(t time.Time) {
+	p.rd = t
+	close(p.rdChanged)
+	p.rdChanged = make(chan struct{})
+}
+
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
-- 
2.43.0


From 6d64aa5f59b8a4d897ff626328d7b3739314f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 17/32] fix: half-closing a call the remote already ended fails
 and loses its answer

---
 srpc/client-rpc.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index c836470..659404d 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"io"
 
 	"github.com/pkg/errors"
 )
@@ -65,6 +66,18 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 	return err
 }
 
+// WriteCallData writes a call data packet.
+//
+// Half-closing is not an error if the remote already ended the call and closed
+// the stream: there is nothing left to signal and the result can be read.
+func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
+	writeErr := r.commonRPC.WriteCallData(data, complete, err)
+	if complete && err == nil && len(data) == 0 && errors.Is(writeErr, io.ErrClosedPipe) {
+		return nil
+	}
+	return writeErr
+}
+
 // HandlePacketData handles an incoming unparsed message packet.
 func (r *ClientRPC) HandlePacketData(data []byte) error {
 	pkt := &Packet{}
-- 
2.43.0


From 6fb25f42cba99017456e6a6e006958b07025e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 18/32] fix: generated server-streaming client leaks its stream
 if it cannot be half-closed

---
 cmd/protoc-gen-go-starpc/main.go | 5 ++++-
 echo/echo_srpc.pb.go             | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/protoc-gen-go-starpc/main.go b/cmd/protoc-gen-go-starpc/main.go
index 4e85936..75383c2 100644
--- a/cmd/protoc-gen-go-starpc/main.go
+++ b/cmd/protoc-gen-go-starpc/main.go
@@ -336,7 +336,10 @@ func (s *srpc) generateClientMethod(p *protogen.Method) {
 	s.P("if err != nil { return nil, err }")
 	s.P("strm := &", s.ClientStreamImpl(p), "{stream}")
 	if !p.Desc.IsStreamingClient() {
-		s.P("if err := strm.CloseSend(); err != nil { return nil, err }")
+		s.P("if err := strm.CloseSend(); err != nil {")
+		s.P("_ = strm.Close()")
+		s.P("return nil, err")
+		s.P("}")
 	}
 	s.P("return strm, nil")
 	s.P("}")
diff --git a/echo/echo_srpc.pb.go b/echo/echo_srpc.pb.go
index 0f962fe..a36a173 100644
--- a/echo/echo_srpc.pb.go
+++ b/echo/echo_srpc.pb.go
@@ -64,6 +64,7 @@ func (c *srpcEchoerClient) EchoServerStream(ctx context.Context, in *EchoMsg) (S
 	}
 	strm := &srpcEchoer_EchoServerStreamClient{stream}
 	if err := strm.CloseSend(); err != nil {
+		_ = strm.Close()
 		return nil, err
 	}
 	return strm, nil
-- 
2.43.0


From 7ac724dbbe1c5399213fab357a4860605070fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 19/32] fix: TypeScript call waits forever and keeps its stream
 if the remote closes the stream

---
 srpc/common-rpc.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..ea28a34 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -200,6 +200,8 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // the remote closed the stream: nothing more can be sent or received.
+        await this.close(new Error(ERR_RPC_ABORT))
       } catch (err) {
         this.close(err as Error)
       }
-- 
2.43.0


From cb0747d271da50a09b5787aad07862dcf880c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 20/32] fix: TypeScript handleMessage does not end the call on
 an undecodable packet

---
 srpc/common-rpc.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index ea28a34..6866b49 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -95,7 +95,13 @@ export class CommonRPC {
   //
   // note: closes the stream if any error is thrown.
   public async handleMessage(message: Uint8Array) {
-    return this.handlePacket(Packet.fromBinary(message))
+    let packet: Packet
+    try {
+      packet = Packet.fromBinary(message)
+    } catch (err) {
+      return this.close(err as Error)
+    }
+    return this.handlePacket(packet)
   }
 
   // handlePacket handles an incoming packet.
-- 
2.43.0


From 2178560b955332a7b288f36ee17d7138c30c864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 21/32] fix: TypeScript client ignores an abort while the
 stream is being opened

---
 srpc/client.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..8626ff3 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -123,6 +123,12 @@ export class Client implements ProtoRpc {
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
       .then(() => call.close())
+    if (abortSignal?.aborted) {
+      // aborted while the stream was being opened: the event has already fired.
+      const err = new Error(ERR_RPC_ABORT)
+      call.close(err)
+      throw err
+    }
     await call.writeCallStart(data ?? undefined)
     return call
   }
-- 
2.43.0


From 8477b0b3bd65c6fd2495ce2c88562ec53234cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 22/32] fix: TypeScript server starts the handler of a call
 that has already ended

---
 srpc/server-rpc.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/server-rpc.ts b/srpc/server-rpc.ts
index 5f49d05..04e6780 100644
--- a/srpc/server-rpc.ts
+++ b/srpc/server-rpc.ts
@@ -32,6 +32,10 @@ export class ServerRPC extends CommonRPC {
     if (!methodDef) {
       throw new Error(`not found: ${this.service}/${this.method}`)
     }
+    if (this.isClosed) {
+      // the call already ended: do not start the handler.
+      return
+    }
     this.pushRpcData(packet.data, packet.dataIsZero)
     this.invokeRPC(methodDef)
   }
-- 
2.43.0


From 705b836241453e59efce4a0d8f44566ff1784b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 23/32] fix: TypeScript openRpcStream leaves the call open if
 the ack is missing or refused

---
 rpcstream/rpcstream.ts | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/rpcstream/rpcstream.ts b/rpcstream/rpcstream.ts
index c15ff29..5fa1f66 100644
--- a/rpcstream/rpcstream.ts
+++ b/rpcstream/rpcstream.ts
@@ -40,19 +40,25 @@ export async function openRpcStream(
 
   // wait for ack, if set.
   if (waitAck) {
-    const ackPacketIt = await packetIt.next()
-    if (ackPacketIt.done) {
-      throw new Error(`rpcstream: closed before ack packet`)
-    }
-    const ackPacket = ackPacketIt.value
-    const ackBody = ackPacket?.body
-    if (!ackBody || ackBody.case !== 'ack') {
-      const msgType = ackBody?.case || 'none'
-      throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
-    }
-    const errStr = ackBody.value?.error
-    if (errStr) {
-      throw new Error(`rpcstream: remote: ${errStr}`)
+    try {
+      const ackPacketIt = await packetIt.next()
+      if (ackPacketIt.done) {
+        throw new Error(`rpcstream: closed before ack packet`)
+      }
+      const ackPacket = ackPacketIt.value
+      const ackBody = ackPacket?.body
+      if (!ackBody || ackBody.case !== 'ack') {
+        const msgType = ackBody?.case || 'none'
+        throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
+      }
+      const errStr = ackBody.value?.error
+      if (errStr) {
+        throw new Error(`rpcstream: remote: ${errStr}`)
+      }
+    } catch (err) {
+      // nobody gets the stream: end the call.
+      packetTx.end(err as Error)
+      throw err
     }
   }
 
-- 
2.43.0


From 97974a41aaa836f1e7350117a492f2dd892ee279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 24/32] fix: closing a ChannelStream twice throws on a
 BroadcastChannel

---
 srpc/channel.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..f3d360b 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -74,6 +74,8 @@ export class ChannelStream<T = Uint8Array>
   public readonly waitRemoteAck: Promise<void>
   // _remoteAck fulfills the waitRemoteAck promise.
   private _remoteAck?: (err?: Error) => void
+  // closed indicates close was called.
+  private closed?: true
   // keepAliveWatchdog is the transmission timeout watchdog.
   private keepAlive?: Watchdog
   // idleWatchdog is the receive timeout watchdog.
@@ -190,6 +192,10 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
     // close channels
-- 
2.43.0


From 5eb522aa49b1e76f8087a3afa472064ee11ba94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 25/32] fix: closing a message channel duplex twice throws, and
 its reader waits forever

---
 srpc/broadcast-channel.ts | 15 ++++++++++++++-
 srpc/message-port.ts      | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..47f041f 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,10 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // _closed indicates close was called.
+  private _closed = false
+  // _endSource ends the source, if it is being read.
+  private _endSource?: () => void
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -30,11 +34,16 @@ export class BroadcastChannelDuplex<T>
     this.source = this._createSource()
   }
 
-  // close closes the message port.
+  // close closes the broadcast channels and ends the source.
   public close() {
+    if (this._closed) {
+      return
+    }
+    this._closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
+    this._endSource?.()
   }
 
   // _createSink initializes the sink field.
@@ -55,7 +64,11 @@ export class BroadcastChannelDuplex<T>
 
   // _createSource initializes the source field.
   private async *_createSource(): AsyncGenerator<T> {
+    if (this._closed) {
+      return
+    }
     const iterator = new EventIterator<T>((queue) => {
+      this._endSource = () => queue.stop()
       const messageListener = (ev: MessageEvent<T | null>) => {
         const data = ev.data
         if (data !== null) {
diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..a63d35f 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -21,6 +21,10 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // _closed indicates close was called.
+  private _closed = false
+  // _endSource ends the source, if it is being read.
+  private _endSource?: () => void
 
   constructor(port: MessagePort) {
     this.port = port
@@ -28,10 +32,15 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
     this.source = this._createSource()
   }
 
-  // close closes the message port.
+  // close closes the message port and ends the source.
   public close() {
+    if (this._closed) {
+      return
+    }
+    this._closed = true
     this.port.postMessage(null)
     this.port.close()
+    this._endSource?.()
   }
 
   // _createSink initializes the sink field.
@@ -52,7 +61,11 @@ export class MessagePortDuplex<T extends NonNullable<unknown>>
 
   // _createSource initializes the source field.
   private async *_createSource(): AsyncGenerator<T> {
+    if (this._closed) {
+      return
+    }
     const iterator = new EventIterator<T>((queue) => {
+      this._endSource = () => queue.stop()
       const messageListener = (ev: MessageEvent<T | null>) => {
         const data = ev.data
         if (data !== null) {
-- 
2.43.0


From 9c9f99545a298d13019d9f21bcca716adeda7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 26/32] fix: MessagePortConn.close does not tell the remote

---
 srpc/message-port.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index a63d35f..2000c96 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -149,6 +149,6 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From 4ff0273e03353e38f9a3bb7724377b2b888f9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 27/32] fix: TypeScript mux and handler resolve names inherited
 from Object

---
 srpc/handler.ts | 4 ++++
 srpc/mux.ts     | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..cb013f6 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,10 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    // note: ignore what the methods object inherits, like toString.
+    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..45d67c4 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,7 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +40,8 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods: staticMuxMethods =
+      this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From 406f2856e8a6234ab8f2ae8d360f06e555133651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 28/32] fix: isAbortError and isStreamIdleError throw on null

---
 srpc/errors.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..7989a48 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -3,7 +3,7 @@ export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'
 
 // isAbortError checks if the error object is ERR_RPC_ABORT.
 export function isAbortError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
@@ -15,7 +15,7 @@ export const ERR_STREAM_IDLE = 'ERR_STREAM_IDLE'
 
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
-- 
2.43.0


From 6a0de77525127b0dc66062ae9cb1aac65aa87797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 29/32] fix: ChannelStream drops messages with a falsy value

---
 srpc/channel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index f3d360b..3b80b0f 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -281,7 +281,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined) {
       this._source.push(data)
     }
     if (err) {
-- 
2.43.0


From c7c2a10c597ae60e0eac56842d09205336833de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 30/32] fix: ValueCtr ignores an initial value that is falsy

---
 srpc/value-ctr.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1ec9e91 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue
     this._waiters = []
   }
 
-- 
2.43.0


From a2b1981c36e3669ecc7bc5a66727353167626eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 31/32] fix: half-closing a completed call fails if this side
 closed the stream

A TypeScript server cancels the call after completing it: the client then
closes the writer, and CloseAndRecv returned the write error although the
answer was there.
---
 srpc/client-rpc.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 659404d..c1d90e7 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -72,7 +72,15 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 // the stream: there is nothing left to signal and the result can be read.
 func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
 	writeErr := r.commonRPC.WriteCallData(data, complete, err)
-	if complete && err == nil && len(data) == 0 && errors.Is(writeErr, io.ErrClosedPipe) {
+	if writeErr == nil || !complete || err != nil || len(data) != 0 {
+		return writeErr
+	}
+	ended := errors.Is(writeErr, io.ErrClosedPipe)
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		// if the remote ended the call, the writer may be closed on this side too.
+		ended = ended || r.dataClosed
+	})
+	if ended {
 		return nil
 	}
 	return writeErr
-- 
2.43.0


From e6dd7c3fedde9c2c94a44bacbb7cb7f665b98203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 32/32] fix: detach the abort listener of a call when it has
 ended (TypeScript)

---
 srpc/client.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 8626ff3..f620825 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -116,13 +116,18 @@ export class Client implements ProtoRpc {
     const openStreamFn = await this.openStreamCtr.wait()
     const stream = await openStreamFn()
     const call = new ClientRPC(rpcService, rpcMethod)
-    abortSignal?.addEventListener('abort', () => {
+    const onAbort = () => {
       call.writeCallCancel()
       call.close(new Error(ERR_RPC_ABORT))
-    })
+    }
+    abortSignal?.addEventListener('abort', onAbort)
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
-      .then(() => call.close())
+      .then(() => {
+        // the signal may outlive the call
+        abortSignal?.removeEventListener('abort', onAbort)
+        call.close()
+      })
     if (abortSignal?.aborted) {
       // aborted while the stream was being opened: the event has already fired.
       const err = new Error(ERR_RPC_ABORT)
-- 
2.43.0

