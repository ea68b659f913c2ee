package props

import (
	"context"
	"io"
	"log"
	"net"
	"net/http"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"

	"verifmc/mc"
)

func init() {
	httpEnds := []string{"client closes the websocket", "client's transport closes", "connection fails", "http server closes"}
	reg(&mc.Scenario{Prop: "P18", Name: "http", Quick: 0, Thorough: 1, Weight: 2,
		Doc: "the HTTP server on harness connections: requests to the served path and seven others, plain and websocket; two websocket clients (also with a call that hangs) are served at the same time; then the first ends in each of 4 ways and the other goes on: all its calls end, nothing is left after the server was closed",
		Main: func(t *mc.T) {
			path := []string{"", "/rpc"}[t.Choose(2)]
			req := []string{"/rpc", "/other", "/rpc/", "/rpcx", "/rpc/x", "/", "/x/rpc", "/RPC"}[t.Choose(8)]
			plain := t.Bool()
			how := 0
			if req == "/rpc" && !plain {
				how = t.Choose(len(httpEnds))
			}
			var calls tally
			mux := srpc.NewMux(tagServer(&calls))
			hs, err := srpc.NewHTTPServer(mux, path, nil)
			if err != nil {
				t.Failf("NewHTTPServer: %v", err)
				return
			}
			l := &listener{t: t}
			srv := &http.Server{Handler: hs, ErrorLog: log.New(io.Discard, "", 0)}
			t.Go("Serve", func() { _ = srv.Serve(l) })
			var conns []*conn
			tp := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) {
				c, a, err := l.connect()
				if err != nil {
					return nil, err
				}
				mc.Quiet(func() { conns = append(conns, c) })
				return a, nil
			}}
			hc := &http.Client{Transport: tp}
			finish := func() {
				_ = srv.Close()
				tp.CloseIdleConnections()
				time.Sleep(time.Minute)
				t.MustFinish("after the http server was closed")
				if n := t.Live(); n != 0 {
					t.Failf("%d goroutine(s) left after the http server was closed", n)
				}
			}
			served := path == "" || path == req
			if plain {
				resp, err := hc.Get("http://host" + req)
				if err != nil {
					t.Failf("GET: %v", err)
				} else {
					_ = resp.Body.Close()
					if served && resp.StatusCode < 400 {
						t.Failf("a plain request of the served path got status %d", resp.StatusCode)
					}
				}
				finish()
				t.Outcome("plain %v %v", served, err)
				return
			}
			dial := func() (srpc.Client, *websocket.Conn, io.Closer, error) {
				ws, _, err := websocket.Dial(bg, "ws://host"+req, &websocket.DialOptions{HTTPClient: hc})
				if err != nil {
					return nil, nil, nil, err
				}
				m, err := srpc.NewWebSocketConn(bg, ws, false, nil)
				if err != nil {
					return nil, nil, nil, err
				}
				return srpc.NewClientWithMuxedConn(m), ws, m, nil
			}
			cl, ws, mx, err := dial()
			if !served {
				if err == nil {
					t.Failf("a websocket was accepted on path %q, serving %q", req, path)
				}
				finish()
				t.Outcome("refused")
				return
			}
			if err != nil {
				t.Failf("websocket dial: %v", err)
				return
			}
			cctx, ccancel := context.WithCancel(bg)
			hangCall(t, cl, cctx)
			cl2, _, mx2, err := dial()
			if err != nil {
				t.Failf("second websocket dial: %v", err)
				return
			}
			t.Go("first", func() { callEcho(t, cl, "s", "echo", "1") })
			t.Go("second", func() { callEcho(t, cl2, "s", "echo", "2"); callChat(t, cl2, "s", "chat", "a") })
			t.Idle()
			if pending(t, "first") || pending(t, "second") {
				t.Failf("calls are not served over a websocket: pending %v", t.Pending())
				return
			}
			switch how {
			case 0:
				_ = ws.CloseNow()
			case 1:
				_ = mx.Close()
			case 2:
				conns[0].kill(errReset)
			case 3:
				// the connections were hijacked and stay
				_ = srv.Close()
			}
			time.Sleep(time.Minute)
			t.Idle()
			if how != 3 && (pending(t, "hanging call") || calls.get("s.hang ended") != 1) {
				t.Failf("%s: the hanging call did not end: %s, pending %v", httpEnds[how], calls.String(), t.Pending())
			}
			t.Go("second again", func() { callEcho(t, cl2, "s", "echo", "3") })
			t.Idle()
			if pending(t, "second again") {
				t.Failf("the second client is not served after the first ended: %s", httpEnds[how])
			}
			ccancel()
			_ = mx.Close()
			_ = mx2.Close()
			time.Sleep(time.Minute)
			finish()
			t.Outcome("%s %s", httpEnds[how], calls.String())
		}})
}
