//go:build go1.22

package textsecure

import (
	"net"
	"net/http"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// A server that sends requests without reading the acknowledgements, until the client waits for it, and then
// is gone: listening has to end.
func TestC34Deaf(t *testing.T) {
	kit.Check(t, "the client was kept waiting for the server to take acknowledgements when the connection ended", func(c *kit.Case) {
		newWorld(c, "")
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Broken("%v", err)
		}
		defer l.Close()
		conns := make(chan *websocket.Conn, 1)
		up := websocket.Upgrader{WriteBufferSize: 64 << 10}
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if conn, err := up.Upgrade(rw, r, nil); err == nil {
				conns <- conn
			}
		})}
		go srv.Serve(smallBuffers{l})
		defer srv.Close()
		config.ConfigFile.Server = "http://" + l.Addr().String()
		id := kit.Pick(c.T, "id", []uint64{1, 300, 1 << 40, 1<<64 - 1})
		path := kit.Pick(c.T, "path", []string{"/api/v1/queue/empty", "/api/v1/message"})
		linger := c.Chance("reset", 3, 4)
		stop := c.Chance("stopped", 1, 4)
		b, err := proto.Marshal(&signalservice.WebSocketMessage{Type: signalservice.WebSocketMessage_REQUEST.Enum(),
			Request: &signalservice.WebSocketRequestMessage{Verb: proto.String("PUT"), Path: &path, Id: &id}})
		if err != nil {
			c.Broken("%v", err)
		}
		finished := make(chan error, 1)
		go func() { finished <- StartListening() }()
		var conn *websocket.Conn
		select {
		case conn = <-conns:
		case err := <-finished:
			c.Bad("listening: %v", err)
		case <-time.After(20 * time.Second):
			c.Bad("no connection is made")
		}
		// many frames in one write
		frame := append([]byte{0x82, byte(len(b))}, b...)
		var many []byte
		for len(many) < 64<<10 {
			many = append(many, frame...)
		}
		raw := conn.UnderlyingConn()
		waits := false
		sent := 0
		for i := 0; i < 2000 && !waits; i++ {
			raw.SetWriteDeadline(time.Now().Add(1500 * time.Millisecond))
			n, err := raw.Write(many)
			sent += n
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				waits = true
			} else if err != nil {
				c.Bad("the client ended the connection after %d bytes: %v", sent, err)
			}
		}
		c.Step("requests of id %d to %q, client waits: %v; reset %v, stopped %v", id, path, waits, linger, stop)
		if waits {
			c.NonTrivial()
			c.Sig(id, path, linger, stop, sent)
		}
		if stop {
			c.NoPanic("stopping", func() { StopListening() })
		} else if tc, ok := raw.(*net.TCPConn); ok && linger {
			tc.SetLinger(0)
		}
		conn.Close()
		select {
		case err = <-finished:
		case <-time.After(15 * time.Second):
			c.Bad("listening does not end after the connection was lost")
		}
		if err == nil {
			c.Bad("listening ends without an error")
		}
	})
}

type smallBuffers struct{ net.Listener }

func (s smallBuffers) Accept() (net.Conn, error) {
	conn, err := s.Listener.Accept()
	if tc, ok := conn.(*net.TCPConn); ok {
		tc.SetReadBuffer(2048)
		tc.SetWriteBuffer(16 << 10)
	}
	return conn, err
}
