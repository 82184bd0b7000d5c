//go:build go1.22

package textsecure

import (
	"fmt"
	"net"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

func plainReceipt(ts uint64) []byte {
	typ, dev := signalservice.Envelope_RECEIPT, uint32(1)
	e, _ := proto.Marshal(&signalservice.Envelope{Type: &typ, SourceUuid: proto.String(bobUUID), SourceDevice: &dev, Timestamp: &ts, ServerTimestamp: &ts})
	id := ts
	b, _ := proto.Marshal(&signalservice.WebSocketMessage{Type: signalservice.WebSocketMessage_REQUEST.Enum(),
		Request: &signalservice.WebSocketRequestMessage{Verb: proto.String("PUT"), Path: proto.String("/api/v1/message"), Id: &id, Body: e}})
	return b
}

// TestC34Stop stops listening at any time, also while the connection is being made.
func TestC34Stop(t *testing.T) {
	kit.Check(t, "listening was stopped before the server had answered the request for a connection, or listened again after stopping", func(c *kit.Case) {
		newWorld(c, "")
		wsconn = nil
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Broken("%v", err)
		}
		asked, answer := make(chan bool, 8), make(chan bool, 8)
		conns := make(chan *websocket.Conn, 8)
		up := websocket.Upgrader{}
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			asked <- true
			<-answer
			conn, _ := up.Upgrade(rw, r, nil)
			conns <- conn
		})}
		go srv.Serve(l)
		defer srv.Close()
		defer close(answer)
		config.ConfigFile.Server = "http://" + l.Addr().String()
		var mu sync.Mutex
		handled := map[uint64]bool{}
		client.ReceiptHandler = func(source string, dev uint32, ts uint64) {
			mu.Lock()
			handled[ts] = true
			mu.Unlock()
		}
		was := func(ts uint64) bool {
			mu.Lock()
			defer mu.Unlock()
			return handled[ts]
		}
		ts := uint64(100)
		rounds := c.Int("rounds", 1, 3)
		for round := 0; round < rounds; round++ {
			finished := make(chan error, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						finished <- fmt.Errorf("panic: %v", r)
					}
				}()
				finished <- StartListening()
			}()
			select {
			case <-asked:
			case err := <-finished:
				c.Bad("listening: %v", err)
			case <-time.After(20 * time.Second):
				c.Bad("no connection is made")
			}
			early := c.Chance("while connecting", 1, 2)
			var serr error
			stop := func() {
				c.NoPanic("stopping", func() { serr = StopListening() })
				if c.Chance("twice", 1, 4) {
					c.NoPanic("stopping once more", func() { StopListening() })
				}
			}
			if early {
				stop()
				c.Step("stopped while connecting: %v", serr)
				c.NonTrivial()
			}
			answer <- true
			var conn *websocket.Conn
			select {
			case conn = <-conns:
			case <-time.After(20 * time.Second):
				c.Broken("no connection")
			}
			if early {
				if conn == nil && serr != nil {
					c.Bad("stopping was refused (%v), and the connection given up", serr)
				}
			} else if conn == nil {
				c.Bad("the connection was given up")
			}
			send := func() uint64 {
				ts++
				if conn != nil {
					conn.SetWriteDeadline(time.Now().Add(10 * time.Second))
					conn.WriteMessage(websocket.BinaryMessage, plainReceipt(ts))
				}
				return ts
			}
			arrives := func(n uint64) bool {
				for i := 0; i < 20000 && !was(n); i++ {
					time.Sleep(time.Millisecond)
				}
				return was(n)
			}
			if !early || serr != nil {
				for k := c.Int("receipts", 0, 2); k > 0 || serr != nil && k == 0; k-- {
					if n := send(); !arrives(n) {
						c.Bad("a receipt sent while listening is not handed over (stopping: %v)", serr)
					}
				}
			}
			if !early {
				// the connection may not be complete on our side yet
				stop()
				c.Step("stopped when connected: %v", serr)
				if serr != nil {
					c.Bad("stopping fails while listening: %v", serr)
				}
			} else if serr != nil {
				stop()
			}
			late := send()
			select {
			case err := <-finished:
				c.Step("listening ended: %v", err)
				if err == nil {
					c.Bad("listening ends without an error when it is stopped")
				}
			case <-time.After(15 * time.Second):
				c.Bad("listening goes on after it was stopped (while connecting: %v)", early)
			}
			if early && serr == nil && was(late) {
				c.Bad("a receipt sent after listening was stopped is handed over")
			}
			if conn != nil {
				conn.Close()
			}
			if round > 0 {
				c.NonTrivial()
			}
		}
	})
}
