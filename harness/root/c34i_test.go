//go:build go1.22

package textsecure

import (
	"fmt"
	"net"
	"net/http"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

var failed34, fault34 string

// TestC34Idle: a connection on which nothing is sent for more than a minute lives on as long as
// the server answers pings; one whose server answers nothing is given up.
func TestC34Idle(t *testing.T) {
	kit.Check(t, "the connection was idle for more than the minute after which it is given up without an answer", func(c *kit.Case) {
		newWorld(c, "")
		answers := !c.Chance("server is gone", 1, 3)
		before := c.Int("receipts before", 0, 3)
		idle := time.Duration(c.Int("idle seconds", 62, 75)) * time.Second
		pings := c.Chance("server pings", 1, 3)
		gap := time.Duration(c.Int("gap", 5, 30)) * time.Second
		c.Step("server answers: %v, %d receipts, idle %v, server pings: %v every %v", answers, before, idle, pings, gap)
		c.Sig(answers, before, idle, pings, gap)
		// After a failure only the same case is of interest: there is no time to look for a smaller one.
		this := fmt.Sprint(answers, before, idle, pings, gap)
		if failed34 != "" {
			if failed34 == this {
				c.Bad("%s", fault34)
			}
			return
		}
		// one more try: a busy machine may have delayed the answer
		fault := ""
		for try := 0; try < 2; try++ {
			if fault = idle34(c, answers, before, idle, pings, gap); fault == "" {
				break
			}
		}
		if fault != "" {
			failed34, fault34 = this, fault
			c.Bad("%s", fault)
		}
		c.NonTrivial()
	})
}

func idle34(c *kit.Case, answers bool, before int, idle time.Duration, pings bool, gap time.Duration) string {
	wsconn = nil
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Broken("%v", err)
	}
	conns := make(chan *websocket.Conn, 1)
	up := websocket.Upgrader{}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if conn, err := up.Upgrade(rw, r, nil); err == nil {
			conns <- conn
		}
	})}
	go srv.Serve(l)
	defer srv.Close()
	config.ConfigFile.Server = "http://" + l.Addr().String()
	got := make(chan uint64, 64)
	client.ReceiptHandler = func(source string, dev uint32, ts uint64) { got <- ts }
	finished := make(chan error, 1)
	go func() { finished <- StartListening() }()
	var conn *websocket.Conn
	select {
	case conn = <-conns:
	case err := <-finished:
		c.Bad("listening: %v", err)
	case <-time.After(20 * time.Second):
		c.Bad("no connection is made")
	}
	defer conn.Close()
	if answers {
		go func() { // reading answers pings
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					return
				}
			}
		}()
	}
	receipt := func(ts uint64) string {
		if err := conn.WriteMessage(websocket.BinaryMessage, plainReceipt(ts)); err != nil {
			return "the connection is lost: " + err.Error()
		}
		select {
		case n := <-got:
			if n != ts {
				return "another receipt is handed over"
			}
			return ""
		case err := <-finished:
			return "listening ends: " + err.Error()
		case <-time.After(20 * time.Second):
			return "a receipt is not handed over"
		}
	}
	for k := 0; k < before; k++ {
		if f := receipt(uint64(100 + k)); f != "" {
			return "at the beginning: " + f
		}
	}
	if !answers {
		select {
		case err := <-finished:
			if err == nil {
				return "listening ends without an error when the server is gone"
			}
			return ""
		case <-time.After(80 * time.Second):
			StopListening()
			return "listening goes on for 80 s although the server answers nothing"
		}
	}
	end := time.After(idle)
	tick := time.NewTicker(gap)
	defer tick.Stop()
	for waiting := true; waiting; {
		select {
		case <-end:
			waiting = false
		case <-tick.C:
			if pings {
				conn.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(5*time.Second))
			}
		case err := <-finished:
			return "listening on an idle connection ends: " + err.Error()
		}
	}
	if f := receipt(500); f != "" {
		return "after " + idle.String() + " without messages: " + f
	}
	StopListening()
	select {
	case <-finished:
	case <-time.After(20 * time.Second):
		return "listening goes on after it was stopped"
	}
	return ""
}
