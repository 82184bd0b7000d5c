//go:build go1.22

package textsecure

import (
	"fmt"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// The model of the server's web socket: it sends frames, and records what comes back.

var (
	wsServer *httptest.Server
	wsOnce   sync.Once
	wsMu     sync.Mutex
	wsAccept = 101
	wsConns  = make(chan *websocket.Conn, 8)
	wsAsked  []string
)

func wsStart() {
	wsOnce.Do(func() {
		up := websocket.Upgrader{}
		wsServer = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			wsMu.Lock()
			wsAsked = append(wsAsked, r.URL.RequestURI())
			st := wsAccept
			wsMu.Unlock()
			if st == 0 {
				drop(rw)
				return
			}
			if st != 101 {
				rw.WriteHeader(st)
				return
			}
			conn, err := up.Upgrade(rw, r, nil)
			if err == nil {
				wsConns <- conn
			}
		}))
	})
}

type ack34 struct {
	id, status uint64
}

// acks34 reads what the client sends.
type acks34 struct {
	mu   sync.Mutex
	got  []ack34
	odd  []string
	done chan struct{}
}

func (a *acks34) read(conn *websocket.Conn) {
	defer close(a.done)
	for {
		typ, b, err := conn.ReadMessage()
		if err != nil {
			return
		}
		m := &signalservice.WebSocketMessage{}
		a.mu.Lock()
		if e := proto.Unmarshal(b, m); e != nil || typ != websocket.BinaryMessage || m.GetType() != signalservice.WebSocketMessage_RESPONSE || m.Response == nil || m.Request != nil || m.Response.Id == nil {
			a.odd = append(a.odd, fmt.Sprintf("%d %x %v", typ, b, e))
		} else {
			a.got = append(a.got, ack34{m.Response.GetId(), uint64(m.Response.GetStatus())})
		}
		a.mu.Unlock()
	}
}

func (a *acks34) count() int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return len(a.got) + len(a.odd)
}

func TestC34Socket(t *testing.T) {
	kit.Check(t, "the client listened to the model socket and answered at least one request, or was refused a connection", func(c *kit.Case) {
		w := newWorld(c, "")
		zkInit(c)
		wsStart()
		config.ConfigFile.Server = wsServer.URL
		registration.Registration.Password = kit.Pick(c.T, "password", []string{ourPass, "q2+/Zm9+v7/+", "+", "a b&c=d", "%41#?;", "p\u00e4ss"})
		bob := newPeer(bobUUID, 1)
		w.peers[bobUUID] = bob
		wsconn = nil
		if err := StopListening(); err == nil {
			c.Bad("stopping to listen succeeds when nobody listens")
		}
		ts := uint64(1600000000000)
		var old [][]byte // bodies sent before
		for round := c.Int("connections", 1, 3); round > 0; round-- {
			w.take()
			if c.Chance("refused", 1, 6) {
				st := kit.Pick(c.T, "answer", []int{200, 401, 403, 404, 413, 429, 500, 503, 0})
				if c.Chance("other status", 1, 3) {
					st = kit.Refusal(c.T, "status", []int{400, 500})
				}
				wsMu.Lock()
				wsAccept = st
				wsMu.Unlock()
				if c.Chance("no server", 1, 3) {
					l, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						c.Broken("%v", err)
					}
					config.ConfigFile.Server = "http://" + l.Addr().String()
					l.Close()
				}
				var err error
				c.NoPanic("listening", func() { err = StartListening() })
				c.Step("listening, answered with %d at %s: %v", st, config.ConfigFile.Server, err)
				if err == nil {
					c.Bad("listening to a server that refuses (%d) succeeds", st)
				}
				c.NoPanic("stopping", func() { StopListening() })
				wsMu.Lock()
				wsAccept = 101
				wsMu.Unlock()
				config.ConfigFile.Server = wsServer.URL
				c.NonTrivial()
				c.Class("refused")
				continue
			}
			// the frames of this connection
			var frames [][]byte
			var wantAcks []ack34
			var wantCalls []string
			requestOf := map[string]int{} // the requests before that of a message
			frame := func(kind string, m *signalservice.WebSocketMessage) {
				b, err := proto.Marshal(m)
				if err != nil {
					c.Broken("%v", err)
				}
				frames = append(frames, b)
				c.Class(kind)
				c.Step("frame %d: %s, id %d, %d bytes", len(frames), kind, m.GetRequest().GetId(), len(b))
				if m.GetType() == signalservice.WebSocketMessage_REQUEST {
					wantAcks = append(wantAcks, ack34{m.Request.GetId(), 200})
				}
			}
			req := func(kind string, body []byte, path string) {
				id := kit.Pick(c.T, "id", []uint64{0, 1, 2, 127, 128, math.MaxUint32, math.MaxInt64, math.MaxUint64, uint64(len(frames)) + 10})
				m := &signalservice.WebSocketMessage{Type: signalservice.WebSocketMessage_REQUEST.Enum(), Request: &signalservice.WebSocketRequestMessage{
					Verb: proto.String("PUT"), Path: proto.String(path), Body: body, Id: &id}}
				if c.Chance("headers", 1, 2) {
					m.Request.Headers = []string{"X-Signal-Key: false", "X-Signal-Timestamp: 1"}
				}
				frame(kind, m)
			}
			genuine := func() []byte {
				ts++
				text := fmt.Sprintf("text %d", ts)
				b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: &ts, Body: &text}})
				typ, m := bob.devs[1].send(w.ourBundle(true), padTo160(b))
				dev, at := uint32(1), ts
				e, _ := proto.Marshal(&signalservice.Envelope{Type: &typ, SourceUuid: proto.String(bobUUID), SourceDevice: &dev, Timestamp: &at, ServerTimestamp: &at, Content: m})
				if c.Chance("with the signaling key", 1, 3) {
					e = signaled(c, e)
				}
				return e
			}
			n := c.Int("frames", 1, 8)
			if c.Chance("many", 1, 25) {
				n = 0
				for i := 0; i < 400; i++ {
					id := uint64(1000 + i)
					frame("zero bytes", &signalservice.WebSocketMessage{Type: signalservice.WebSocketMessage_REQUEST.Enum(), Request: &signalservice.WebSocketRequestMessage{Id: &id}})
				}
			}
			for ; n > 0; n-- {
				const path = "/api/v1/message"
				switch c.Int("frame", 0, 10) {
				case 0, 1, 2:
					b := genuine()
					old = append(old, b)
					wantCalls = append(wantCalls, fmt.Sprintf("text %d", ts))
					requestOf[wantCalls[len(wantCalls)-1]] = len(wantAcks)
					req("a genuine message", b, path)
				case 3:
					if len(old) > 0 {
						req("a message once more", kit.Pick(c.T, "which", old), path)
					}
				case 4:
					b := genuine()
					if mb, _ := kit.Mutate(c.T, append([]byte{}, b...)); c.Chance("cut", 1, 2) || len(mb) == 0 {
						b = b[:c.Int("to", 1, len(b)-1)]
					} else {
						b = mb
					}
					// what an altered envelope does is decided by C22; here the content is spoilt
					env := &signalservice.Envelope{}
					if proto.Unmarshal(b, env) == nil && env.Type != nil && len(env.Content) > 0 {
						env.Content = env.Content[:len(env.Content)-1]
						b, _ = proto.Marshal(env)
					}
					req("an altered message", b, path)
				case 5:
					b := kit.Bytes(300).Draw(c.T, "garbage")
					if c.Chance("large", 1, 6) {
						b = kit.Fill(c.T, c.Int("size", 1000, 70000))
					}
					req("garbage", b, path)
				case 6:
					req("the end of the queue", nil, "/api/v1/queue/empty")
				case 7:
					req("zero bytes", nil, path)
				case 8:
					e := kit.Pick(c.T, "envelope", []*signalservice.Envelope{{}, {Type: signalservice.Envelope_UNKNOWN.Enum()}, {Type: signalservice.Envelope_KEY_EXCHANGE.Enum(), SourceUuid: proto.String(bobUUID)},
						{Type: signalservice.Envelope_CIPHERTEXT.Enum(), SourceUuid: proto.String(carolUUID), SourceDevice: proto.Uint32(1), Content: []byte("x")},
						{Type: signalservice.Envelope_PREKEY_BUNDLE.Enum(), SourceUuid: proto.String(bobUUID), SourceDevice: proto.Uint32(1), Content: []byte{}}})
					b, _ := proto.Marshal(e)
					req("an odd envelope", b, path)
				case 9:
					frame("a response", &signalservice.WebSocketMessage{Type: signalservice.WebSocketMessage_RESPONSE.Enum(), Response: &signalservice.WebSocketResponseMessage{
						Id: proto.Uint64(uint64(c.Int("response id", 0, 5))), Status: proto.Uint32(200), Message: proto.String("OK")}})
				case 10:
					frames = append(frames, kit.Pick(c.T, "malformed frame", [][]byte{{0xff}, {0x08}, {0x12, 0x05, 1}, []byte("not a frame"), {}}))
					c.Step("frame %d: malformed %x", len(frames), frames[len(frames)-1])
					c.Class("a malformed frame")
				}
			}
			end := kit.Pick(c.T, "end", []string{"closed", "going away", "cut off", "stopped"})
			slow := c.Chance("slow handler", 1, 10)
			wsMu.Lock()
			wsAsked = nil
			wsMu.Unlock()

			a := &acks34{done: make(chan struct{})}
			early := ""
			var handled []string
			client.MessageHandler = func(m *Message) {
				if slow {
					time.Sleep(10 * time.Millisecond)
				}
				handled = append(handled, m.Message())
				if n, at := a.count(), requestOf[m.Message()]; n > at {
					early = fmt.Sprintf("%d requests were acknowledged when the message of request %d was handed over", n, at+1)
				}
			}
			finished := make(chan error, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						finished <- fmt.Errorf("panic: %v", r)
					}
				}()
				finished <- StartListening()
			}()
			var conn *websocket.Conn
			select {
			case conn = <-wsConns:
			case err := <-finished:
				c.Bad("listening: %v", err)
			case <-time.After(20 * time.Second):
				c.Bad("no connection is made")
			}
			go a.read(conn)
			broken := false
			for _, f := range frames {
				conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
				if err := conn.WriteMessage(websocket.BinaryMessage, f); err != nil {
					broken = true
					break
				}
			}
			until := time.Now().Add(20 * time.Second)
			if broken {
				until = time.Now()
			}
			for a.count() < len(wantAcks) && time.Now().Before(until) {
				select {
				case err := <-finished:
					finished <- err
					until = time.Now()
				case <-time.After(200 * time.Microsecond):
				}
			}
			time.Sleep(time.Millisecond) // for more than is right
			switch end {
			case "closed", "going away":
				code := websocket.CloseNormalClosure
				if end == "going away" {
					code = websocket.CloseGoingAway
				}
				conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(code, ""), time.Now().Add(time.Second))
			case "cut off":
				conn.UnderlyingConn().Close()
			case "stopped":
				c.NoPanic("stopping", func() {
					if err := StopListening(); err != nil {
						c.Bad("stopping: %v", err)
					}
				})
			}
			var err error
			select {
			case err = <-finished:
			case <-time.After(20 * time.Second):
				c.Bad("listening goes on after the connection was %s", end)
			}
			conn.Close()
			<-a.done
			c.Step("connection %s: %v", end, err)
			if err == nil {
				c.Bad("listening ends without an error when the connection is %s", end)
			}
			if len(a.odd) > 0 {
				c.Bad("the server received %q", a.odd)
			}
			if len(a.got) != len(wantAcks) || len(wantAcks) > 0 && !reflect.DeepEqual(a.got, wantAcks) {
				c.Bad("the acknowledgements %v, not %v (%v)", a.got, wantAcks, err)
			}
			if !reflect.DeepEqual(handled, wantCalls) {
				c.Bad("handled %q, not %q", handled, wantCalls)
			}
			if early != "" {
				c.Bad("%s", early)
			}
			if len(wantAcks) > 0 {
				c.NonTrivial()
			}
			wsMu.Lock()
			asked := wsAsked
			wsMu.Unlock()
			if len(asked) != 1 {
				c.Bad("connected %d times: %q", len(asked), asked)
			}
			u, err := url.ParseRequestURI(asked[0])
			if err != nil {
				c.Bad("connected with %q", asked)
			}
			q, err := url.ParseQuery(u.RawQuery)
			if want := (url.Values{"login": {ourUUID}, "password": {registration.Registration.Password}}); err != nil || u.Path != "/v1/websocket/" || !reflect.DeepEqual(q, want) {
				c.Bad("connected with %q, not as %q (%v)", asked, want, err)
			}
		}
	})
}
