//go:build go1.22

package crayfish

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// The model of the helper process: the test answers on its socket.

var (
	conns36 = make(chan *websocket.Conn, 16)
	once36  sync.Once
	fail36  error
)

func start36() error {
	once36.Do(func() {
		var l net.Listener
		for i := 0; ; i++ {
			if l, fail36 = net.Listen("tcp", "127.0.0.1:9081"); fail36 == nil {
				break
			}
			if i > 3000 {
				return
			}
			time.Sleep(100 * time.Millisecond)
		}
		up := websocket.Upgrader{}
		go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			if r.URL.Path != "/libsignal" {
				rw.WriteHeader(404)
				return
			}
			conn, err := up.Upgrade(rw, r, nil)
			if err == nil {
				conns36 <- conn
			}
		}))
	})
	return fail36
}

type helper36 struct {
	c     *kit.Case
	conn  *websocket.Conn
	pongs chan string
	in    chan []byte
	ended chan error
}

// connect lets the client connect to the helper.
func connect36(c *kit.Case, inst *CrayfishInstance) *helper36 {
	h := &helper36{c: c, pongs: make(chan string, 8), in: make(chan []byte, 64), ended: make(chan error, 1)}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				h.ended <- fmt.Errorf("panic: %v", r)
			}
		}()
		h.ended <- inst.StartWebsocket()
	}()
	select {
	case h.conn = <-conns36:
	case err := <-h.ended:
		c.Bad("connecting to the helper: %v", err)
	case <-time.After(30 * time.Second):
		c.Bad("no connection to the helper is made")
	}
	conn := h.conn
	conn.SetPongHandler(func(s string) error { h.pongs <- s; return nil })
	go func() {
		defer close(h.in)
		for {
			_, b, err := conn.ReadMessage()
			if err != nil {
				return
			}
			h.in <- b
		}
	}()
	return h
}

func (h *helper36) send(b []byte) {
	h.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	h.conn.WriteMessage(websocket.TextMessage, b)
}

// settled waits until the client has read everything that was sent.
func (h *helper36) settled() {
	h.conn.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(20*time.Second))
	select {
	case <-h.pongs:
	case err := <-h.ended:
		h.c.Bad("the connection to the helper ended: %v", err)
	case <-time.After(20 * time.Second):
		h.c.Bad("the client does not read what the helper sends any more")
	}
}

// request is the next request of the client.
func (h *helper36) request() []byte {
	select {
	case b, ok := <-h.in:
		if !ok {
			h.c.Bad("the client ended the connection to the helper")
		}
		return b
	case <-time.After(20 * time.Second):
		h.c.Bad("no request reaches the helper")
	}
	return nil
}

func (h *helper36) close() {
	h.conn.Close()
	select {
	case <-h.ended:
	case <-time.After(20 * time.Second):
		h.c.Bad("the client goes on when the helper's connection is closed")
	}
}

func js(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func reply36(typ int, msg any) []byte {
	return js(map[string]any{"type": 2, "response": map[string]any{"type": typ, "message": msg}})
}

// noise36 is something that does not answer the pending request.
func noise36(c *kit.Case, pending int) []byte {
	n := [][]byte{
		[]byte(`{}`), []byte(``), []byte(`{`), []byte(`null`), []byte(`[]`), []byte(`"text"`), []byte(`7`), []byte("\xff\xfe"), []byte(`<html>`),
		[]byte(`{"type":2}`), []byte(`{"type":2,"response":null}`), []byte(`{"type":2,"response":{}}`), []byte(`{"type":2,"response":{"message":{}}}`), []byte(`{"type":2,"response":[]}`),
		[]byte(`{"type":1}`), []byte(`{"type":1,"request":null}`), []byte(`{"type":1,"request":{}}`), []byte(`{"type":1,"request":{"type":3,"message":{}}}`), []byte(`{"type":1,"request":{"type":"x"}}`),
		[]byte(`{"type":0}`), []byte(`{"type":99,"response":{"type":3}}`), []byte(`{"type":"2"}`), []byte(`{"response":{"type":3,"message":{"message":"aGk="}}}`),
		reply36(1, map[string]any{"status": "ok"}), reply36(1, nil), reply36(0, map[string]any{}), reply36(-1, "x"),
	}
	if pending != 2 {
		n = append(n, reply36(2, map[string]any{"uuid": make([]int, 16), "storage_capable": false}))
	}
	if pending == 2 || pending == 0 {
		n = append(n, reply36(3, map[string]any{"message": "bm9pc2U=", "timestamp": 1, "sender_device": 9, "sender": map[string]any{"uuid": "noise"}}), reply36(3, map[string]any{"avatar": "bm9pc2U="}))
	}
	return kit.Pick(c.T, "noise", n)
}

type result36 struct {
	env   *CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE
	pic   []byte
	reg   *CrayfishRegistration
	err   error
	panic any
}

func call36(f func(*result36)) chan result36 {
	out := make(chan result36, 1)
	go func() {
		var r result36
		defer func() {
			if p := recover(); p != nil {
				r.panic = p
			}
			out <- r
		}()
		f(&r)
	}()
	return out
}

func (h *helper36) wait(what string, ch chan result36) result36 {
	select {
	case r := <-ch:
		if r.panic != nil {
			h.c.Bad("%s: panic: %v", what, r.panic)
		}
		return r
	case <-time.After(20 * time.Second):
		h.c.Bad("%s does not return", what)
	}
	return result36{}
}

func TestC36Helper(t *testing.T) {
	kit.Check(t, "a request was answered by the model of the helper, or failed with its connection", func(c *kit.Case) {
		if err := start36(); err != nil {
			c.Broken("%v", err)
		}
		me, _ := os.FindProcess(os.Getpid())
		inst := &CrayfishInstance{LocalUUID: kit.Pick(c.T, "local uuid", []string{"00000000-0000-4000-8000-0000000000aa", ""}), LocalDeviceID: int32(c.Int("device", 0, 3)), cmd: &exec.Cmd{Process: me}}
		if Instance == nil {
			Instance = inst
		}
		if c.Chance("too early", 1, 8) {
			r := (&helper36{c: c}).wait("a request before the helper is connected", call36(func(r *result36) { r.env, r.err = inst.HandleEnvelope([]byte("x")) }))
			if r.err == nil {
				c.Bad("a request before the helper is connected: %v", r.env)
			}
		}
		h := connect36(c, inst)
		defer func() { h.conn.Close() }()
		for n := c.Int("requests", 1, 5); n > 0; n-- {
			for k := c.Int("noise before", 0, 3); k > 0; k-- {
				b := noise36(c, 0)
				c.Step("the helper sends %q", b)
				h.send(b)
			}
			h.settled() // an answer before its question can not be told from one after it
			kind := kit.Pick(c.T, "request", []string{"envelope", "envelope", "avatar", "verify", "register", "several envelopes", "bad code"})
			c.Class(kind)
			c.NonTrivial()
			info := &registration.RegistrationInfo{Password: kit.Pick(c.T, "password", []string{"", "secret", "pässword\n"}), Name: kit.Pick(c.T, "name", []string{"", "A \"name\" 🦊"}), SignalingKey: kit.Fill(c.T, 52)}
			tel, captcha := kit.Pick(c.T, "tel", []string{"+4915112345678", "+1"}), kit.Pick(c.T, "captcha", []string{"", "signal-recaptcha-v2.x&y=<z>"})
			switch kind {
			case "register":
				r := h.wait(kind, call36(func(r *result36) { r.err = inst.CrayfishRegister(info, tel, captcha) }))
				c.Step("register: %v", r.err)
				want := map[string]any{"type": 1.0, "request": map[string]any{"type": 1.0, "message": map[string]any{"number": tel, "password": info.Password, "captcha": captcha, "use_voice": false}}}
				if r.err != nil {
					c.Bad("register: %v", r.err)
				}
				h.same(kind, want, h.request())
				continue
			case "bad code":
				code := kit.Pick(c.T, "code", []string{"", "12a456", "-1", "123 456", "99999999999"})
				r := h.wait(kind, call36(func(r *result36) { r.reg, r.err = inst.CrayfishRegisterWithCode(info, tel, captcha, code) }))
				c.Step("register with the code %q: %v", code, r.err)
				if r.err == nil {
					c.Bad("registering with the code %q: %v", code, r.reg)
				}
				continue
			case "several envelopes":
				m := c.Int("callers", 2, 5)
				chs := map[string]chan result36{}
				for i := 0; i < m; i++ {
					msg := []byte(fmt.Sprintf("envelope %d of %d", i, n))
					chs[base64.StdEncoding.EncodeToString(msg)] = call36(func(r *result36) { r.env, r.err = inst.HandleEnvelope(msg) })
				}
				for i := 0; i < m; i++ {
					var in struct {
						Request struct {
							Message struct{ Message string }
						}
					}
					b := h.request()
					if json.Unmarshal(b, &in) != nil || chs[in.Request.Message.Message] == nil {
						c.Bad("the helper received %q", b)
					}
					if c.Chance("slow", 1, 3) {
						time.Sleep(time.Millisecond)
					}
					h.send(reply36(3, map[string]any{"message": "re:" + in.Request.Message.Message, "timestamp": i}))
				}
				for k, ch := range chs {
					r := h.wait("one of several requests", ch)
					c.Step("caller of %s: %+v %v", k, r.env, r.err)
					if r.err != nil || r.env.Message != "re:"+k {
						c.Bad("the request %s is answered with %+v, %v", k, r.env, r.err)
					}
				}
				continue
			}
			var ch chan result36
			var wantReq map[string]any
			var right []byte
			var wantRes result36
			typ := 3
			spoilt := [][]byte{}
			for _, m := range []any{nil, 7, "text", []any{1}, true} {
				spoilt = append(spoilt, []byte(fmt.Sprintf(`{"type":2,"response":{"type":TYP,"message":%s}}`, js(m))))
			}
			switch kind {
			case "envelope":
				msg := kit.Big(300).Draw(c.T, "envelope")
				wantRes.env = &CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE{Message: base64.StdEncoding.EncodeToString(kit.Bytes(200).Draw(c.T, "content")), Timestamp: int64(c.Int("timestamp", 0, 1<<53)),
					SenderDevice: int32(c.Int("sender device", 0, 9)), Sender: Sender{UUID: kit.Pick(c.T, "sender", []string{"00000000-0000-4000-8000-00000000000b", ""})}}
				wantRes.env.Sender.PhoneNumber.Code = PhoneNumberCode{49, "plus"}
				wantRes.env.Sender.PhoneNumber.National = PhoneNumberNational{uint64(c.Int("national", 0, 1<<40)), c.Int("zeros", 0, 2)}
				right = reply36(3, wantRes.env)
				spoilt = append(spoilt, []byte(`{"type":2,"response":{"type":3,"message":{"message":7}}}`), []byte(`{"type":2,"response":{"type":3,"message":{"timestamp":"x","message":""}}}`), []byte(`{"type":2,"response":{"type":3,"message":{"sender":3}}}`))
				wantReq = map[string]any{"type": 3.0, "message": map[string]any{"message": base64.StdEncoding.EncodeToString(msg), "local_uuid": inst.LocalUUID, "local_device_id": float64(inst.LocalDeviceID)}}
				ch = call36(func(r *result36) { r.env, r.err = inst.HandleEnvelope(msg) })
			case "avatar":
				pic, key := kit.Big(300).Draw(c.T, "avatar"), kit.Fill(c.T, 32)
				wantRes.pic = kit.Big(300).Draw(c.T, "picture")
				typ = kit.Pick(c.T, "reply type", []int{3, 4})
				right = reply36(typ, map[string]any{"avatar": base64.StdEncoding.EncodeToString(wantRes.pic)})
				spoilt = append(spoilt, []byte(`{"type":2,"response":{"type":3,"message":{"avatar":7}}}`), []byte(`{"type":2,"response":{"type":3,"message":{"avatar":"!!"}}}`))
				var k []any
				for _, x := range key {
					k = append(k, float64(x))
				}
				wantReq = map[string]any{"type": 4.0, "message": map[string]any{"avatar": base64.StdEncoding.EncodeToString(pic), "key": k}}
				ch = call36(func(r *result36) { r.pic, r.err = inst.DecryptAvatar(pic, key) })
			case "verify":
				code := kit.Pick(c.T, "code", []string{"123456", "000001", "4294967295", "0"})
				id := kit.Fill(c.T, 16)
				typ = 2
				wantRes.reg = &CrayfishRegistration{UUID: fmt.Sprintf("%x-%x-%x-%x-%x", id[:4], id[4:6], id[6:8], id[8:10], id[10:]), Tel: tel}
				var ids []int
				for _, x := range id {
					ids = append(ids, int(x))
				}
				right = reply36(2, map[string]any{"uuid": ids, "storage_capable": c.Chance("storage", 1, 2)})
				spoilt = append(spoilt, reply36(2, map[string]any{"uuid": ids[:c.Int("length", 0, 15)]}), reply36(2, map[string]any{"uuid": append(ids[:16:16], 1)}), reply36(2, map[string]any{"storage_capable": true}),
					reply36(2, map[string]any{"uuid": "text"}), reply36(2, map[string]any{"uuid": append(ids[:15:15], 256)}), reply36(2, map[string]any{"uuid": nil}))
				var k []any
				for _, x := range info.SignalingKey {
					k = append(k, float64(x))
				}
				var num float64
				fmt.Sscan(code, &num)
				wantReq = map[string]any{"type": 2.0, "message": map[string]any{"confirm_code": num, "number": tel, "password": info.Password, "signaling_key": k, "name": info.Name}}
				ch = call36(func(r *result36) { r.reg, r.err = inst.CrayfishRegisterWithCode(info, tel, captcha, code) })
			}
			h.same(kind, map[string]any{"type": 1.0, "request": wantReq}, h.request())
			for k := c.Int("noise while it waits", 0, 3); k > 0; k-- {
				b := noise36(c, typ)
				c.Step("the helper sends %q", b)
				h.send(b)
			}
			end := kit.Pick(c.T, "answer", []string{"right", "right", "right", "spoilt", "lost"})
			c.Class(kind + " " + end)
			if end == "lost" {
				if c.Chance("settled", 1, 2) {
					h.settled()
				}
				h.conn.Close()
				r := h.wait(kind+" without a connection", ch)
				c.Step("%s without a connection: %v", kind, r.err)
				if r.err == nil {
					c.Bad("%s whose connection was lost: %+v", kind, r)
				}
				h.close()
				h = connect36(c, inst)
				continue
			}
			if end == "spoilt" {
				b := bytes.ReplaceAll(kit.Pick(c.T, "spoilt", spoilt), []byte("TYP"), []byte(fmt.Sprint(typ)))
				c.Step("the helper sends %q", b)
				h.send(b)
				h.settled()
			}
			h.send(right)
			if c.Chance("twice", 1, 4) {
				h.send(right)
			}
			r := h.wait(kind, ch)
			c.Step("%s: %+v %q %+v %v", kind, r.env, r.pic, r.reg, r.err)
			if end == "spoilt" && r.err != nil {
				continue
			}
			if r.err != nil || !reflect.DeepEqual(r.env, wantRes.env) || !bytes.Equal(r.pic, wantRes.pic) || !reflect.DeepEqual(r.reg, wantRes.reg) {
				c.Bad("%s answered with %s (%s) returns %+v %q %+v, %v", kind, right, end, r.env, r.pic, r.reg, r.err)
			}
		}
		h.settled()
		inst.StopListening()
		select {
		case <-h.ended:
		case <-time.After(20 * time.Second):
			c.Bad("the connection to the helper goes on when it is stopped")
		}
	})
}

func (h *helper36) same(what string, want any, got []byte) {
	var v any
	if json.Unmarshal(got, &v) != nil || !reflect.DeepEqual(v, want) {
		h.c.Bad("%s: the helper received %q, not %q", what, got, js(want))
	}
}
