//go:build go1.22

package textsecure

import (
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// fault20 is what goes wrong with the next requests.
type fault20 struct {
	at    string // "keys" or "messages"
	kind  string
	left  int // how many requests it hits
	hits  int
	after bool // the request was accepted before the answer got lost
}

func drop(rw http.ResponseWriter) {
	if cn, _, err := rw.(http.Hijacker).Hijack(); err == nil {
		cn.Close()
	}
}

func TestC20Delivery(t *testing.T) {
	kit.Check(t, "a message was accepted after the devices changed or a request failed", func(c *kit.Case) {
		w := newWorld(c, "")
		nextReg := uint32(kit.Pick(c.T, "registration ids", []int{5000, 0x3fff - 60, 8190, 1}))
		fresh := func(d *device) *device { nextReg++; d.reg = nextReg; return d }
		peers := []*peer{newPeer(bobUUID, 1), newPeer(carolUUID, 1, 2)}
		for _, p := range peers {
			w.peers[p.uuid] = p
		}
		own := w.ownDevices()
		if c.Chance("own devices", 1, 3) {
			own = w.ownDevices(2, 3)
		}
		w.needsSync = c.Chance("sync", 1, 2)
		pinned := map[string][32]byte{} // the identity our account trusts
		var f *fault20
		requests := 0
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			requests++
			if requests > 300 {
				rw.WriteHeader(500)
				return true
			}
			at := ""
			switch {
			case r.Method == "GET" && strings.HasPrefix(r.URL.Path, "/v2/keys/"):
				at = "keys"
			case r.Method == "PUT" && strings.HasPrefix(r.URL.Path, "/v1/messages/"):
				at = "messages"
			}
			if f == nil || f.at != at || f.left == 0 {
				return false
			}
			f.left--
			f.hits++
			parts := strings.Split(r.URL.Path, "/")
			dest := parts[3]
			id := 0
			if at == "keys" && len(parts) == 5 {
				id, _ = strconv.Atoi(parts[4])
			}
			item := func() map[string]any {
				if p := w.peers[dest]; p != nil && p.devs[uint32(id)] != nil {
					return p.devs[uint32(id)].item()
				}
				return w.ourItem()
			}
			idk := func() string {
				if p := w.peers[dest]; p != nil {
					return b64key(p.kp.Pub)
				}
				return b64key(w.kp.Pub)
			}
			answer := func(ik any, devices any) {
				jsonReply(rw, 200, map[string]any{"identityKey": ik, "devices": devices})
			}
			switch f.kind {
			case "drop":
				drop(rw)
			case "drop after":
				// the model handles the request, the answer gets lost
				f.after = true
				w.messages(discard{}, dest, body)
				drop(rw)
			case "garbage":
				rw.Write([]byte("<html>no json"))
			case "409 garbage":
				rw.WriteHeader(409)
				rw.Write([]byte("{"))
			case "410 garbage":
				rw.WriteHeader(410)
			case "409 empty":
				jsonReply(rw, 409, map[string]any{"missingDevices": []int{}, "extraDevices": []int{}})
			case "409 unknown":
				jsonReply(rw, 409, map[string]any{"missingDevices": []int{77}, "extraDevices": []int{}})
			case "409 all extra":
				jsonReply(rw, 409, map[string]any{"missingDevices": []int{}, "extraDevices": []int{1, 2, 3, 4, 5}})
			case "409 again":
				ids := []uint32{}
				if p := w.peers[dest]; p != nil {
					ids = p.ids()
				}
				jsonReply(rw, 409, map[string]any{"missingDevices": append(append([]uint32{}, ids...), ids...), "extraDevices": []int{}})
			case "410 all":
				jsonReply(rw, 410, map[string]any{"staleDevices": []int{1, 2, 3, 1}})
			case "410 empty":
				jsonReply(rw, 410, map[string]any{"staleDevices": []int{}})
			case "vanish":
				if p := w.peers[dest]; id != 1 && p != nil && len(p.devs) > 1 {
					delete(p.devs, uint32(id))
					rw.WriteHeader(404)
					break
				}
				return false
			case "no devices":
				answer(idk(), []any{})
			case "other device":
				it := item()
				it["deviceId"] = id + 1
				answer(idk(), []any{it})
			case "bad signature":
				it := item()
				it["signedPreKey"].(map[string]any)["signature"] = strings.Repeat("A", 86)
				answer(idk(), []any{it})
			case "short key":
				it := item()
				it["signedPreKey"].(map[string]any)["publicKey"] = "BQUF"
				answer(idk(), []any{it})
			case "short prekey":
				it := item()
				it["preKey"] = map[string]any{"keyId": 4, "publicKey": "BQ"}
				answer(idk(), []any{it})
			case "no signed prekey":
				it := item()
				delete(it, "signedPreKey")
				answer(idk(), []any{it})
			case "no identity":
				answer(nil, []any{item()})
			case "bad base64":
				answer("not base64!", []any{item()})
			case "null":
				rw.Write([]byte("null"))
			default:
				s, _ := strconv.Atoi(f.kind)
				rw.WriteHeader(s)
			}
			return true
		}
		faultKinds := map[string][]string{
			"keys":     {"drop", "garbage", "400", "403", "404", "413", "500", "503", "vanish", "vanish", "no devices", "other device", "bad signature", "short key", "short prekey", "no signed prekey", "no identity", "bad base64", "null"},
			"messages": {"drop", "drop after", "400", "401", "404", "413", "428", "500", "503", "409 garbage", "410 garbage", "409 empty", "409 unknown", "409 all extra", "409 again", "410 all", "410 empty"},
		}
		changed := false
		ts := uint64(10)
		for step := c.Int("steps", 2, 12); step > 0; step-- {
			p := kit.Pick(c.T, "peer", peers)
			switch op := c.Int("op", 0, 13); op {
			case 0: // a device is linked
				id := uint32(c.Int("id", 2, 5))
				if p.devs[id] == nil {
					p.devs[id] = fresh(newDevice(id, 0, p.kp))
					p.devs[id].noOPK = c.Chance("no one-time prekey", 1, 3)
					c.Step("device %d of %s linked", id, p.uuid[34:])
					changed = true
				}
			case 1: // a device is unlinked
				id := uint32(c.Int("id", 2, 5))
				if p.devs[id] != nil {
					delete(p.devs, id)
					c.Step("device %d of %s unlinked", id, p.uuid[34:])
					changed = true
				}
			case 2, 3: // a device is registered again
				id := kit.Pick(c.T, "which", p.ids())
				p.devs[id] = fresh(newDevice(id, 0, p.kp))
				p.devs[id].noOPK = c.Chance("no one-time prekey", 1, 3)
				c.Step("device %d of %s registered again", id, p.uuid[34:])
				changed = true
			case 4: // restart
				deviceLists = map[string][]uint32{}
				openStore(c, "", w.dir)
				c.Step("restart")
				changed = true
			case 5: // own devices change
				if len(own.devs) > 0 || c.Chance("link own", 1, 2) {
					id := uint32(c.Int("id", 2, 4))
					if own.devs[id] == nil {
						own.devs[id] = fresh(newDevice(id, 0, w.kp))
					} else {
						delete(own.devs, id)
					}
					c.Step("own devices now %v", own.ids())
					changed = true
				}
			case 6: // a new identity
				if !c.Chance("new identity", 1, 3) {
					break
				}
				p.kp = ref.NewKeyPair()
				p.devs = map[uint32]*device{1: fresh(newDevice(1, 0, p.kp))}
				c.Step("%s installs from scratch", p.uuid[34:])
				changed = true
			case 7, 8: // a message comes in
				id := kit.Pick(c.T, "which", p.ids())
				ts++
				b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: &ts, Body: proto.String("in")}})
				typ, m := p.devs[id].send(w.ourBundle(c.Chance("last resort", 1, 2)), padTo160(b))
				w.take()
				c.NoPanic("handleReceivedMessage", func() {
					err := w.deliver(p, id, typ, m, ts)
					pin, ok := pinned[p.uuid]
					if ok && pin != p.kp.Pub {
						if err == nil || len(w.take()) != 0 {
							c.Bad("a message under an identity that is not trusted is accepted")
						}
						p.devs[id].sessions = nil
						return
					}
					if err != nil || len(w.take()) != 1 {
						c.Bad("a message of device %d of %s is not received: %v", id, p.uuid[34:], err)
					}
					pinned[p.uuid] = p.kp.Pub
				})
				c.Step("device %d of %s writes", id, p.uuid[34:])
			default: // we send
				f = nil
				if c.Chance("fault", 1, 3) {
					at := kit.Pick(c.T, "at", []string{"keys", "messages", "messages"})
					f = &fault20{at: at, kind: kit.Pick(c.T, "kind", faultKinds[at]), left: kit.Pick(c.T, "times", []int{1, 1, 2, 1000})}
					if f.kind == "400" {
						f.kind = strconv.Itoa(kit.Refusal(c.T, "status", []int{400, 411}, 404, 409, 410, 428))
					}
				}
				pin, ok := pinned[p.uuid]
				untrusted := ok && pin != p.kp.Pub
				if untrusted && c.Chance("trust the new identity", 2, 3) {
					key := p.kp.Pub
					if err := textSecureStore.SaveIdentity(p.uuid, axolotl.NewIdentityKey(key[:])); err != nil {
						c.Broken("%v", err)
					}
					pinned[p.uuid] = p.kp.Pub
					untrusted = false
					c.Step("the new identity is trusted")
				}
				requests = 0
				w.takeAcc()
				text := fmt.Sprintf("text %d", step)
				var sent uint64
				var err error
				c.NoPanic("SendMessage", func() { sent, err = SendMessage(p.uuid, text, 0) })
				fd := "no fault"
				if f != nil && f.hits > 0 {
					fd = fmt.Sprintf("%s %s x%d", f.at, f.kind, f.hits)
				}
				c.Step("send to %s (%s): %v", p.uuid[34:], fd, err)
				if requests > 200 {
					c.Bad("the client makes %d requests for one message (%s)", requests, fd)
				}
				var toPeer, toOwn []accepted
				for _, a := range w.takeAcc() {
					if a.dest == p.uuid {
						toPeer = append(toPeer, a)
					} else if a.dest == ourUUID {
						toOwn = append(toOwn, a)
					} else {
						c.Bad("a message for %s goes to %s", p.uuid, a.dest)
					}
				}
				hit := f != nil && f.hits > 0
				if err == nil && len(toPeer) != 1 {
					c.Bad("sending succeeds, the server accepted %d requests (%s)", len(toPeer), fd)
				}
				if err != nil && len(toPeer) > 0 && (f == nil || !f.after) {
					c.Bad("sending fails, the server accepted %d requests (%s): %v", len(toPeer), fd, err)
				}
				if err != nil && !hit && !untrusted {
					c.Bad("sending fails although nothing is wrong: %v", err)
				}
				if untrusted && len(toPeer) > 0 {
					c.Bad("a message is sent under an identity that is not trusted")
				}
				for _, a := range toPeer {
					pts, cerr := w.check(a)
					if cerr != nil {
						c.Bad("accepted request (%s): %v", fd, cerr)
					}
					for id, pt := range pts {
						b, uerr := unpad(pt)
						ct := &signalservice.Content{}
						if uerr != nil || proto.Unmarshal(b, ct) != nil || ct.GetDataMessage().GetBody() != text {
							c.Bad("device %d got %v (%v), %q was sent", id, ct, uerr, text)
						}
						if err == nil && (ct.DataMessage.GetTimestamp() != sent || a.ts != sent) {
							c.Bad("timestamps %d, %d and %d differ", ct.DataMessage.GetTimestamp(), a.ts, sent)
						}
					}
					pinned[p.uuid] = p.kp.Pub
				}
				if len(toOwn) > 1 || len(toOwn) == 1 && !w.needsSync {
					c.Bad("%d messages for the own devices (sync wanted: %v)", len(toOwn), w.needsSync)
				}
				if w.needsSync && err == nil && !hit && len(toOwn) != 1 {
					c.Bad("the server asked for a sync message, there were %d", len(toOwn))
				}
				for _, a := range toOwn {
					pts, cerr := w.check(a)
					if cerr != nil {
						c.Bad("accepted request to the own devices (%s): %v", fd, cerr)
					}
					for id, pt := range pts {
						b, uerr := unpad(pt)
						ct := &signalservice.Content{}
						if uerr != nil || proto.Unmarshal(b, ct) != nil {
							c.Bad("own device %d got %x (%v)", id, pt, uerr)
						}
						s := ct.GetSyncMessage().GetSent()
						if s.GetDestinationUuid() != p.uuid || s.GetMessage().GetBody() != text || err == nil && s.GetTimestamp() != sent {
							c.Bad("own device %d is told %v", id, ct)
						}
					}
				}
				if len(toPeer) == 1 && (changed || hit) {
					c.NonTrivial()
				}
				if !ok && len(toPeer) == 0 {
					// a bundle may have been pinned although nothing was sent
					if b, kerr := ContactIdentityKey(p.uuid); kerr == nil {
						var k [32]byte
						copy(k[:], b[1:])
						if k != p.kp.Pub {
							c.Bad("the identity of %s is pinned to a key the server never gave", p.uuid)
						}
						pinned[p.uuid] = k
					}
				}
				f = nil
			}
			if len(w.problems) > 0 {
				c.Bad("%s", w.problems[0])
			}
		}
	})
}

// discard is an answer that gets lost.
type discard struct{}

func (discard) Header() http.Header         { return http.Header{} }
func (discard) Write(b []byte) (int, error) { return len(b), nil }
func (discard) WriteHeader(int)             {}

var _ = json.Marshal
var _ = config.ConfigFile

// TestC20Concurrent sends from several goroutines, as an application and the
// receiving goroutine (which answers sync requests) do.
func TestC20Concurrent(t *testing.T) {
	kit.Check(t, "two messages to the same recipient were sent at the same time", func(c *kit.Case) {
		w := newWorld(c, "")
		nextReg := uint32(5000)
		peers := []*peer{newPeer(bobUUID, 1), newPeer(carolUUID, 1, 2), newPeer(daveUUID, 1)}
		many := 6
		if c.Chance("many recipients", 1, 3) {
			for i := 0; i < 4; i++ {
				peers = append(peers, newPeer(fmt.Sprintf("00000000-0000-4000-8000-00000000a0%02d", i), 1))
			}
			many = 12
		}
		for _, p := range peers {
			w.peers[p.uuid] = p
		}
		if c.Chance("own devices", 1, 3) {
			w.ownDevices(2)
		}
		w.needsSync = c.Chance("sync", 1, 2)
		type job struct {
			p    *peer
			text string
			err  error
			ts   uint64
			in   *device
			typ  signalservice.Envelope_Type
			b    []byte
			pan  any
		}
		ts := uint64(1000)
		for round := c.Int("rounds", 1, 3); round > 0; round-- {
			// devices that registered again, and write at once
			var again []*device
			of := map[*device]*peer{}
			for _, p := range peers {
				for _, id := range []uint32{1, 2, 3} {
					nextReg++
					switch {
					case !c.Chance("change", 1, 6):
					case p.devs[id] == nil || c.Chance("again", 1, 2):
						p.devs[id] = newDevice(id, nextReg, p.kp)
						c.Step("device %d of %s registers", id, p.uuid[34:])
						again = append(again, p.devs[id])
						of[p.devs[id]] = p
					case id != 1:
						delete(p.devs, id)
						c.Step("device %d of %s unlinked", id, p.uuid[34:])
					}
				}
			}
			if c.Chance("restart", 1, 4) {
				deviceLists = map[string][]uint32{}
				c.Step("restart")
			}
			var jobs []*job
			n := map[string]int{}
			for i := c.Int("jobs", 2, many); i > 0; i-- {
				p := kit.Pick(c.T, "peer", peers)
				j := &job{p: p, text: fmt.Sprintf("round %d job %d", round, i)}
				if c.Chance("incoming", 1, 4) {
					j.in = p.devs[kit.Pick(c.T, "dev", p.ids())]
					if len(again) > 0 && c.Chance("registered again", 2, 3) {
						j.in, again = again[0], again[1:]
						p = of[j.in]
						j.p = p
					}
					ts++
					b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: &ts, Body: &j.text}})
					j.typ, j.b = j.in.send(w.ourBundle(true), padTo160(b))
					c.Step("device %d of %s writes", j.in.id, p.uuid[34:])
				} else {
					n[p.uuid]++
					c.Step("send to %s", p.uuid[34:])
				}
				jobs = append(jobs, j)
			}
			w.take()
			w.takeAcc()
			start, done := make(chan bool), make(chan bool)
			for _, j := range jobs {
				go func() {
					defer func() {
						j.pan = recover()
						done <- true
					}()
					<-start
					if j.in != nil {
						j.err = w.deliver(j.p, j.in.id, j.typ, j.b, 1)
						return
					}
					j.ts, j.err = SendMessage(j.p.uuid, j.text, 0)
				}()
			}
			close(start)
			for range jobs {
				<-done
			}
			texts := map[string]int{}
			for _, j := range jobs {
				if j.pan != nil {
					c.Bad("panic: %v", j.pan)
				}
				if j.err != nil {
					c.Bad("a message (incoming %v) for %s fails although nothing is wrong: %v", j.in != nil, j.p.uuid, j.err)
				}
				texts[j.p.uuid+j.text]++
			}
			if len(w.problems) > 0 {
				c.Bad("%s", w.problems[0])
			}
			for _, a := range w.takeAcc() {
				if a.dest != ourUUID {
					if n[a.dest] > 1 {
						c.NonTrivial()
					}
				}
				pts, err := w.check(a)
				if err != nil {
					c.Bad("to %s: %v", a.dest, err)
				}
				if a.dest == ourUUID {
					continue
				}
				text := ""
				for id, pt := range pts {
					b, _ := unpad(pt)
					ct := &signalservice.Content{}
					if proto.Unmarshal(b, ct) != nil || ct.DataMessage == nil || text != "" && ct.DataMessage.GetBody() != text {
						c.Bad("device %d of %s got %v", id, a.dest, ct)
					}
					text = ct.DataMessage.GetBody()
				}
				texts[a.dest+text]--
			}
			calls := w.take()
			for _, cl := range calls {
				texts[cl.msg.SourceUUID()+cl.msg.Message()]--
			}
			for k, v := range texts {
				if v != 0 {
					c.Bad("message %q was delivered %d times too few", k, v)
				}
			}
		}
	})
}

// TestC20Renewal: a device that registered again writes while a message to
// it is being made.
func TestC20Renewal(t *testing.T) {
	kit.Check(t, "a device that registered again wrote while a message to it was sent, and the message was read", func(c *kit.Case) {
		// few threads let one side overtake the other at any point
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Int("threads", 1, 2)))
		w := newWorld(c, "")
		bob := newPeer(bobUUID, 1)
		w.peers[bob.uuid] = bob
		ts := uint64(1000)
		if _, err := SendMessage(bob.uuid, "first", 0); err != nil {
			c.Bad("sending fails: %v", err)
		}
		if c.Chance("second device", 1, 2) {
			bob.devs[2] = newDevice(2, 202, bob.kp)
		}
		w.takeAcc()
		for round := c.Int("rounds", 4, 12); round > 0; round-- {
			id := kit.Pick(c.T, "dev", bob.ids())
			d := newDevice(id, uint32(5000+round), bob.kp)
			bob.devs[id] = d
			ts++
			text := fmt.Sprintf("round %d", round)
			b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: &ts, Body: &text}})
			typ, m := d.send(w.ourBundle(true), padTo160(b))
			late := time.Duration(c.Int("late", 0, 3000)) * time.Microsecond
			done := make(chan error)
			go func() {
				time.Sleep(late)
				done <- w.deliver(bob, id, typ, m, 1)
			}()
			_, err := SendMessage(bob.uuid, text, 0)
			if err2 := <-done; err != nil || err2 != nil {
				c.Bad("sending: %v, receiving: %v", err, err2)
			}
			accs := w.takeAcc()
			if len(accs) != 1 {
				c.Bad("%d accepted requests", len(accs))
			}
			if _, err := w.check(accs[0]); err != nil {
				c.Bad("device %d registered again and wrote after %v: %v", id, late, err)
			}
			c.Step("device %d registers again and writes after %v", id, late)
			c.NonTrivial()
		}
	})
}
