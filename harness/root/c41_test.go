//go:build go1.22

package textsecure

import (
	"bytes"
	"fmt"
	"net/http"
	"path/filepath"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// What the flags of a message do: end the sessions with its sender (or with
// the destination, when another device of ours sent it), tell a profile key.
func TestC41Flags(t *testing.T) {
	kit.Check(t, "a session was ended while sessions with several devices existed, and a message was sent or delivered afterwards", func(c *kit.Case) {
		pw := kit.Pick(c.T, "password", []string{"", "", "pw"})
		w := newWorld(c, pw)
		bob, carol := newPeer(bobUUID, 1, 2, 3), newPeer(carolUUID, 1, 2)
		if c.Chance("number", 1, 3) {
			// a peer known by its number alone
			carol.uuid = "+31600000077"
		}
		w.peers[bob.uuid], w.peers[carol.uuid] = bob, carol
		own := w.ownDevices(2)
		peers := []*peer{bob, carol}
		key := func(what string) []byte {
			b := make([]byte, 32)
			for i, s := 0, c.Int(what, 0, 255); i < 32; i++ {
				b[i] = byte(s + i)
			}
			return b
		}
		keys := map[string][]byte{}
		had := map[string]bool{}
		for _, p := range peers {
			if c.Chance("known", 1, 2) {
				keys[p.uuid] = key("key")
				ct := contacts.Contact{UUID: p.uuid, Name: "the name of " + p.uuid, Color: "red", ProfileKey: keys[p.uuid], ExpireTimer: 7, Blocked: true}
				contacts.Contacts[p.uuid], had[p.uuid] = ct, true
			}
		}
		if err := contacts.WriteContactsToPath(); err != nil {
			c.Broken("%v", err)
		}
		// the sessions we take part in
		alive := map[*ref.Session]bool{}
		known := map[*device]bool{}
		end := func(p *peer) {
			for _, d := range p.devs {
				for _, s := range d.sessions {
					delete(alive, s)
				}
				delete(known, d)
			}
		}
		// what the profile key of a contact may be: a key in a message without
		// the flag is left open
		maybe := map[string][][]byte{}
		checkKeys := func(what string) {
			for _, p := range peers {
				got := contacts.Contacts[p.uuid].ProfileKey
				if bytes.Equal(got, keys[p.uuid]) {
					continue
				}
				ok := false
				for _, k := range maybe[p.uuid] {
					ok = ok || bytes.Equal(k, got)
				}
				if !ok {
					c.Bad("after %s the profile key of %s is %x, it told %x", what, p.uuid, got, keys[p.uuid])
				}
			}
			for u := range contacts.Contacts {
				if u != bob.uuid && u != carol.uuid {
					c.Bad("after %s there is a contact %q", what, u)
				}
			}
		}
		ts := uint64(1700000000000)
		ended := false
		for n := c.Int("steps", 3, 18); n > 0; n-- {
			ts += uint64(c.Int("later", 1, 1000))
			switch c.Int("op", 0, 9) {
			case 0, 1, 2, 3, 4: // a peer writes
				p := kit.Pick(c.T, "from", peers)
				id := kit.Pick(c.T, "dev", p.ids())
				d := p.devs[id]
				text := fmt.Sprintf("text %d", n)
				dm := &signalservice.DataMessage{Body: &text, Timestamp: &ts}
				flags := uint32(0)
				if c.Chance("end", 1, 4) {
					flags |= 1
				}
				if c.Chance("timer", 1, 4) {
					flags |= 2
				}
				if c.Chance("tell key", 1, 4) {
					flags |= 4
					dm.ProfileKey = key("new key")
				} else if c.Chance("key along", 1, 4) {
					dm.ProfileKey = key("key along")
				}
				if flags != 0 || c.Chance("flags", 1, 2) {
					dm.Flags = &flags
				}
				b, _ := proto.Marshal(&signalservice.Content{DataMessage: dm})
				if len(d.sessions) > 1 && c.Chance("older session", 1, 3) {
					// it has not seen our latest message yet
					d.sessions = append(append([]*ref.Session{}, d.sessions[1:]...), d.sessions[0])
				}
				typ, m := d.send(w.ourBundle(c.Chance("prekey", 1, 2)), padTo160(b))
				s := d.sessions[0]
				deliverable := typ == signalservice.Envelope_PREKEY_BUNDLE || alive[s]
				var err error
				c.NoPanic("handling a message", func() { err = w.deliver(p, id, typ, m, ts) })
				cs := w.take()
				what := fmt.Sprintf("a message of %s device %d with flags %d", p.uuid, id, flags)
				c.Step("%s (type %d, deliverable %v)", what, typ, deliverable)
				if !deliverable {
					if len(cs) != 0 {
						c.Bad("%s under a session that was ended leads to %s", what, show21(cs))
					}
					d.sessions = d.sessions[1:]
					checkKeys("one that cannot be read")
					c.Class("message under an ended session")
					break
				}
				want := []call{{kind: "message", msg: &Message{sourceUUID: p.uuid, message: text, timestamp: ts}}}
				if show21(cs) != show21(want) || err != nil {
					c.Bad("%s leads to %s (%v), expected %s", what, show21(cs), err, show21(want))
				}
				if cs[0].msg.Flags() != flags {
					c.Bad("%s is handed over with flags %d", what, cs[0].msg.Flags())
				}
				alive[s], known[d] = true, true
				if flags&4 != 0 {
					keys[p.uuid], maybe[p.uuid] = dm.ProfileKey, nil
					c.Class("profile key told")
				} else if dm.ProfileKey != nil {
					maybe[p.uuid] = append(maybe[p.uuid], dm.ProfileKey)
				}
				if flags&1 != 0 {
					had := 0
					for _, o := range p.devs {
						if known[o] {
							had++
						}
					}
					ended = ended || had > 1
					end(p)
					if c.Chance("clears its own", 2, 3) {
						d.sessions = nil
					}
					c.Class("session ended by the peer")
				}
				checkKeys(what)
			case 5: // another device of ours has written
				p := kit.Pick(c.T, "to", peers)
				flags := uint32(c.Int("flags", 0, 7))
				text := "sent elsewhere"
				sent := &signalservice.SyncMessage_Sent{Timestamp: &ts, Message: &signalservice.DataMessage{Body: &text, Timestamp: &ts, Flags: &flags, ProfileKey: key("our key")}}
				if p.uuid[0] == '+' {
					sent.DestinationE164 = &p.uuid
				} else {
					sent.DestinationUuid = &p.uuid
					if c.Chance("number too", 1, 2) {
						sent.DestinationE164 = proto.String("+4930123456")
					}
				}
				b, _ := proto.Marshal(&signalservice.Content{SyncMessage: &signalservice.SyncMessage{Sent: sent}})
				typ, m := own.devs[2].send(w.ourBundle(true), padTo160(b))
				if err := w.deliver(own, 2, typ, m, ts); err != nil {
					c.Bad("a sent message of our own device is refused: %v", err)
				}
				if cs := w.take(); len(cs) != 1 || cs[0].kind != "sync sent" {
					c.Bad("a sent message of our own device leads to %s", show21(cs))
				}
				c.Step("our other device wrote to %s with flags %d", p.uuid, flags)
				if flags&1 != 0 {
					end(p)
					c.Class("session ended by our other device")
				}
				checkKeys("a sent message with our own profile key")
			default: // we write
				p := kit.Pick(c.T, "to", peers)
				before := map[*device]int{}
				for _, d := range p.devs {
					before[d] = len(d.sessions)
				}
				w.takeAcc()
				ending := c.Chance("we end", 1, 5)
				var err error
				all := true
				for _, d := range p.devs {
					all = all && known[d]
				}
				if all && c.Chance("refused", 1, 4) {
					// nothing is ended by a message that is not sent
					status := kit.Pick(c.T, "status", []int{400, 403, 429, 500, 503})
					w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
						if r.Method == "PUT" && strings.HasPrefix(r.URL.Path, "/v1/messages/") {
							rw.WriteHeader(status)
							return true
						}
						return false
					}
					if ending {
						_, err = EndSession(p.uuid, "bye")
					} else {
						_, err = SendMessage(p.uuid, "hello", 0)
					}
					w.override = nil
					if err == nil {
						c.Bad("a message to %s that the server refused with %d is not reported", p.uuid, status)
					}
					c.Step("the server refuses (%d) our message to %s (end %v)", status, p.uuid, ending)
					c.Class("refused message")
					continue
				}
				if ending {
					_, err = EndSession(p.uuid, "bye")
				} else {
					_, err = SendMessage(p.uuid, "hello", 0)
				}
				if err != nil {
					c.Bad("sending to %s fails: %v", p.uuid, err)
				}
				acc := w.takeAcc()
				if len(acc) != 1 || acc[0].dest != p.uuid {
					c.Bad("a message to %s leads to %d accepted requests", p.uuid, len(acc))
				}
				if _, err := w.check(acc[0]); err != nil {
					c.Bad("our message to %s: %v", p.uuid, err)
				}
				c.Step("we write to %s (end %v)", p.uuid, ending)
				for _, m := range acc[0].msgs {
					d := p.devs[m.DestDeviceID]
					fresh := len(d.sessions) > before[d]
					if !known[d] && !fresh {
						c.Bad("our message for %s device %d continues a session that was ended", p.uuid, d.id)
					}
					if known[d] && before[d] > 0 && fresh && p.uuid[0] != '+' { // a number is kept under two names
						c.Bad("our message for %s device %d starts a new session although none was ended", p.uuid, d.id)
					}
					if fresh {
						alive[d.sessions[0]] = true
					}
					known[d] = true
				}
				if ended {
					c.NonTrivial()
				}
				if ending {
					end(p)
					c.Class("session ended by us")
				}
			}
		}
		// what is on disk
		if _, err := contacts.ReadContacts(filepath.Join(w.dir, "contacts.yml")); err != nil {
			c.Bad("the contacts cannot be read back: %v", err)
		}
		checkKeys("reading the contacts back")
		for u, ct := range contacts.Contacts {
			if had[u] && (ct.Name != "the name of "+u || ct.Color != "red" || ct.ExpireTimer != 7 || !ct.Blocked) {
				c.Bad("the contact %s became %+v", u, ct)
			}
		}
	})
}
