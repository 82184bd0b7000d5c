//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

var (
	helperRuns sync.Once
	afterLoss  bool // the connection was lost
)

// runHelper starts the helper of the code under test, once in this process.
func runHelper(c *kit.Case) {
	if err := startHelper(); err != nil {
		c.Broken("the helper's port is taken: %v", err)
	}
	helperRuns.Do(func() {
		dir, err := os.MkdirTemp("", "helper")
		if err != nil {
			c.Broken("%v", err)
		}
		path, err := helperPath(dir)
		if err != nil {
			c.Broken("%v", err)
		}
		old := os.Getenv("PATH")
		os.Setenv("PATH", path)
		go crayfish.Run()
		defer os.Setenv("PATH", old)
		if !theHelper.connected(60 * time.Second) {
			c.Broken("the helper is not connected to")
		}
		time.Sleep(300 * time.Millisecond)
	})
}

// sessions40 lists the stored sessions of an account.
func sessions40(uuid string) string {
	ids := textSecureStore.GetSubDeviceSessions(uuid)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return fmt.Sprint(ids)
}

func TestC40Sealed(t *testing.T) {
	kit.Check(t, "a sealed message was handled next to a malformed answer, a lost connection or a plain message", func(c *kit.Case) {
		w := newWorld(c, "")
		x := &c19{c, w}
		runHelper(c)
		crayfish.Instance.LocalUUID = kit.Pick(c.T, "local uuid", []string{ourUUID, ourUUID, "00000000-0000-4000-8000-0000000000ab"})
		local := crayfish.Instance.LocalUUID
		bob, carol := newPeer(bobUUID, 1, 2), newPeer(carolUUID, 1)
		w.peers[bobUUID], w.peers[carolUUID] = bob, carol
		own := w.ownDevices(2)
		all := []*peer{bob, carol, own}
		known := c.Chance("known contact", 1, 2)
		if known {
			contacts.Contacts[bobUUID] = contacts.Contact{UUID: bobUUID, Tel: "+491", Name: "Bob", ProfileKey: []byte("old")}
		}
		contacts.Contacts[carolUUID] = contacts.Contact{UUID: carolUUID, Name: "Carol", ProfileKey: []byte("carol's")}

		var mu sync.Mutex
		var asked []map[string]any
		var answer func(reply func(any), end func())
		theHelper.mu.Lock()
		theHelper.handle = func(m helperMsg, reply func(any), end func()) {
			mu.Lock()
			defer mu.Unlock()
			in := map[string]any{"type": float64(m.Request.Type)}
			json.Unmarshal(m.Request.Message, &in)
			asked = append(asked, in)
			if answer != nil {
				answer(reply, end)
			}
		}
		theHelper.mu.Unlock()
		c.T.Cleanup(func() {
			theHelper.mu.Lock()
			theHelper.handle = nil
			theHelper.mu.Unlock()
		})
		special := 0
		ts := uint64(1700000000000)
		for n := c.Int("steps", 2, 9); n > 0; n-- {
			if w.take(); !theHelper.connected(60 * time.Second) {
				c.Bad("the client does not connect to the helper again")
			}
			if afterLoss {
				time.Sleep(300 * time.Millisecond) // until the client has noticed its connection
				afterLoss = false
			}
			p := kit.Pick(c.T, "from", all)
			id := kit.Pick(c.T, "dev", p.ids())
			ts += uint64(c.Int("later", 1, 1000))
			if c.Chance("plain", 1, 4) {
				ct, want, what := x.content21(p, id, ts, n)
				b, _ := proto.Marshal(ct)
				typ, m := p.devs[id].send(w.ourBundle(false), padTo160(b))
				var err error
				c.NoPanic("handling "+what, func() {
					err = handleReceivedMessage(&signalservice.Envelope{Type: &typ, SourceUuid: &p.uuid, SourceDevice: &id, Timestamp: &ts, ServerTimestamp: proto.Uint64(serverTime(ts)), Content: m})
				})
				if calls := w.take(); show21(calls) != show21(want) || err != nil && len(want) > 0 {
					c.Bad("%s of %s leads to %s (%v), expected %s", what, p.uuid[34:], show21(calls), err, show21(want))
				}
				c.Step("plain %s of %s", what, p.uuid[34:])
				special++
				continue
			}
			// what is sealed
			var content []byte
			var want []call
			var dm *signalservice.DataMessage
			what := ""
			if p != own && c.Chance("data", 1, 2) {
				dm = x.message()
				content, _ = proto.Marshal(&signalservice.Content{DataMessage: dm})
				what = fmt.Sprintf("data message with flags %d", dm.GetFlags())
				if proto.Unmarshal(content, &signalservice.Content{}) != nil {
					// a text that is not UTF-8 can not be carried by every version of the codec
					dm.Body = proto.String("text")
					content, _ = proto.Marshal(&signalservice.Content{DataMessage: dm})
				}
			} else {
				var ct *signalservice.Content
				ct, want, what = x.content21(p, id, ts, n)
				content, _ = proto.Marshal(ct)
			}
			msg := map[string]any{"message": base64.StdEncoding.EncodeToString(content), "timestamp": serverTime(ts), "sender_device": id, "sender": map[string]any{"uuid": p.uuid}}
			if c.Chance("number", 1, 3) {
				msg["sender"].(map[string]any)["phonenumber"] = map[string]any{"code": map[string]any{"value": 49, "source": "plus"}, "national": map[string]any{"value": 151, "zeros": 0}}
			}
			bad, lost := "", false
			if c.Chance("trouble", 1, 3) {
				special++
				bad = kit.Pick(c.T, "malformed", []string{"null", "{}", "[]", `"x"`, "7", "no message", "empty message", "no base64", "message of another type", "no content", "no sender", "null sender", "empty sender", "sender of another type", "timestamp of another type", "lost"})
				if bad == "lost" && !c.Chance("really", 1, 4) {
					bad = "no sender"
				}
				switch bad {
				case "no message":
					delete(msg, "message")
				case "empty message":
					msg["message"] = ""
				case "no base64":
					msg["message"] = kit.Pick(c.T, "text", []string{"%", "====", "a", "AAAA=", msg["message"].(string) + "!"})
				case "message of another type":
					msg["message"] = []int{1, 2}
				case "no content":
					b := kit.Pick(c.T, "bytes", [][]byte{{0xff}, {0x0a}, {0x0a, 0x05, 1}, {0x80, 0x80}, bytes.Repeat([]byte{0xff}, 40)})
					if len(content) > 3 && c.Chance("cut", 1, 2) {
						b = content[:len(content)-1]
					}
					msg["message"] = base64.StdEncoding.EncodeToString(b)
				case "no sender":
					delete(msg, "sender")
				case "null sender":
					msg["sender"] = nil
				case "empty sender":
					msg["sender"] = kit.Pick(c.T, "sender", []any{map[string]any{}, map[string]any{"uuid": ""}, map[string]any{"uuid": nil}})
				case "sender of another type":
					msg["sender"] = kit.Pick(c.T, "sender", []any{"x", 7, []int{1}, map[string]any{"uuid": 7}})
				case "timestamp of another type":
					msg["timestamp"] = kit.Pick(c.T, "timestamp", []any{"x", []int{}, -0.5, true})
				case "lost":
					lost = true
				}
			}
			raw, _ := json.Marshal(msg)
			switch bad {
			case "null", "{}", "[]", `"x"`, "7":
				raw = []byte(bad)
			}
			full := []byte(`{"type":2,"response":{"type":3,"message":` + string(raw) + `}}`)
			noise := kit.Pick(c.T, "noise", []string{"", "", `{"type":2,"response":{"type":1,"message":{"status":"ok"}}}`, `{"type":1,"request":{"type":1}}`, `{`, `{"type":2}`, `{"type":2,"response":{"type":2,"message":{"uuid":[1]}}}`})
			mu.Lock()
			asked = nil
			answer = func(reply func(any), end func()) {
				if lost {
					end()
					return
				}
				if noise != "" {
					reply([]byte(noise))
				}
				reply(full)
			}
			mu.Unlock()
			before := map[string]string{}
			for _, q := range all {
				before[q.uuid] = sessions40(q.uuid)
			}
			keys := map[string]string{}
			for k, v := range contacts.Contacts {
				keys[k] = string(v.ProfileKey)
			}
			typ := signalservice.Envelope_UNIDENTIFIED_SENDER
			outer := kit.Fill(c.T, 40)
			env := &signalservice.Envelope{Type: &typ, Timestamp: proto.Uint64(ts + 5), ServerTimestamp: proto.Uint64(ts + 9), Content: append([]byte{}, outer...), DestinationUuid: proto.String(ourUUID)}
			if c.Chance("source", 1, 4) {
				env.SourceUuid, env.SourceDevice = proto.String(kit.Pick(c.T, "claimed", []string{carolUUID, ourUUID})), proto.Uint32(1)
			}
			sent, _ := proto.Marshal(env)
			var err error
			done := make(chan bool)
			var crash any
			go func() {
				defer close(done)
				defer func() { crash = recover() }()
				err = handleReceivedMessage(env)
			}()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				c.Bad("a sealed %s is not handled to an end (answer %s)", what, full)
			}
			if crash != nil {
				c.Bad("a sealed %s ends in a panic: %v (answer %s)", what, crash, full)
			}
			calls := w.take()
			c.Step("sealed %s of %s, %s %s: %v", what, p.uuid[34:], bad, noise, err)
			mu.Lock()
			q := asked
			mu.Unlock()
			if len(q) != 1 || q[0]["type"] != 3.0 {
				c.Bad("for a sealed message the helper is asked %v", q)
			}
			got, _ := q[0]["message"].(string)
			gb, derr := base64.StdEncoding.DecodeString(got)
			var ge, se signalservice.Envelope
			if derr != nil || proto.Unmarshal(gb, &ge) != nil || proto.Unmarshal(sent, &se) != nil || !proto.Equal(&ge, &se) {
				c.Bad("the helper is asked to decrypt %q, the envelope is %x", got, sent)
			}
			if q[0]["local_uuid"] != local {
				c.Bad("the helper is asked to decrypt for %v, the account is %s", q[0]["local_uuid"], local)
			}
			if lost {
				// the client has to notice it and to connect again
				time.Sleep(300 * time.Millisecond)
				afterLoss = true
			}
			if bad != "" {
				if err == nil || len(calls) > 0 {
					c.Bad("the answer %s of the helper (%s) leads to the calls %s, %v", full, bad, show21(calls), err)
				}
			} else if dm != nil {
				if err != nil || len(calls) != 1 || calls[0].kind != "message" {
					c.Bad("a sealed %s leads to %s, %v", what, show21(calls), err)
				}
				x.compare("a sealed message", calls[0].msg, dm, p.uuid)
			} else if show21(calls) != show21(want) || err != nil && len(want) > 0 {
				c.Bad("a sealed %s of %s leads to %s (%v), expected %s", what, p.uuid[34:], show21(calls), err, show21(want))
			}
			for _, q := range all {
				s := sessions40(q.uuid)
				if bad == "" && dm != nil && dm.GetFlags()&1 != 0 && q == p {
					if s != "[]" {
						c.Bad("a sealed message ends the session, kept are the sessions %s", s)
					}
					for _, d := range p.devs {
						d.sessions = nil
					}
				} else if s != before[q.uuid] {
					c.Bad("a sealed %s of %s changes the sessions with %s from %s to %s", what, p.uuid[34:], q.uuid[34:], before[q.uuid], s)
				}
			}
			if bad == "" && dm != nil && dm.GetFlags()&4 != 0 {
				keys[p.uuid] = string(dm.ProfileKey)
			}
			for k, v := range contacts.Contacts {
				if string(v.ProfileKey) != keys[k] {
					c.Bad("a sealed %s of %s leaves %s with the profile key %x, expected %x", what, p.uuid[34:], k, v.ProfileKey, keys[k])
				}
			}
			if len(contacts.Contacts) != len(keys) {
				c.Bad("a sealed %s leads to the contacts %v", what, contacts.Contacts)
			}
			c.Class(strings.SplitN(what, " ", 2)[0])
			if bad != "" {
				c.Class(bad)
			}
			if special > 0 {
				c.NonTrivial()
			}
		}
	})
}
