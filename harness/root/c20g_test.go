//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// TestC20Numbers sends to recipients known by their number, alone and in
// groups kept by number, next to members whose identifier is known.
func TestC20Numbers(t *testing.T) {
	kit.Check(t, "a message was accepted for a recipient known by number, for several members or by the own devices", func(c *kit.Case) {
		w := newWorld(c, "")
		nextReg := uint32(5000)
		own := w.ownDevices()
		if c.Chance("own devices", 1, 2) {
			own = w.ownDevices(2, 3)
			w.needsSync = true
		}
		_ = own
		pool := []string{"+491510000001", "+491510000002", "+4915100000021", ourTel + "0", ourTel[:len(ourTel)-1], "+31600000002", "+1"}
		ids := []string{bobUUID, carolUUID, daveUUID}
		address := map[string]string{} // of each number
		for i, tel := range pool {
			address[tel] = tel
			if i < len(ids) && c.Chance("identifier known", 1, 2) {
				address[tel] = ids[i]
				contacts.Contacts[ids[i]] = contacts.Contact{UUID: ids[i], Tel: tel, Name: "n", Registered: c.Chance("flag", 1, 2), Blocked: c.Chance("blocked", 1, 4)}
			} else if c.Chance("contact without identifier", 1, 3) {
				contacts.Contacts[tel] = contacts.Contact{Tel: tel, UUID: kit.Pick(c.T, "no uuid", []string{"", "0"})}
			}
			p := newPeer(address[tel], 1)
			if c.Chance("second device", 1, 3) {
				p.devs[2] = newDevice(2, 201, p.kp)
			}
			w.peers[p.uuid] = p
		}
		failing := ""
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			if failing != "" && r.URL.Path == "/v1/messages/"+failing {
				rw.WriteHeader(500)
				return true
			}
			return false
		}
		gid := hex.EncodeToString(kit.Fill(c.T, 16))
		id, _ := hex.DecodeString(gid)
		for step := c.Int("steps", 1, 6); step > 0; step-- {
			for _, tel := range pool {
				p := w.peers[address[tel]]
				for _, dev := range []uint32{1, 2} {
					nextReg++
					switch {
					case !c.Chance("change", 1, 12):
					case p.devs[dev] == nil || c.Chance("again", 1, 2):
						p.devs[dev] = newDevice(dev, nextReg, p.kp)
					case dev != 1:
						delete(p.devs, dev)
					}
				}
			}
			members := []string{}
			for _, tel := range pool {
				if c.Chance("member", 1, 2) {
					members = append(members, tel)
				}
			}
			group := c.Chance("group", 2, 3) && len(members) > 0
			if !group {
				members = []string{kit.Pick(c.T, "to", pool)}
			} else {
				at := c.Int("our place", 0, len(members))
				members = append(members[:at:at], append([]string{ourTel}, members[at:]...)...)
				groups[gid] = &Group{ID: id, Hexid: gid, Name: "g", Members: members}
			}
			failing = ""
			if c.Chance("refusal", 1, 8) {
				failing = address[kit.Pick(c.T, "refused", members)]
			}
			w.takeAcc()
			text := fmt.Sprintf("text %d", step)
			kind := c.Int("kind", 0, 2)
			content := append([]byte("\x89PNG\r\n\x1a\n"), kit.Bytes(300).Draw(c.T, "content")...)
			if kind != 0 {
				text = kit.Pick(c.T, "text", []string{"", text})
			}
			dest := address[members[0]]
			var ts uint64
			var err error
			c.NoPanic("sending", func() {
				switch {
				case group && kind == 0:
					ts, err = SendGroupMessage(gid, text, 5)
				case group && kind == 1:
					ts, err = SendGroupAttachment(gid, text, bytes.NewReader(content), 5)
				case group:
					ts, err = SendGroupVoiceNote(gid, text, bytes.NewReader(content), 5)
				case kind == 0:
					ts, err = SendMessage(dest, text, 5)
				case kind == 1:
					ts, err = SendAttachment(dest, text, bytes.NewReader(content), 5)
				default:
					ts, err = SendVoiceNote(dest, text, bytes.NewReader(content), 5)
				}
			})
			c.Step("kind %d to %s (group %v), refused at %q: %v", kind, strings.Join(members, " "), group, failing, err)
			if (err != nil) != (failing != "") {
				c.Bad("%q refuses; sending to %q: %v", failing, members, err)
			}
			told := map[string]int{}
			mirrored := map[string]int{}
			for _, a := range w.takeAcc() {
				pts, cerr := w.check(a)
				if cerr != nil {
					c.Bad("accepted request for %s: %v", a.dest, cerr)
				}
				to := a.dest
				for dev, pt := range pts {
					b, uerr := unpad(pt)
					ct := &signalservice.Content{}
					if uerr != nil || proto.Unmarshal(b, ct) != nil {
						c.Bad("device %d of %s got %x (%v)", dev, a.dest, pt, uerr)
					}
					dm := ct.GetDataMessage()
					if a.dest == ourUUID {
						s := ct.GetSyncMessage().GetSent()
						if s == nil || (s.DestinationE164 != nil) == (s.DestinationUuid != nil) || s.DestinationE164 != nil && s.GetDestinationE164()[0] != '+' || s.DestinationUuid != nil && (s.GetDestinationUuid() == "" || s.GetDestinationUuid()[0] == '+') {
							c.Bad("own device %d is told %v", dev, ct)
						}
						to = s.GetDestinationE164() + s.GetDestinationUuid()
						if err == nil && s.GetTimestamp() != ts {
							c.Bad("own device %d is told the time %d, the message has %d", dev, s.GetTimestamp(), ts)
						}
						dm = s.GetMessage()
					}
					if dm == nil || dm.GetBody() != text || dm.GetExpireTimer() != 5 || err == nil && (dm.GetTimestamp() != ts || a.ts != ts) {
						c.Bad("device %d of %s got %v at %d, %q was sent at %d", dev, a.dest, ct, a.ts, text, ts)
					}
					n := 1
					if kind == 0 {
						n = 0
					}
					if len(dm.Attachments) != n {
						c.Bad("device %d of %s got %d attachments", dev, a.dest, len(dm.Attachments))
					}
					for _, p := range dm.Attachments {
						if voice := p.GetFlags()&uint32(signalservice.AttachmentPointer_VOICE_MESSAGE) != 0; voice != (kind == 2) {
							c.Bad("device %d of %s is told that the attachment is a voice note: %v", dev, a.dest, voice)
						}
						att, aerr := handleSingleAttachment(p)
						if aerr != nil {
							c.Bad("the attachment can not be read: %v", aerr)
						}
						buf := new(bytes.Buffer)
						buf.ReadFrom(att.R)
						if !bytes.HasPrefix(buf.Bytes(), content) {
							c.Bad("the attachment has %d other bytes, it had %d", buf.Len(), len(content))
						}
					}
				}
				if a.dest == ourUUID {
					mirrored[to]++
				} else {
					told[to]++
				}
			}
			for _, m := range members {
				a := address[m]
				if m == ourTel {
					continue
				}
				if err == nil && told[a] != 1 {
					c.Bad("%s (%s) got the message %d times", m, a, told[a])
				}
				if told[a] > 1 || w.needsSync && told[a] != mirrored[a] || !w.needsSync && mirrored[a] != 0 {
					c.Bad("%s (%s) got the message %d times, the own devices were told %d times", m, a, told[a], mirrored[a])
				}
				delete(told, a)
				delete(mirrored, a)
			}
			if len(told)+len(mirrored) > 0 {
				c.Bad("the message for %q was also sent to %v %v", members, told, mirrored)
			}
			if err == nil {
				c.NonTrivial()
			}
			c.Class(fmt.Sprintf("group %v kind %d", group, kind))
		}
		if len(w.problems) > 0 {
			c.Bad("%s", w.problems[0])
		}
	})
}
