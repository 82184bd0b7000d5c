//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"pgregory.net/rapid"
)

var (
	bobUUID   = "00000000-0000-4000-8000-0000000000bb"
	carolUUID = "00000000-0000-4000-8000-0000000000cc"
	daveUUID  = "00000000-0000-4000-8000-0000000000dd"
)

// opt draws an optional value.
func opt[T any](c *kit.Case, name string, f func() T) *T {
	if !c.Chance(name+" present", 1, 2) {
		return nil
	}
	v := f()
	return &v
}

func (c19 *c19) str(name string) string { return drawText(c19.c.T, name) }

type c19 struct {
	c *kit.Case
	w *world
}

// text draws a message body; some are sized so that the padded content is at the edge of a step.
func (x *c19) text() string {
	c := x.c
	switch c.Int("textkind", 0, 4) {
	case 0:
		return drawText(c.T, "text")
	case 1:
		return string(kit.Big(500).Draw(c.T, "text"))
	case 2:
		return strings.Repeat("x", c.Int("len", 60, 180)) + kit.Pick(c.T, "end", []string{"", "\x80", "\x00", "\x80\x00", "€", "\u0080", "\x00\x80\x00"})
	case 3:
		return strings.Repeat("y", 160*c.Int("steps", 0, 3)+c.Int("off", 0, 159))
	}
	return kit.Pick(c.T, "special", []string{"", "\x00", "\x80", "\u0080", "\x80\x00\x00", "a\x80", "€€"})
}

func (x *c19) u64() uint64 {
	return kit.Pick(x.c.T, "u64", []uint64{0, 1, 127, 128, 1 << 32, 1700000000000, 1<<64 - 1})
}
func (x *c19) u32() uint32 {
	return kit.Pick(x.c.T, "u32", []uint32{0, 1, 128, 3600, 604800, 1<<31 - 1, 1<<32 - 1})
}

// message draws a data message of another client.
func (x *c19) message() *signalservice.DataMessage {
	c := x.c
	dm := &signalservice.DataMessage{Timestamp: proto.Uint64(x.u64())}
	dm.Body = opt(c, "body", x.text)
	dm.ExpireTimer = opt(c, "timer", x.u32)
	dm.Flags = opt(c, "flags", func() uint32 {
		return kit.Pick(c.T, "flag", []uint32{0, 1, 2, 4, 3, 5, 6, 7, 8, 1 << 31})
	})
	if c.Chance("profile key", 1, 2) {
		dm.ProfileKey = kit.Fill(c.T, 32)
	}
	if dm.GetFlags()&4 != 0 && len(dm.ProfileKey) == 0 {
		dm.ProfileKey = kit.Fill(c.T, 32)
	}
	if c.Chance("quote", 1, 4) {
		dm.Quote = &signalservice.DataMessage_Quote{Id: opt(c, "id", x.u64), AuthorUuid: opt(c, "author", func() string { return x.str("author") }), Text: opt(c, "qtext", x.text)}
	}
	if c.Chance("sticker", 1, 4) {
		dm.Sticker = &signalservice.DataMessage_Sticker{PackId: kit.Fill(c.T, 16), PackKey: kit.Fill(c.T, 32), StickerId: opt(c, "sticker id", x.u32), Emoji: opt(c, "emoji", func() string { return x.str("emoji") })}
	}
	if c.Chance("reaction", 1, 4) {
		dm.Reaction = &signalservice.DataMessage_Reaction{Emoji: opt(c, "remoji", func() string { return x.str("remoji") }), Remove: opt(c, "remove", func() bool { return c.Chance("r", 1, 2) }),
			TargetAuthorUuid: opt(c, "target", func() string { return x.str("target") }), TargetSentTimestamp: opt(c, "rts", x.u64)}
	}
	for i := c.Int("contacts", 0, 2); i > 0 && c.Chance("contact", 1, 3); i-- {
		dm.Contact = append(dm.Contact, &signalservice.DataMessage_Contact{
			Name:         &signalservice.DataMessage_Contact_Name{DisplayName: opt(c, "name", func() string { return x.str("name") })},
			Number:       []*signalservice.DataMessage_Contact_Phone{{Value: opt(c, "phone", func() string { return x.str("phone") })}},
			Organization: opt(c, "org", func() string { return x.str("org") }),
		})
	}
	if c.Chance("more fields", 1, 3) {
		dm.IsViewOnce = opt(c, "once", func() bool { return true })
		dm.RequiredProtocolVersion = opt(c, "rpv", x.u32)
		dm.Preview = []*signalservice.Preview{{Url: opt(c, "url", func() string { return x.str("url") })}}
	}
	return dm
}

func (x *c19) compare(what string, m *Message, dm *signalservice.DataMessage, from string) {
	c := x.c
	if m.Message() != dm.GetBody() {
		c.Bad("%s: text %q, sent was %q", what, m.Message(), dm.GetBody())
	}
	if m.ExpireTimer() != dm.GetExpireTimer() {
		c.Bad("%s: expiry timer %d, sent was %d", what, m.ExpireTimer(), dm.GetExpireTimer())
	}
	if m.Flags() != dm.GetFlags() {
		c.Bad("%s: flags %d, sent were %d", what, m.Flags(), dm.GetFlags())
	}
	if m.Timestamp() != dm.GetTimestamp() {
		c.Bad("%s: timestamp %d, sent was %d", what, m.Timestamp(), dm.GetTimestamp())
	}
	if m.SourceUUID() != from || m.ChatID() != from {
		c.Bad("%s: sender %q, chat %q, it was %q", what, m.SourceUUID(), m.ChatID(), from)
	}
	same := func(field string, got, want proto.Message, gotNil, wantNil bool) {
		if gotNil != wantNil || !gotNil && !proto.Equal(got, want) {
			c.Bad("%s: %s %v, sent was %v", what, field, got, want)
		}
	}
	same("quote", m.Quote(), dm.Quote, m.Quote() == nil, dm.Quote == nil)
	same("sticker", m.Sticker(), dm.Sticker, m.Sticker() == nil, dm.Sticker == nil)
	same("reaction", m.Reaction(), dm.Reaction, m.Reaction() == nil, dm.Reaction == nil)
	if len(m.Contact()) != len(dm.Contact) {
		c.Bad("%s: %d contacts, sent were %d", what, len(m.Contact()), len(dm.Contact))
	}
	for i := range dm.Contact {
		same(fmt.Sprintf("contact %d", i), m.Contact()[i], dm.Contact[i], false, false)
	}
	if len(m.Attachments()) != 0 {
		c.Bad("%s: %d attachments, none was sent", what, len(m.Attachments()))
	}
	if (m.GroupV2() == nil) != (dm.GroupV2 == nil) || m.Group() != nil {
		c.Bad("%s: group %v, sent was %v", what, m.GroupV2(), dm.GroupV2)
	}
	if dm.GroupV2 != nil && (!bytes.Equal(m.GroupV2().MasterKey, dm.GroupV2.MasterKey) || m.GroupV2().Hexid != hex.EncodeToString(dm.GroupV2.MasterKey)) {
		c.Bad("%s: group with master key %x, sent was %x", what, m.GroupV2().MasterKey, dm.GroupV2.MasterKey)
	}
}

// sent checks an accepted request of ours and returns the data message.
func (x *c19) sent(a accepted, ts uint64) map[uint32]*signalservice.DataMessage {
	c := x.c
	pts, err := x.w.check(a)
	if err != nil {
		c.Bad("to %s: %v", a.dest, err)
	}
	out := map[uint32]*signalservice.DataMessage{}
	for id, pt := range pts {
		b, err := unpad(pt)
		if err != nil {
			c.Bad("to %s device %d: %v", a.dest, id, err)
		}
		if len(pt) != (len(b)/160+1)*160 {
			c.Bad("a content of %d bytes is padded to %d", len(b), len(pt))
		}
		ct := &signalservice.Content{}
		if err := proto.Unmarshal(b, ct); err != nil || ct.DataMessage == nil {
			c.Bad("to %s device %d: not a data message (%v)", a.dest, id, err)
		}
		dm := ct.DataMessage
		if dm.GetTimestamp() != a.ts || ts != 0 && dm.GetTimestamp() != ts {
			c.Bad("timestamp %d in the message, %d in the request, %d returned", dm.GetTimestamp(), a.ts, ts)
		}
		out[id] = dm
	}
	return out
}

func TestC19Unchanged(t *testing.T) {
	kit.Check(t, "a message was sent and decrypted by the peer, or handed to the handler", func(c *kit.Case) {
		w := newWorld(c, "")
		x := &c19{c, w}
		bob, carol := newPeer(bobUUID, 1), newPeer(carolUUID, 1)
		if c.Chance("two devices", 1, 3) {
			bob = newPeer(bobUUID, 1, 3)
		}
		w.peers[bobUUID], w.peers[carolUUID] = bob, carol
		contacts.Contacts[bobUUID] = contacts.Contact{UUID: bobUUID, Name: "bob", ProfileKey: []byte("old")}
		contacts.Contacts[daveUUID] = contacts.Contact{UUID: daveUUID, Name: "dave", ProfileKey: []byte("dave's")}
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		var g *zkGroup
		gid := ""
		if c.Chance("group", 1, 4) {
			zs := w.withGroups()
			zkCases++
			key := bytes.Repeat([]byte{0x19}, 32)
			for j := 0; j < 8; j++ {
				key[j] = byte(zkCases >> (8 * j))
			}
			g = newZkGroup(c, key)
			g.rev = uint32(c.Int("rev", 1, 300))
			for _, u := range []string{bobUUID, ourUUID, carolUUID}[:c.Int("members", 2, 3)] {
				g.members = append(g.members, zkMember{u, signalservice.Member_DEFAULT, userKey(u, 0), 1})
			}
			g.publish(c)
			zs.groups = append(zs.groups, g)
			gid = hex.EncodeToString(key)
		}
		incoming := func(p *peer, dev uint32, ct *signalservice.Content, dm *signalservice.DataMessage, raw []byte) {
			b := raw
			if b == nil {
				b, _ = proto.Marshal(ct)
			}
			typ, m := p.devs[dev].send(w.ourBundle(true), padTo160(b))
			w.take()
			contactsBefore := map[string]contacts.Contact{}
			for k, v := range contacts.Contacts {
				contactsBefore[k] = v
			}
			st := uint64(5)
			c.NoPanic("handleReceivedMessage", func() {
				if err := w.deliver(p, dev, typ, m, st); err != nil {
					c.Bad("a genuine message is refused: %v (%v)", err, dm)
				}
			})
			calls := w.take()
			if len(calls) != 1 || calls[0].kind != "message" {
				c.Bad("%d handler calls for one message: %v", len(calls), calls)
			}
			x.compare("received", calls[0].msg, dm, p.uuid)
			c.NonTrivial()
			for k, v := range contactsBefore {
				want := v.ProfileKey
				if k == p.uuid && dm.GetFlags()&4 != 0 {
					want = dm.ProfileKey
				}
				if !bytes.Equal(contacts.Contacts[k].ProfileKey, want) {
					c.Bad("profile key of %s is %x, want %x", k, contacts.Contacts[k].ProfileKey, want)
				}
			}
			if dm.GetFlags()&1 != 0 {
				if n := textSecureStore.GetSubDeviceSessions(p.uuid); len(n) != 0 {
					c.Bad("the peer ended the session, sessions with its devices %v are left", n)
				}
				for _, d := range p.devs {
					d.sessions = nil
				}
			}
		}
		if g != nil {
			gc := &signalservice.GroupContextV2{MasterKey: g.key, Revision: proto.Uint32(g.rev)}
			dm := &signalservice.DataMessage{Timestamp: proto.Uint64(1), Body: proto.String("intro"), GroupV2: gc}
			incoming(bob, 1, &signalservice.Content{DataMessage: dm}, dm, nil)
		}
		for i := c.Int("steps", 1, 6); i > 0; i-- {
			op := c.Int("op", 0, 5)
			switch {
			case op <= 2:
				text, timer := x.text(), x.u32()
				w.takeAcc()
				w.takeReqs()
				var ts uint64
				var err error
				dests := []string{bobUUID}
				flags := uint32(0)
				group := op == 2 && g != nil
				switch {
				case group:
					c.Step("group message of %d bytes", len(text))
					dests = nil
					for _, m := range g.members {
						dests = append(dests, m.uuid)
					}
					c.NoPanic("SendGroupMessage", func() { ts, err = SendGroupMessage(gid, text, timer) })
				case op == 1 && c.Chance("end", 1, 3):
					c.Step("end session with %d bytes", len(text))
					flags, timer = 1, 0
					c.NoPanic("EndSession", func() { ts, err = EndSession(bobUUID, text) })
				default:
					c.Step("message of %d bytes, timer %d", len(text), timer)
					c.NoPanic("SendMessage", func() { ts, err = SendMessage(bobUUID, text, timer) })
				}
				if err != nil {
					c.Bad("sending fails: %v", err)
				}
				accs := w.takeAcc()
				if len(accs) != len(dests) {
					c.Bad("%d accepted requests for %d recipients", len(accs), len(dests))
				}
				want := &signalservice.DataMessage{Body: proto.String(text), ExpireTimer: &timer, Flags: &flags}
				if group {
					want.GroupV2 = &signalservice.GroupContextV2{MasterKey: g.key, Revision: proto.Uint32(g.rev)}
				}
				seen := map[string]bool{}
				for _, a := range accs {
					seen[a.dest] = true
					for id, dm := range x.sent(a, ts) {
						want.Timestamp = proto.Uint64(ts)
						m := &Message{sourceUUID: ourUUID, message: dm.GetBody(), expireTimer: dm.GetExpireTimer(), flags: dm.GetFlags(), timestamp: dm.GetTimestamp(),
							quote: dm.Quote, sticker: dm.Sticker, reaction: dm.Reaction, contact: dm.Contact}
						cmp := proto.Clone(want).(*signalservice.DataMessage)
						cmp.GroupV2 = nil
						x.compare(fmt.Sprintf("sent to %s device %d", a.dest, id), m, cmp, ourUUID)
						if len(dm.Attachments) != 0 {
							c.Bad("an attachment that nobody sent")
						}
						if !bytes.Equal(dm.ProfileKey, config.ConfigFile.ProfileKey) {
							c.Bad("profile key %x is sent, ours is %x", dm.ProfileKey, config.ConfigFile.ProfileKey)
						}
						if (dm.GroupV2 != nil) != group || group && (!bytes.Equal(dm.GroupV2.MasterKey, g.key) || dm.GroupV2.GetRevision() != g.rev || len(dm.GroupV2.GroupChange) != 0) {
							c.Bad("group context %v, want %v", dm.GroupV2, want.GroupV2)
						}
						c.NonTrivial()
					}
				}
				for _, d := range dests {
					if !seen[d] {
						c.Bad("nothing was sent to member %s", d)
					}
				}
				if flags == 1 {
					if n := textSecureStore.GetSubDeviceSessions(bobUUID); len(n) != 0 {
						c.Bad("sessions with devices %v are left after ending the session", n)
					}
					for _, d := range bob.devs { // the peer starts over, as the flag asks it to
						d.sessions = nil
					}
				}
				// the same content comes back
				if len(accs) > 0 && c.Chance("echo", 1, 2) {
					want.Timestamp = proto.Uint64(ts)
					want.ProfileKey = config.ConfigFile.ProfileKey
					for _, d := range bob.devs {
						if len(d.got) > 0 {
							raw, _ := unpad(d.got[len(d.got)-1])
							c.Step("echoed")
							incoming(bob, d.id, nil, want, raw)
							break
						}
					}
				}
			default:
				p := bob
				if c.Chance("from carol", 1, 4) {
					p = carol
				}
				dm := x.message()
				if g != nil && c.Chance("in group", 1, 3) {
					dm.GroupV2 = &signalservice.GroupContextV2{MasterKey: g.key, Revision: proto.Uint32(g.rev)}
				}
				ct := &signalservice.Content{DataMessage: dm}
				b, _ := proto.Marshal(ct)
				// an unknown field at the end, up to the edge of a padding step
				if c.Chance("unknown field", 1, 2) {
					n := 0
					if c.Chance("edge", 1, 2) {
						n = ((160-(len(b)+4)%160)%160 + c.Int("edgeoff", -2, 2) + 160) % 160
						if n > 120 {
							n = 120
						}
					} else {
						n = c.Int("ulen", 0, 120)
					}
					f := bytes.Repeat([]byte{kit.Pick(c.T, "ubyte", []byte{0, 0x80, 1})}, n)
					b = append(b, 0xba, 0x3e, byte(n)) // field 999, length-delimited
					b = append(b, f...)
				}
				c.Step("incoming content of %d bytes (mod 160: %d), flags %d", len(b), len(b)%160, dm.GetFlags())
				incoming(p, p.ids()[c.Int("dev", 0, len(p.devs)-1)], nil, dm, b)
			}
			if len(w.problems) > 0 {
				c.Bad("%s", w.problems[0])
			}
		}
	})
}

var _ = rapid.Check
var _ http.Handler
