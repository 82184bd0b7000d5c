//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// hostile fills a message with anything its fields can hold.
type hostile struct {
	c     *kit.Case
	bytes [][]byte // values worth trying in bytes fields
	many  int      // one field in so many is present
}

func (h *hostile) fill(m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !h.c.Chance(string(f.Name()), 1, h.many) {
			continue
		}
		switch {
		case f.IsMap():
		case f.IsList():
			l := m.Mutable(f).List()
			for n := h.c.Int("n", 0, 3); n > 0; n-- {
				if f.Kind() == protoreflect.MessageKind {
					if depth == 0 {
						break
					}
					e := l.NewElement()
					h.fill(e.Message(), depth-1)
					l.Append(e)
				} else {
					l.Append(h.scalar(f))
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			if depth > 0 {
				h.fill(m.Mutable(f).Message(), depth-1)
			}
		default:
			m.Set(f, h.scalar(f))
		}
	}
}

func (h *hostile) scalar(f protoreflect.FieldDescriptor) protoreflect.Value {
	c := h.c
	u := func() uint64 {
		return kit.Pick(c.T, "number", []uint64{0, 1, 2, 3, 127, 1 << 31, 1<<32 - 1, 1 << 63, 1<<64 - 1})
	}
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(c.Chance("bool", 1, 2))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(c.Int("enum", 0, 6)))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(u()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(u()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(u()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(u())
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(1)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(1)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(kit.Pick(c.T, "string", []string{"", "a", bobUUID, carolUUID, ourUUID, ourTel, "+", "+1", "../../x", "0", "\u0080", strings.Repeat("x", 300)}))
	default:
		if len(h.bytes) > 0 && c.Chance("prepared", 1, 2) {
			return protoreflect.ValueOfBytes(kit.Pick(c.T, "which", h.bytes))
		}
		n := kit.Pick(c.T, "size", []int{0, 1, 15, 16, 17, 32, 33, 64, 65, 97, 145, 500})
		b := kit.Fill(c.T, n)
		if n > 0 && c.Chance("zero first", 1, 2) {
			b[0] = 0
		}
		return protoreflect.ValueOfBytes(b)
	}
}

func (h *hostile) message(m proto.Message, depth int) proto.Message {
	h.fill(proto.MessageReflect(m), depth)
	return m
}

// socket hands bytes to the client as the web socket does.
func socket(b []byte) error {
	pt, err := decryptReceivedMessage(b)
	if err != nil {
		return err
	}
	env, err := createEnvelope(pt)
	if err != nil {
		return err
	}
	return handleReceivedMessage(env)
}

// signaled encrypts an envelope with the signaling key.
func signaled(c *kit.Case, b []byte) []byte {
	key := registration.Registration.SignalingKey
	iv := kit.Fill(c.T, 16)
	return signalMAC(append([]byte{1}, append(iv, ref.CBCEncrypt(key[:32], iv, b)...)...))
}

func signalMAC(b []byte) []byte {
	return append(b, ref.HMAC(registration.Registration.SignalingKey[32:], b)[:10]...)
}

// alive: a genuine message is still handled.
func (w *world) alive(p *peer, dev uint32, ts uint64) {
	d := p.devs[dev]
	b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: &ts, Body: proto.String("genuine")}})
	typ, m := d.send(w.ourBundle(true), padTo160(b))
	w.take()
	err := w.deliver(p, dev, typ, m, ts)
	calls := w.take()
	if err != nil || len(calls) != 1 || calls[0].kind != "message" || calls[0].msg.Message() != "genuine" || calls[0].msg.Timestamp() != ts {
		w.c.Bad("a genuine message is not handled any more: %v, %s", err, show21(calls))
	}
}

// allowed22 is what may reach the application for a content.
func allowed22(b []byte) map[string]int {
	ct := &signalservice.Content{}
	if proto.Unmarshal(b, ct) != nil {
		return nil
	}
	out := map[string]int{}
	complete := func(dm *signalservice.DataMessage) bool { return dm != nil && dm.Timestamp != nil }
	if complete(ct.DataMessage) {
		out["message"] = 1
	}
	if ct.CallMessage != nil {
		out["call"] = 1
	}
	if rm := ct.ReceiptMessage; rm != nil && rm.Type != nil {
		out["receipt message"] = len(rm.Timestamp)
	}
	if ct.TypingMessage != nil {
		out["typing"] = 1
	}
	if sm := ct.SyncMessage; sm != nil {
		if complete(sm.GetSent().GetMessage()) {
			out["sync sent"] = 1
		}
		out["sync read"] = len(sm.GetRead())
	}
	return out
}

func (w *world) judge22(allowed map[string]int, what string) {
	n := map[string]int{}
	calls := w.take()
	for _, cl := range calls {
		n[cl.kind]++
		if n[cl.kind] > allowed[cl.kind] {
			w.c.Bad("%s leads to %s", what, show21(calls))
		}
	}
}

func TestC22Bytes(t *testing.T) {
	kit.Check(t, "the bytes were an envelope, or decrypted with the signaling key", func(c *kit.Case) {
		w := newWorld(c, "")
		bob := newPeer(bobUUID, 1)
		w.peers[bobUUID] = bob
		h := &hostile{c: c, many: 2}
		// genuine messages to start from
		for i := 0; i < 2; i++ {
			b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: proto.Uint64(7), Body: proto.String("text")}})
			_, m := bob.devs[1].send(w.ourBundle(true), padTo160(b))
			h.bytes = append(h.bytes, m)
		}
		for n := c.Int("inputs", 1, 6); n > 0; n-- {
			env := &signalservice.Envelope{}
			switch c.Int("how", 0, 2) {
			case 0:
				h.message(env, 2)
			default:
				env.Type = signalservice.Envelope_Type(kit.Pick(c.T, "type", []int32{0, 1, 2, 3, 5, 6, 7, 8, 50})).Enum()
				env.SourceUuid = opt(c, "source", func() string { return kit.Pick(c.T, "uuid", []string{bobUUID, carolUUID, ourUUID, "", "+1"}) })
				env.SourceDevice = opt(c, "dev", func() uint32 { return uint32(c.Int("d", 0, 3)) })
				env.Timestamp = opt(c, "ts", func() uint64 { return 9 })
				env.ServerTimestamp = opt(c, "sts", func() uint64 { return 9 })
				if c.Chance("content", 3, 4) {
					env.Content = kit.Pick(c.T, "c", h.bytes)
					for k := c.Int("mutations", 0, 3); k > 0; k-- {
						env.Content, _ = kit.Mutate(c.T, env.Content)
					}
					if c.Chance("other", 1, 4) {
						env.Content = kit.Big(300).Draw(c.T, "content")
					}
				}
			}
			b, _ := proto.Marshal(env)
			for k := c.Int("envelope mutations", 0, 2); k > 0; k-- {
				b, _ = kit.Mutate(c.T, b)
			}
			if c.Chance("raw", 1, 6) {
				b = kit.Big(400).Draw(c.T, "raw")
			}
			parsed := &signalservice.Envelope{}
			ok := proto.Unmarshal(b, parsed) == nil
			plain := ok
			if c.Chance("signaling key", 1, 2) {
				switch c.Int("signaling", 0, 3) {
				case 0: // not a multiple of a block, but authentic
					b = append([]byte{1}, kit.Bytes(100).Draw(c.T, "authentic")...)
					if c.Chance("nothing but a MAC", 1, 3) {
						b = nil
					}
					b = signalMAC(b)
					plain, ok = false, false
				default:
					b = signaled(c, b)
				}
				if c.Chance("damage", 1, 6) {
					b, _ = kit.Mutate(c.T, b)
					plain = false
				}
				c.NonTrivial()
			}
			if ok {
				c.NonTrivial()
			}
			w.take()
			var err error
			c.NoPanic("handling bytes", func() { err = socket(b) })
			c.Step("%d bytes, envelope %v of type %v: %v", len(b), ok, parsed.GetType(), err)
			allowed := map[string]int{}
			if plain && ok && parsed.Type != nil && *parsed.Type == signalservice.Envelope_RECEIPT && parsed.GetSourceUuid() != "" && parsed.Timestamp != nil {
				allowed["receipt"] = 1
			}
			if plain && ok && (parsed.GetType() == signalservice.Envelope_CIPHERTEXT || parsed.GetType() == signalservice.Envelope_PREKEY_BUNDLE) {
				for _, g := range [][]byte{h.bytes[0], h.bytes[1]} {
					if bytes.Equal(parsed.Content, g) || len(parsed.Content) > 0 {
						// the genuine message, or one altered where nothing authenticates it
						allowed["message"] = 1
					}
				}
			}
			got := w.take()
			for _, cl := range got {
				if allowed[cl.kind] == 0 || cl.kind == "message" && (cl.msg.Message() != "text" || cl.msg.Timestamp() != 7) {
					c.Bad("bytes %x lead to %s", b, show21(got))
				}
				allowed[cl.kind]--
			}
			if plain && ok && parsed.Type != nil && *parsed.Type == signalservice.Envelope_RECEIPT && parsed.GetSourceUuid() != "" && parsed.Timestamp != nil && allowed["receipt"] == 1 {
				c.Bad("a receipt of the server does not reach the application: %v", err)
			}
		}
		carol := newPeer(carolUUID, 5)
		if k, err := ContactIdentityKey(carolUUID); err == nil { // pinned by a message that claimed to be hers
			if !bytes.Equal(k[1:], bob.kp.Pub[:]) {
				c.Bad("an identity nobody has is pinned")
			}
			carol = newPeer(daveUUID, 5)
		}
		w.peers[carol.uuid] = carol
		w.alive(carol, 5, 11)
	})
}

func TestC22Contents(t *testing.T) {
	kit.Check(t, "an authentic message had a content that is not an ordinary one", func(c *kit.Case) {
		w := newWorld(c, "")
		bob := newPeer(bobUUID, 1)
		w.peers[bobUUID] = bob
		own := w.ownDevices(2)
		config.ConfigFile.ProfileKeyCredential = nil
		zs := w.withGroups()
		zkCases++
		key := bytes.Repeat([]byte{0x22}, 32)
		for j := 0; j < 8; j++ {
			key[j] = byte(zkCases >> (8 * j))
		}
		g := newZkGroup(c, key)
		g.members = []zkMember{{bobUUID, 1, userKey(bobUUID, 0), 0}, {ourUUID, 1, userKey(ourUUID, 0), 0}}
		g.publish(c)
		zs.groups = append(zs.groups, g)
		client.GetLocalContacts = nil
		h := &hostile{c: c, many: 3}
		h.bytes = [][]byte{key, g.encUUID(c, bobUUID), g.encUUID(c, ourUUID), g.encKey(c, bobUUID, userKey(bobUUID, 0)), g.presentation(c, bobUUID, userKey(bobUUID, 0)),
			g.encBlob(c, &signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_Title{Title: "t"}}),
			g.encBlob(c, &signalservice.GroupAttributeBlob{}), {0}, make([]byte, 65), make([]byte, 33)}
		hostileState := func() []byte {
			st := proto.Clone(g.published).(*signalservice.Group)
			switch c.Int("state", 0, 3) {
			case 0:
				st = h.message(&signalservice.Group{}, 3).(*signalservice.Group)
			case 1:
				h.message(st, 3)
			}
			b, _ := proto.Marshal(st)
			for k := c.Int("state mutations", 0, 2); k > 0; k-- {
				b, _ = kit.Mutate(c.T, b)
			}
			return b
		}
		zs.fault = nil
		for n := c.Int("inputs", 1, 4); n > 0; n-- {
			p := bob
			if c.Chance("own", 1, 3) {
				p = own
			}
			ct := &signalservice.Content{}
			kind := c.Int("kind", 0, 7)
			switch kind {
			case 0:
				h.message(ct, 4)
			case 1:
				ct.DataMessage = h.message(&signalservice.DataMessage{}, 3).(*signalservice.DataMessage)
			case 2, 3:
				dm := &signalservice.DataMessage{Timestamp: proto.Uint64(3)}
				dm.GroupV2 = &signalservice.GroupContextV2{Revision: opt(c, "rev", func() uint32 { return uint32(c.Int("r", 0, 4)) })}
				dm.GroupV2.MasterKey = key
				if c.Chance("other key", 1, 4) {
					dm.GroupV2.MasterKey = kit.Bytes(64).Draw(c.T, "master key")
				}
				if c.Chance("change", 1, 2) {
					a := h.message(&signalservice.GroupChange_Actions{}, 4).(*signalservice.GroupChange_Actions)
					if c.Chance("known source", 1, 2) {
						a.SourceUuid = g.encUUID(c, bobUUID)
					}
					dm.GroupV2.GroupChange = g.change(c, a)
					if c.Chance("unsigned", 1, 4) {
						b, _ := proto.Marshal(a)
						dm.GroupV2.GroupChange, _ = proto.Marshal(h.message(&signalservice.GroupChange{Actions: b}, 1))
					}
					if c.Chance("damaged change", 1, 4) {
						dm.GroupV2.GroupChange, _ = kit.Mutate(c.T, dm.GroupV2.GroupChange)
					}
				}
				ct.DataMessage = dm
				zs.fault = nil
				if c.Chance("hostile state", 1, 2) {
					b := hostileState()
					zs.fault = func(at string, rw http.ResponseWriter) bool {
						if at == "group" {
							rw.Write(b)
							return true
						}
						return false
					}
				}
			case 4:
				ct.SyncMessage = h.message(&signalservice.SyncMessage{}, 4).(*signalservice.SyncMessage)
			case 5:
				ct.CallMessage = h.message(&signalservice.CallMessage{}, 3).(*signalservice.CallMessage)
			case 6:
				ct.ReceiptMessage = h.message(&signalservice.ReceiptMessage{}, 1).(*signalservice.ReceiptMessage)
			case 7:
				ct.TypingMessage = h.message(&signalservice.TypingMessage{}, 1).(*signalservice.TypingMessage)
			}
			if ct.GetSyncMessage().GetRequest().GetType() == signalservice.SyncMessage_Request_CONTACTS {
				// needs the application's contacts
				ct.SyncMessage.Request = nil
			}
			b, err := proto.Marshal(ct)
			if err != nil {
				continue
			}
			if c.Chance("damaged", 1, 3) {
				for k := c.Int("damage", 1, 3); k > 0; k-- {
					b, _ = kit.Mutate(c.T, b)
				}
				reparsed := &signalservice.Content{}
				if proto.Unmarshal(b, reparsed) == nil && reparsed.GetSyncMessage().GetRequest() != nil {
					continue
				}
			}
			padded := padTo160(b)
			switch c.Int("padding", 0, 5) {
			case 0:
				padded = b // whatever ends it
				if i := bytes.LastIndexByte(b, 0x80); i >= 0 {
					b = b[:i]
				}
				reparsed := &signalservice.Content{}
				if proto.Unmarshal(b, reparsed) == nil && reparsed.GetSyncMessage().GetRequest() != nil {
					continue
				}
			}
			dev := p.ids()[0]
			typ, m := p.devs[dev].send(w.ourBundle(true), padded)
			w.take()
			c.NoPanic("handling a content", func() { err = w.deliver(p, dev, typ, m, 5) })
			c.Step("%s: content of %d bytes (%d): %.60v", p.uuid[34:], len(b), kind, err)
			c.Class(fmt.Sprintf("kind %d", kind))
			allowed := allowed22(b)
			if p != own {
				delete(allowed, "sync sent")
				delete(allowed, "sync read")
			}
			w.judge22(allowed, fmt.Sprintf("content %x from %s", b, p.uuid))
			c.NonTrivial()
			// whatever the content said about the sessions, a new one is possible
			for _, d := range []*device{bob.devs[1], own.devs[2]} {
				if len(textSecureStore.GetSubDeviceSessions(bobUUID)) == 0 || len(textSecureStore.GetSubDeviceSessions(ourUUID)) == 0 {
					d.sessions = nil
				}
			}
			if gr := groupsv2.FindGroup(hex.EncodeToString(key)); gr != nil {
				c.NoPanic("using the group", func() {
					gr.CheckJoinStatus()
					gr.DecryptedGroup.GetMembers()
				})
			}
		}
		zs.fault = nil
		w.alive(bob, 1, 20)
	})
}
