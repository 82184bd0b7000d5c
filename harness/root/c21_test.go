//go:build go1.22

package textsecure

import (
	"encoding/base64"
	"fmt"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// env21 is an envelope on its way, with the calls it must lead to.
type env21 struct {
	from   *peer
	dev    uint32
	typ    signalservice.Envelope_Type
	ts     uint64
	b      []byte
	want   []call
	what   string
	cipher bool
}

// serverTime is when the server got a message of the given time.
func serverTime(ts uint64) uint64 { return ts + 500003 }

func (x *c19) content21(p *peer, dev uint32, ts uint64, n int) (*signalservice.Content, []call, string) {
	c := x.c
	one := func(kind, text string, t uint64) []call {
		return []call{{kind: kind, msg: &Message{sourceUUID: p.uuid, message: text, timestamp: t}}}
	}
	own := p.uuid == ourUUID
	k := c.Int("kind", 0, 9)
	if own && k < 4 {
		k = 8
	}
	switch k {
	case 0, 1:
		text := fmt.Sprintf("text %d", n)
		return &signalservice.Content{DataMessage: &signalservice.DataMessage{Body: &text, Timestamp: &ts}}, one("message", text, ts), "text"
	case 2, 3:
		cm := &signalservice.CallMessage{}
		text := ""
		switch c.Int("call", 0, 5) {
		case 0:
			cm.Offer, text = &signalservice.CallMessage_Offer{Id: proto.Uint64(1)}, "Call offer"
		case 1:
			cm.Answer, text = &signalservice.CallMessage_Answer{Id: proto.Uint64(1)}, "Call answer"
		case 2:
			cm.Hangup, text = &signalservice.CallMessage_Hangup{Id: proto.Uint64(1)}, "Call hangup"
		case 3:
			cm.LegacyHangup, text = &signalservice.CallMessage_Hangup{Id: proto.Uint64(1)}, "Call hangup"
		case 4:
			cm.Busy, text = &signalservice.CallMessage_Busy{Id: proto.Uint64(1)}, "Call busy"
		case 5:
			cm.IceUpdate, text = []*signalservice.CallMessage_IceUpdate{{Id: proto.Uint64(1)}}, "Call ring"
		}
		return &signalservice.Content{CallMessage: cm}, one("call", text, serverTime(ts)), text
	case 4, 5:
		rm := &signalservice.ReceiptMessage{Type: signalservice.ReceiptMessage_DELIVERY.Enum()}
		text := "deliveryReceiptMessage"
		if c.Chance("read", 1, 2) {
			rm.Type, text = signalservice.ReceiptMessage_READ.Enum(), "readReceiptMessage"
		} else if c.Chance("viewed", 1, 4) {
			// neither delivered nor read
			rm.Type, text = signalservice.ReceiptMessage_VIEWED.Enum(), "sentReceiptMessage"
		}
		var want []call
		for i := c.Int("receipts", 1, 4); i > 0; i-- {
			t := x.u64()
			rm.Timestamp = append(rm.Timestamp, t)
			want = append(want, one("receipt message", text, t)...)
		}
		return &signalservice.Content{ReceiptMessage: rm}, want, text
	case 6:
		tm := &signalservice.TypingMessage{Timestamp: &ts, Action: signalservice.TypingMessage_STARTED.Enum()}
		return &signalservice.Content{TypingMessage: tm}, one("typing", "typingMessage", serverTime(ts)), "typing"
	case 7:
		nm := &signalservice.NullMessage{Padding: make([]byte, c.Int("padding", 0, 200))}
		return &signalservice.Content{NullMessage: nm}, nil, "null message"
	case 8:
		text := fmt.Sprintf("sent %d", n)
		sm := &signalservice.SyncMessage{Sent: &signalservice.SyncMessage_Sent{DestinationUuid: proto.String(carolUUID), Timestamp: &ts, Message: &signalservice.DataMessage{Body: &text, Timestamp: &ts}}}
		if !own {
			return &signalservice.Content{SyncMessage: sm}, nil, "sync message of another account"
		}
		return &signalservice.Content{SyncMessage: sm}, []call{{kind: "sync sent", msg: &Message{sourceUUID: carolUUID, message: text, timestamp: ts}, ts: serverTime(ts)}}, "sync sent"
	default:
		sm := &signalservice.SyncMessage{}
		var want []call
		for i := c.Int("reads", 1, 3); i > 0; i-- {
			t := x.u64()
			u := kit.Pick(c.T, "whose", []string{bobUUID, carolUUID})
			sm.Read = append(sm.Read, &signalservice.SyncMessage_Read{SenderUuid: &u, Timestamp: &t})
			want = append(want, call{kind: "sync read", source: u, ts: t})
		}
		if !own {
			return &signalservice.Content{SyncMessage: sm}, nil, "sync read of another account"
		}
		return &signalservice.Content{SyncMessage: sm}, want, "sync read"
	}
}

func show21(cs []call) string {
	s := ""
	for _, cl := range cs {
		if cl.msg != nil {
			s += fmt.Sprintf("[%s %q from %s at %d ts %d]", cl.kind, cl.msg.Message(), cl.msg.SourceUUID(), cl.msg.Timestamp(), cl.ts)
		} else {
			s += fmt.Sprintf("[%s %s %d ts %d]", cl.kind, cl.source, cl.device, cl.ts)
		}
	}
	return s
}

func TestC21Dispatch(t *testing.T) {
	kit.Check(t, "a genuine envelope was handled next to a duplicate, an altered or an out-of-order one", func(c *kit.Case) {
		w := newWorld(c, "")
		x := &c19{c, w}
		bob, carol := newPeer(bobUUID, 1, 2), newPeer(carolUUID, 1)
		w.peers[bobUUID], w.peers[carolUUID] = bob, carol
		own := w.ownDevices(2)
		all := []*peer{bob, carol, own}
		missing := map[string]bool{}
		if c.Chance("handlers missing", 1, 5) {
			off := func(kind string, clear func()) {
				if c.Chance("no "+kind, 1, 3) {
					clear()
					missing[kind] = true
					c.Step("no handler for %s", kind)
				}
			}
			off("typing", func() { client.TypingMessageHandler = nil })
			off("receipt message", func() { client.ReceiptMessageHandler = nil })
			off("receipt", func() { client.ReceiptHandler = nil })
			off("sync read", func() { client.SyncReadHandler = nil })
			off("sync sent", func() { client.SyncSentHandler = nil })
			off("call", func() { client.CallMessageHandler = nil })
			off("message", func() { client.MessageHandler = nil })
		}
		viaSocket := c.Chance("signaling key", 1, 3)
		var pending, done []env21
		handle := func(e env21, src string, dev uint32) ([]call, error) {
			w.take()
			var err error
			sts := serverTime(e.ts)
			env := &signalservice.Envelope{Type: &e.typ, SourceUuid: &src, SourceDevice: &dev, Timestamp: &e.ts, ServerTimestamp: &sts, Content: e.b}
			c.NoPanic("handling "+e.what, func() {
				if !viaSocket {
					err = handleReceivedMessage(env)
					return
				}
				// the way of the web socket
				b, _ := proto.Marshal(env)
				var pt []byte
				pt, err = decryptReceivedMessage(b)
				if err != nil {
					return
				}
				var e2 *signalservice.Envelope
				e2, err = createEnvelope(pt)
				if err == nil {
					err = handleReceivedMessage(e2)
				}
			})
			return w.take(), err
		}
		expect := func(cs []call) []call {
			var out []call
			for _, cl := range cs {
				if cl.kind == "call" && missing["call"] {
					cl.kind = "message"
				}
				if !missing[cl.kind] {
					out = append(out, cl)
				}
			}
			return out
		}
		ts := uint64(1700000000000)
		special := 0
		for n := c.Int("steps", 2, 16); n > 0 || len(pending) > 0; n-- {
			op := c.Int("op", 0, 9)
			if n <= 0 {
				op = 6
			}
			switch op {
			case 0, 1, 2: // someone writes
				p := kit.Pick(c.T, "from", all)
				id := kit.Pick(c.T, "dev", p.ids())
				ts += uint64(c.Int("later", 1, 1000))
				if c.Chance("server receipt", 1, 8) {
					pending = append(pending, env21{from: p, dev: id, typ: signalservice.Envelope_RECEIPT, ts: ts, what: "server receipt",
						want: []call{{kind: "receipt", source: p.uuid, device: id, ts: ts}}})
					break
				}
				ct, want, what := x.content21(p, id, ts, n)
				b, _ := proto.Marshal(ct)
				typ, m := p.devs[id].send(w.ourBundle(c.Chance("prekey", 1, 2)), padTo160(b))
				pending = append(pending, env21{from: p, dev: id, typ: typ, ts: ts, b: m, want: want, what: what, cipher: true})
			case 3: // we write
				if c.Chance("reply", 1, 2) {
					p := kit.Pick(c.T, "to", all[:2])
					w.takeAcc()
					if _, err := SendMessage(p.uuid, "reply", 0); err != nil {
						c.Bad("sending fails: %v", err)
					}
					for _, a := range w.takeAcc() {
						if _, err := w.check(a); err != nil {
							c.Bad("reply: %v", err)
						}
					}
					c.Step("we write to %s", p.uuid[34:])
				}
			case 4: // a duplicate
				if len(done) > 0 {
					e := kit.Pick(c.T, "which", done)
					if !e.cipher {
						break
					}
					special++
					calls, err := handle(e, e.from.uuid, e.dev)
					if len(calls) != 0 {
						c.Bad("a duplicate (%s) leads to %s (%v)", e.what, show21(calls), err)
					}
					c.Step("duplicate of a %s", e.what)
				}
			case 5: // an altered one
				if len(pending) == 0 {
					break
				}
				e := kit.Pick(c.T, "which", pending)
				if !e.cipher {
					break
				}
				special++
				src, dev, d := e.from.uuid, e.dev, ""
				switch k := c.Int("alteration", 0, 3); {
				case k == 0 && e.typ == signalservice.Envelope_CIPHERTEXT:
					src, dev = bobUUID, 1
					if e.from == bob && e.dev == 1 {
						dev = 2
					}
					d = "claimed to come from another device"
				case k == 1:
					e.typ, d = kit.Pick(c.T, "type", []signalservice.Envelope_Type{0, 2, 6, 7, 8}), "of another type"
					if e.typ == signalservice.Envelope_UNIDENTIFIED_SENDER {
						d = "handed over as sealed"
					}
				default:
					// inside the authenticated part: the MAC covers everything but the registration id of an initial message
					if e.typ == signalservice.Envelope_PREKEY_BUNDLE {
						m := append([]byte{}, e.b...)
						m[len(m)-1-c.Int("tail", 0, 10)] ^= byte(c.Int("xor", 1, 255))
						// the last fields of the message are its ids, which may stay meaningless; alter the MAC instead
						i := indexMAC(e.b)
						if i < 0 {
							continue
						}
						m = append([]byte{}, e.b...)
						m[i-c.Int("into", 0, 7)] ^= byte(c.Int("xor", 1, 255))
						e.b, d = m, "altered"
					} else {
						e.b, d = kit.Mutate(c.T, e.b)
						if d[0] == 'e' || len(e.b) == 0 { // trailing bytes
						}
					}
				}
				calls, err := handle(e, src, dev)
				if len(calls) != 0 {
					c.Bad("a %s %s leads to %s (%v)", e.what, d, show21(calls), err)
				}
				c.Step("a %s, %s: %v", e.what, d, err)
			default: // delivery, in any order
				if len(pending) == 0 {
					break
				}
				i := 0
				if c.Chance("out of order", 1, 3) {
					i = c.Int("i", 0, len(pending)-1)
					if i > 0 {
						special++
					}
				}
				e := pending[i]
				pending = append(append([]env21{}, pending[:i]...), pending[i+1:]...)
				calls, err := handle(e, e.from.uuid, e.dev)
				want := expect(e.want)
				if show21(calls) != show21(want) {
					c.Bad("%s of %s device %d leads to %s (%v), expected %s", e.what, e.from.uuid[34:], e.dev, show21(calls), err, show21(want))
				}
				if err != nil && len(e.want) > 0 {
					c.Bad("%s of %s is refused: %v", e.what, e.from.uuid[34:], err)
				}
				c.Step("%s of %s device %d", e.what, e.from.uuid[34:], e.dev)
				c.Class(e.what)
				done = append(done, e)
				if special > 0 {
					c.NonTrivial()
				}
			}
		}
	})
}

// indexMAC finds the last byte of the inner message of an initial message.
func indexMAC(b []byte) int {
	// version byte, then protobuf fields; field 4 is the inner message
	i := 1
	for i < len(b) {
		tag := b[i]
		i++
		v, n := uint64(0), 0
		for ; i+n < len(b); n++ {
			v |= uint64(b[i+n]&0x7f) << (7 * n)
			if b[i+n] < 0x80 {
				n++
				break
			}
		}
		i += n
		if tag&7 == 2 {
			if tag>>3 == 4 {
				return i + int(v) - 1
			}
			i += int(v)
		}
	}
	return -1
}

var _ = base64.StdEncoding
var _ = config.ConfigFile
var _ = registration.Registration
