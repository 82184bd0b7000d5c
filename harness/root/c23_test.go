//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// phoneBook draws the contacts of the address book.
func phoneBook(c *kit.Case, e *enclave) []contacts.Contact {
	var out []contacts.Contact
	for n := c.Int("contacts", 0, 6); n > 0; n-- {
		ct := contacts.Contact{Name: drawText(c.T, "name"), Color: kit.Pick(c.T, "color", []string{"", "red", "ultramarine"}), Blocked: c.Chance("blocked", 1, 2),
			ExpireTimer: kit.Pick(c.T, "timer", []uint32{0, 1, 3600, 1<<32 - 1})}
		if strings.Count(ct.Name, "=") > 2 {
			ct.Name = "x"
		}
		if c.Chance("long", 1, 12) {
			ct.Name = long23(c)
		}
		num := int64(49100000000 + c.Int("number", 0, 9))
		ct.Tel = fmt.Sprintf("+%d", num)
		switch c.Int("tel", 0, 9) {
		case 0:
			ct.Tel = kit.Pick(c.T, "odd", []string{"", "no number", "+49 151 234", "0151-234", "+491/23", "(0)30 1234", "12345678901234567890123", "+49151 ext.3", "-12", "#31#", "*100#"})
		case 1:
			ct.Tel = kit.Pick(c.T, "plain", []string{"1", "0", "00491511", "9223372036854775807"})
		}
		if c.Chance("registered", 3, 4) {
			u := kit.Fill(c.T, 16)
			u[6], u[8] = 0x40|u[6]&15, 0x80|u[8]&63
			e.uuids[num] = u
		}
		if c.Chance("verified", 1, 3) {
			ct.Verified = &signalservice.Verified{DestinationUuid: proto.String(bobUUID), State: signalservice.Verified_VERIFIED.Enum(), IdentityKey: kit.Fill(c.T, 33)}
		}
		// what an earlier lookup found
		ct.Registered = c.Chance("was registered", 1, 3)
		if c.Chance("known identifier", 1, 3) {
			ct.UUID = kit.Pick(c.T, "uuid", []string{bobUUID, carolUUID, "", "0", "not a uuid", "00000000-0000-0000-0000-000000000000"})
		}
		out = append(out, ct)
	}
	return out
}

// long23 is a name whose entry takes one more byte for its length, or nearly.
func long23(c *kit.Case) string {
	return strings.Repeat("n", kit.Pick(c.T, "long name", []int{100, 128, 1 << 14, 1 << 16, 1 << 17, 1 << 21})+c.Int("off", -80, 8))
}

// plainNumber: a number the way the account database has it.
func plainNumber(t string) (int64, bool) {
	s := strings.TrimPrefix(t, "+")
	if s == "" || len(s) > 15 {
		return 1<<63 - 1, s == "9223372036854775807"
	}
	var n int64
	for _, r := range s {
		if r < '0' || r > '9' {
			return 0, false
		}
		n = 10*n + int64(r-'0')
	}
	return n, true
}

// details splits a length-prefixed list.
func details(b []byte) ([][]byte, error) {
	var out [][]byte
	for len(b) > 0 {
		n, k := binary.Uvarint(b)
		if k <= 0 || n > uint64(len(b)-k) {
			return nil, errors.New("length prefix")
		}
		out = append(out, b[k:k+int(n)])
		b = b[k+int(n):]
	}
	return out, nil
}

func TestC23Sync(t *testing.T) {
	kit.Check(t, "a sync message of another own device was handled and compared", func(c *kit.Case) {
		w := newWorld(c, "")
		x := &c19{c, w}
		bob := newPeer(bobUUID, 1)
		w.peers[bobUUID] = bob
		own := w.ownDevices([]uint32{2, 3}[:c.Int("own devices", 1, 2)]...)
		contacts.Contacts[bobUUID] = contacts.Contact{UUID: bobUUID, Name: "bob", ProfileKey: []byte("bob's key")}
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		e := w.withEnclave()
		var zs *zkServer
		var g *zkGroup
		if c.Chance("group", 1, 3) {
			old := w.extra
			zs = w.withGroups()
			w.extra2(old)
			zkCases++
			key := bytes.Repeat([]byte{0x23}, 32)
			for j := 0; j < 8; j++ {
				key[j] = byte(zkCases >> (8 * j))
			}
			g = newZkGroup(c, key)
			g.rev = 1
			for _, u := range []string{bobUUID, ourUUID} {
				g.members = append(g.members, zkMember{u, signalservice.Member_DEFAULT, userKey(u, 0), 1})
			}
			g.publish(c)
			zs.groups = append(zs.groups, g)
		}
		fault := ""
		refusal, eRefusal, eBody := 0, 0, ""
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			if fault == "upload" && strings.HasPrefix(r.URL.Path, "/v3/attachments") || fault == "cdn" && strings.HasPrefix(r.URL.Path, "/resumable") ||
				fault == "messages" && strings.HasPrefix(r.URL.Path, "/v1/messages") {
				rw.WriteHeader(refusal)
				return true
			}
			return false
		}
		e.fault = func(at string, rw http.ResponseWriter) bool {
			if fault == at {
				rw.WriteHeader(eRefusal)
				rw.Write([]byte(eBody))
				return true
			}
			return false
		}
		for n := c.Int("messages", 1, 5); n > 0; n-- {
			dev := kit.Pick(c.T, "dev", own.ids())
			ts := uint64(1000 + n)
			fault = ""
			refusal = kit.Refusal(c.T, "status", []int{400, 403, 404, 500, 503})
			eRefusal = kit.Refusal(c.T, "enclave status", []int{400, 401, 403, 404, 429, 500})
			eBody = kit.Pick(c.T, "enclave body", []string{"", "{}", "null", "<html>"})
			send := func(sm *signalservice.SyncMessage) error {
				b, err := proto.Marshal(&signalservice.Content{SyncMessage: sm})
				if err != nil {
					c.Broken("%v", err)
				}
				typ, m := own.devs[dev].send(w.ourBundle(true), padTo160(b))
				w.take()
				w.takeAcc()
				c.NoPanic("handling a sync message", func() { err = w.deliver(own, dev, typ, m, ts) })
				return err
			}
			switch op := c.Int("op", 0, 11); {
			case op == 11: // another account poses as a device of ours
				id := kit.Pick(c.T, "whose", []string{ourUUID[:len(ourUUID)-1], ourUUID[:8], ourUUID + "0", ourUUID[1:], ourUUID[:len(ourUUID)-1] + "b", "1" + ourUUID[1:], bobUUID})
				other := bob
				if id != bobUUID {
					other = newPeer(id, 1)
					w.peers[id] = other
				}
				sm := kit.Pick(c.T, "claims", []*signalservice.SyncMessage{
					{Request: &signalservice.SyncMessage_Request{Type: signalservice.SyncMessage_Request_CONTACTS.Enum()}},
					{Request: &signalservice.SyncMessage_Request{Type: signalservice.SyncMessage_Request_GROUPS.Enum()}},
					{Read: []*signalservice.SyncMessage_Read{{SenderUuid: proto.String(bobUUID), Timestamp: &ts}}},
					{Sent: &signalservice.SyncMessage_Sent{DestinationUuid: proto.String(bobUUID), Timestamp: &ts, Message: &signalservice.DataMessage{Body: proto.String("forged"), Timestamp: &ts}}}})
				b, err := proto.Marshal(&signalservice.Content{SyncMessage: sm})
				if err != nil {
					c.Broken("%v", err)
				}
				typ, m := other.devs[1].send(w.ourBundle(true), padTo160(b))
				w.take()
				w.takeAcc()
				c.NoPanic("handling a sync message", func() { err = w.deliver(other, 1, typ, m, ts) })
				c.Step("%s sends %v: %v", id, sm, err)
				if cs := w.take(); len(cs) != 0 {
					c.Bad("a sync message of another account (%s) is reported: %s", id, show21(cs))
				}
				if acc := w.takeAcc(); len(acc) != 0 {
					c.Bad("a request of another account (%s) is answered with %d messages", id, len(acc))
				}
				delete(w.peers, id)
				if id == bobUUID {
					w.peers[bobUUID] = bob
				}
				c.Class("another account")
			case op == 10: // we ask for the contacts of our other devices
				fault = kit.Pick(c.T, "fault", []string{"", "", "messages"})
				w.take()
				w.takeAcc()
				var err error
				c.NoPanic("SyncContacts", func() { err = SyncContacts() })
				c.Step("we ask for the contacts, fault %q: %v", fault, err)
				acc := w.takeAcc()
				if fault != "" {
					if err == nil || len(acc) != 0 {
						c.Bad("a request for the contacts with the fault %q leads to %d messages and error %v", fault, len(acc), err)
					}
					break
				}
				if err != nil {
					c.Bad("the contacts can not be asked for: %v", err)
				}
				if rq := w.answer23(acc, own).GetRequest(); rq == nil || rq.GetType() != signalservice.SyncMessage_Request_CONTACTS {
					c.Bad("instead of the contacts is asked for %v", rq)
				}
				c.NonTrivial()
			case op < 4: // a message the other device sent
				dm := x.message()
				dest := kit.Pick(c.T, "dest", []string{bobUUID, carolUUID})
				if g != nil && c.Chance("in group", 1, 2) {
					dm.GroupV2 = &signalservice.GroupContextV2{MasterKey: g.key, Revision: proto.Uint32(g.rev)}
					if c.Chance("no destination", 1, 2) && dm.GetFlags()&5 == 0 {
						dest = ""
					}
				}
				numberOnly := dest != "" && dm.GetFlags()&5 == 0 && c.Chance("number only", 1, 5)
				sent := &signalservice.SyncMessage_Sent{Timestamp: dm.Timestamp, Message: dm}
				switch c.Int("sent timestamp", 0, 3) {
				case 0:
					sent.Timestamp = nil
				case 1:
					sent.Timestamp = proto.Uint64(dm.GetTimestamp() + 1)
				}
				if dest != "" {
					sent.DestinationUuid = &dest
				}
				if numberOnly {
					sent.DestinationUuid, dest = nil, ""
				}
				if numberOnly || c.Chance("number", 1, 2) && dest != "" {
					sent.DestinationE164 = proto.String("+491234")
				}
				before := map[string]contacts.Contact{}
				for k, v := range contacts.Contacts {
					before[k] = v
				}
				err := send(&signalservice.SyncMessage{Sent: sent})
				calls := w.take()
				c.Step("sent to %q: flags %d, group %v", dest, dm.GetFlags(), dm.GroupV2 != nil)
				if err != nil || len(calls) != 1 || calls[0].kind != "sync sent" {
					c.Bad("a message another device sent to %q leads to %s (%v)", dest, show21(calls), err)
				}
				m := calls[0].msg
				x.compare("sync sent", m, dm, dest)
				if m.Source() != sent.GetDestinationE164() {
					c.Bad("destination number %q instead of %q", m.Source(), sent.GetDestinationE164())
				}
				if calls[0].ts != ts {
					c.Bad("reported with the time %d, it is %d", calls[0].ts, ts)
				}
				if len(before) != len(contacts.Contacts) {
					c.Bad("a message our other device sent changes the contacts from %d to %d", len(before), len(contacts.Contacts))
				}
				for k, v := range before {
					if !bytes.Equal(contacts.Contacts[k].ProfileKey, v.ProfileKey) || contacts.Contacts[k].Name != v.Name {
						c.Bad("a message our other device sent changes the contact %s: %v, was %v", k, contacts.Contacts[k], v)
					}
				}
				c.NonTrivial()
			case op < 6:
				sm := &signalservice.SyncMessage{}
				want := ""
				for k := c.Int("reads", 1, 5); k > 0; k-- {
					u, t := kit.Pick(c.T, "whose", []string{bobUUID, carolUUID, daveUUID}), x.u64()
					sm.Read = append(sm.Read, &signalservice.SyncMessage_Read{SenderUuid: &u, Timestamp: &t})
					want += fmt.Sprintf("[sync read %s 0 ts %d]", u, t)
				}
				err := send(sm)
				if got := show21(w.take()); got != want || err != nil {
					c.Bad("read marks %s are reported as %s (%v)", want, got, err)
				}
				c.Step("%d read marks", len(sm.Read))
				c.NonTrivial()
			case op < 8:
				book := phoneBook(c, e)
				client.GetLocalContacts = func() ([]contacts.Contact, error) { return append([]contacts.Contact{}, book...), nil }
				if c.Chance("book fails", 1, 12) {
					fault = "book"
					client.GetLocalContacts = func() ([]contacts.Contact, error) { return nil, errors.New("no address book") }
				}
				e.n = c.Int("attestations", 1, 3)
				if c.Chance("fault", 1, 4) {
					fault = kit.Pick(c.T, "fault", []string{"upload", "cdn", "messages", "auth", "attestation", "discovery"})
				}
				e.problems = nil
				var want []*signalservice.ContactDetails
				numbers := 0
				seen := map[string]bool{}
				for _, ct := range book {
					if num, ok := plainNumber(ct.Tel); ok && ct.Tel != "" && !seen[ct.Tel] {
						seen[ct.Tel] = true
						numbers++
						ct.UUID = ""
						if u := e.uuids[num]; u != nil {
							h := hex.EncodeToString(u)
							ct.UUID = h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
						}
					}
					if isUUID4(ct.UUID) {
						ct := ct
						want = append(want, &signalservice.ContactDetails{Number: &ct.Tel, Uuid: &ct.UUID, Name: &ct.Name, Color: &ct.Color, Verified: ct.Verified, Blocked: &ct.Blocked, ExpireTimer: &ct.ExpireTimer})
					}
				}
				err := send(&signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: signalservice.SyncMessage_Request_CONTACTS.Enum()}})
				c.Step("contacts request: %d contacts, %d with a number, %d to list, fault %q: %v", len(book), numbers, len(want), fault, err)
				if len(e.problems) > 0 && fault != "auth" {
					c.Bad("%s", e.problems[0])
				}
				acc := w.takeAcc()
				if numbers == 0 && len(book) > 0 && fault == "" {
					// nothing to look up: the service can not be asked
					break
				}
				if fault != "" || numbers == 0 {
					if err == nil || len(acc) != 0 {
						c.Bad("%d contacts, fault %q: the request is answered with %d messages and error %v", len(book), fault, len(acc), err)
					}
					break
				}
				if err != nil {
					c.Bad("a request for the contacts fails: %v (%d contacts)", err, len(book))
				}
				sm := w.answer23(acc, own)
				list, err := w.blob23(sm.GetContacts().GetBlob())
				if err != nil {
					c.Bad("the contact list can not be read: %v", err)
				}
				if len(list) != len(want) {
					c.Bad("%d contacts are listed, %d can be", len(list), len(want))
				}
				for i, b := range list {
					cd := &signalservice.ContactDetails{}
					if err := proto.Unmarshal(b, cd); err != nil {
						c.Bad("contact %d: %v", i, err)
					}
					for _, wd := range want {
						if cd.GetUuid() == wd.GetUuid() && cd.GetNumber() == wd.GetNumber() {
							if cd.GetName() != wd.GetName() || cd.GetColor() != wd.GetColor() || cd.GetBlocked() != wd.GetBlocked() || cd.GetExpireTimer() != wd.GetExpireTimer() || (cd.Verified == nil) != (wd.Verified == nil) || cd.Verified != nil && !proto.Equal(cd.Verified, wd.Verified) {
								continue
							}
							wd.Number = proto.String("listed")
							cd = nil
							break
						}
					}
					if cd != nil {
						c.Bad("contact %d of the list is %v, which is not among %v", i, cd, want)
					}
				}
				c.NonTrivial()
			default:
				groups = map[string]*Group{}
				var want []*signalservice.GroupDetails
				for k := c.Int("groups", 0, 4); k > 0; k-- {
					gr := &Group{ID: kit.Fill(c.T, 16), Name: drawText(c.T, "name")}
					gr.ID[0] = byte(k)
					for j := c.Int("members", 0, 4); j > 0; j-- {
						gr.Members = append(gr.Members, fmt.Sprintf("+4912%d", c.Int("m", 0, 99)))
						if c.Chance("ourselves", 1, 4) {
							gr.Members = append(gr.Members, config.ConfigFile.Tel)
						}
					}
					if c.Chance("long", 1, 12) {
						gr.Name = long23(c)
					}
					if c.Chance("many", 1, 20) {
						for j := c.Int("many members", 100, 8000); j > 0; j-- {
							gr.Members = append(gr.Members, fmt.Sprintf("+4915%d", j))
						}
					}
					gr.Hexid = hex.EncodeToString(gr.ID)
					groups[gr.Hexid] = gr
					want = append(want, &signalservice.GroupDetails{Id: gr.ID, Name: proto.String(gr.Name), MembersE164: append([]string{}, gr.Members...)})
				}
				if c.Chance("fault", 1, 5) {
					fault = kit.Pick(c.T, "fault", []string{"upload", "cdn", "messages"})
				}
				err := send(&signalservice.SyncMessage{Request: &signalservice.SyncMessage_Request{Type: signalservice.SyncMessage_Request_GROUPS.Enum()}})
				c.Step("groups request: %d groups, fault %q: %v", len(want), fault, err)
				acc := w.takeAcc()
				if fault != "" {
					if err == nil || len(acc) != 0 {
						c.Bad("fault %q: the request is answered with %d messages and error %v", fault, len(acc), err)
					}
					break
				}
				if err != nil {
					c.Bad("a request for the groups fails: %v", err)
				}
				list, err := w.blob23(w.answer23(acc, own).GetGroups().GetBlob())
				if err != nil || len(list) != len(want) {
					c.Bad("%d groups are listed (%v), there are %d", len(list), err, len(want))
				}
				for i, b := range list {
					gd := &signalservice.GroupDetails{}
					if err := proto.Unmarshal(b, gd); err != nil {
						c.Bad("group %d: %v", i, err)
					}
					found := false
					for _, wd := range want {
						if bytes.Equal(gd.Id, wd.Id) {
							found = gd.GetName() == wd.GetName() && fmt.Sprint(gd.MembersE164) == fmt.Sprint(wd.MembersE164)
							wd.Id = nil
							break
						}
					}
					if !found {
						c.Bad("group %v in the list is none of %v", gd, want)
					}
				}
				c.NonTrivial()
			}
			// a message that ended sessions
			for _, d := range bob.devs {
				if len(textSecureStore.GetSubDeviceSessions(bobUUID)) == 0 {
					d.sessions = nil
				}
			}
		}
	})
}

func isUUID4(s string) bool {
	if len(s) != 36 || s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' || s[14] != '4' {
		return false
	}
	b, err := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
	return err == nil && len(b) == 16 && b[8]>>6 == 2
}

// extra2 puts another handler behind the present one.
func (w *world) extra2(next func(http.ResponseWriter, *http.Request, []byte) bool) {
	first := w.extra
	w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
		return first != nil && first(rw, r, body) || next != nil && next(rw, r, body)
	}
}

// answer23 is the one sync message sent to our own other devices.
func (w *world) answer23(acc []accepted, own *peer) *signalservice.SyncMessage {
	if len(acc) != 1 || acc[0].dest != ourUUID {
		w.c.Bad("%d message requests answer a sync request", len(acc))
	}
	pts, err := w.check(acc[0])
	if err != nil {
		w.c.Bad("answer: %v", err)
	}
	var sm *signalservice.SyncMessage
	for _, pt := range pts {
		b, err := unpad(pt)
		ct := &signalservice.Content{}
		if err != nil || proto.Unmarshal(b, ct) != nil || ct.SyncMessage == nil {
			w.c.Bad("the answer is not a sync message (%v)", err)
		}
		sm = ct.SyncMessage
	}
	return sm
}

func (w *world) blob23(p *signalservice.AttachmentPointer) ([][]byte, error) {
	if p == nil {
		return nil, errors.New("no attachment pointer")
	}
	if p.GetCdnNumber() != 2 {
		return nil, fmt.Errorf("cdn %d", p.GetCdnNumber())
	}
	w.mu.Lock()
	blob, ok := w.blobs[p.GetCdnKey()]
	w.mu.Unlock()
	if !ok {
		return nil, fmt.Errorf("no blob %q", p.GetCdnKey())
	}
	b, err := openBlob(p.Key, p.Digest, blob)
	if err != nil {
		return nil, err
	}
	if int(p.GetSize()) != len(b) {
		return nil, fmt.Errorf("size %d of %d bytes", p.GetSize(), len(b))
	}
	return details(b)
}
