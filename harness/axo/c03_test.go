//go:build go1.22

package axo

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// rmsg is a message between the library and the reference peer.
type rmsg struct {
	toLib   bool
	raw     []byte
	initial bool
	pt      []byte
	done    bool
}

func TestC03Interop(t *testing.T) {
	kit.Check(t, "conversations of the library with an independent implementation of the protocol, either side initiating, with and without one-time prekeys, any delivery order; "+
		"non-trivial: messages delivered in both directions, at least one after a ratchet step and at least one out of order",
		func(c *kit.Case) {
			c.SeedRand()
			me := newParty(c, "alice", uint32(c.Int("adev", 1, 4)))
			const peerName = "ref"
			peerDev := uint32(c.Int("pdev", 1, 4))
			pid := ref.NewKeyPair()
			preg := uint32(c.Int("preg", 1, 0x3fff))
			sc := func() *axolotl.SessionCipher {
				return axolotl.NewSessionCipher(me.st, me.st, me.st, me.st, peerName, peerDev)
			}
			var rs *ref.Session
			withPre := c.Chance("withPre", 1, 2)
			libInit := c.Chance("libInitiates", 1, 2)
			spk := ref.NewKeyPair()
			spkID := uint32(c.Int("spk", 1, 0xffffff))
			opk := ref.NewKeyPair()
			opkID := uint32(c.Int("opk", 1, 0xffffff))
			var msgs []*rmsg
			// what the reference peer expects of the library's next header
			var libPrev uint32
			libCtr := map[[32]byte]uint32{}
			var libChain [32]byte
			first := true
			libHeard := false // the library has received a message of the peer

			libSend := func(pt []byte) {
				raw, typ, err := sc().SessionEncryptMessage(append([]byte{}, pt...))
				if err != nil {
					c.Bad("encrypt: %v", err)
				}
				initial := typ == 3
				if initial && libHeard {
					c.Bad("still an initial message after the peer answered")
				}
				if !initial && libInit && !libHeard {
					c.Bad("an ordinary message before the peer answered")
				}
				var wm *ref.WM
				if initial {
					p, err := ref.ParsePKWM(raw)
					if err != nil {
						c.Bad("the library's initial message does not parse: %v (%x)", err, raw)
					}
					if p.RegID != me.st.reg {
						c.Bad("registration id %d in the initial message, ours is %d", p.RegID, me.st.reg)
					}
					if p.HasPreKey != withPre || (withPre && p.PreKeyID != opkID) {
						c.Bad("prekey id in the initial message: present=%v %d, used: %v %d", p.HasPreKey, p.PreKeyID, withPre, opkID)
					}
					if p.SPKID != spkID {
						c.Bad("signed prekey id %d in the initial message, the bundle had %d", p.SPKID, spkID)
					}
					if p.IK != me.kp.Pub {
						c.Bad("identity key in the initial message is not ours")
					}
					if !libInit {
						c.Bad("an initial message in a session we did not start")
					}
					wm = p.Msg
				} else {
					if typ != 1 {
						c.Bad("message type %d", typ)
					}
					wm, err = ref.ParseWM(raw)
					if err != nil {
						c.Bad("the library's message does not parse: %v (%x)", err, raw)
					}
				}
				if wm.Ratchet != libChain {
					if n, seen := libCtr[wm.Ratchet]; seen {
						c.Bad("went back to an old ratchet key (counter %d)", n)
					}
					// the previous counter names the last chain
					if !first {
						libPrev = libCtr[libChain]
						if libPrev > 0 {
							libPrev--
						}
					}
					libChain = wm.Ratchet
				}
				first = false
				if wm.Counter != libCtr[libChain] {
					c.Bad("counter %d, expected %d", wm.Counter, libCtr[libChain])
				}
				libCtr[libChain]++
				if !wm.HasPrev && libPrev != 0 || wm.Prev != libPrev {
					c.Bad("previous counter %d, expected %d", wm.Prev, libPrev)
				}
				msgs = append(msgs, &rmsg{raw: raw, initial: initial, pt: append([]byte{}, pt...)})
			}
			refSend := func(pt []byte) {
				raw, initial := rs.Encrypt(pt)
				msgs = append(msgs, &rmsg{toLib: true, raw: raw, initial: initial, pt: append([]byte{}, pt...)})
			}
			both := map[bool]int{}
			ooo := 0
			deliver := func(m *rmsg) {
				m.done = true
				for _, x := range msgs {
					if x == m {
						break
					}
					if !x.done && x.toLib == m.toLib {
						ooo++
						break
					}
				}
				if m.toLib {
					typ := int32(1)
					if m.initial {
						typ = 3
					}
					pt, err := decryptAs(sc(), typ, m.raw)
					if err != nil {
						c.Bad("the library refuses a message of the reference peer: %v", err)
					}
					if !bytes.Equal(pt, m.pt) {
						c.Bad("the library decrypted %x, sent was %x", pt, m.pt)
					}
					libHeard = true
				} else {
					var wm *ref.WM
					if m.initial {
						p, err := ref.ParsePKWM(m.raw)
						if err != nil {
							c.Bad("%v", err)
						}
						if rs == nil {
							var o *ref.KeyPair
							if p.HasPreKey {
								o = &opk
							}
							rs = ref.Respond(pid, preg, spk, o, p)
						}
						wm = p.Msg
					} else {
						var err error
						if wm, err = ref.ParseWM(m.raw); err != nil {
							c.Bad("%v", err)
						}
					}
					pt, err := rs.Decrypt(wm)
					if err != nil {
						c.Bad("the reference peer refuses a message of the library: %v", err)
					}
					if !bytes.Equal(pt, m.pt) {
						c.Bad("the reference peer decrypted %x, sent was %x", pt, m.pt)
					}
				}
				both[m.toLib]++
			}

			// start
			if libInit {
				var rnd [64]byte
				copy(rnd[:], kit.Fill(c.T, 64))
				sig := ref.Sign(pid.Priv, append([]byte{5}, spk.Pub[:]...), rnd)
				var pk *axolotl.ECPublicKey
				id := uint32(0)
				if withPre {
					pk, id = ecpub(opk.Pub), opkID
				}
				b, err := axolotl.NewPreKeyBundle(preg, peerDev, id, pk, int32(spkID), ecpub(spk.Pub), sig[:], axolotl.NewIdentityKey(pid.Pub[:]))
				if err != nil {
					c.Bad("%v", err)
				}
				if err := axolotl.NewSessionBuilder(me.st, me.st, me.st, me.st, peerName, peerDev).BuildSenderSession(b); err != nil {
					c.Bad("BuildSenderSession: %v", err)
				}
				libSend(kit.Big(100).Draw(c.T, "pt"))
			} else {
				b := ref.Bundle{RegID: me.st.reg, IK: me.kp.Pub, SPKID: me.spkID, SPK: me.spk.Pub, Sig: me.sig}
				if withPre {
					id, kp := me.newPreKey()
					b.HasOPK, b.OPKID, b.OPK = true, id, kp.Pub
				}
				var err error
				if rs, err = ref.Initiate(pid, preg, b); err != nil {
					c.Broken("%v", err)
				}
				refSend(kit.Big(100).Draw(c.T, "pt"))
			}
			libHas := libInit
			steps := c.Int("steps", 4, 50)
			started := false
			for k := 0; k < steps; k++ {
				if !started { // messages of the initiator only, until one arrives
					if c.Chance("more", 1, 3) {
						pt := kit.Bytes(60).Draw(c.T, "pt")
						if libInit {
							libSend(pt)
						} else {
							refSend(pt)
						}
						continue
					}
					i := c.Int("firstdel", 0, len(msgs)-1)
					deliver(msgs[i])
					c.Step("first delivery: %d of %d", i, len(msgs))
					started, libHas = true, true
					if got, err := sc().GetRemoteRegistrationID(); err != nil || got != preg {
						c.Bad("remote registration id %d (%v), the peer has %d", got, err, preg)
					}
					continue
				}
				switch op := c.Int("op", 0, 7); {
				case op <= 1 && libHas:
					n := 1
					if c.Chance("burst", 1, 15) {
						n = c.Int("n", 2, 60)
						if c.Chance("long", 1, 8) {
							n = c.Int("n", 200, 700)
							c.Class("long burst")
						}
					}
					for j := 0; j < n; j++ {
						if n > 60 {
							libSend([]byte{byte(j)})
							continue
						}
						libSend(kit.Big(100).Draw(c.T, "pt"))
					}
					c.Step("library sends %d", n)
				case op <= 3:
					n := 1
					if c.Chance("burst", 1, 15) {
						n = c.Int("n", 2, 60)
						if c.Chance("long", 1, 8) {
							n = c.Int("n", 200, 700)
							c.Class("long burst")
						}
					}
					for j := 0; j < n; j++ {
						if n > 60 {
							refSend([]byte{byte(j)})
							continue
						}
						refSend(kit.Big(100).Draw(c.T, "pt"))
					}
					c.Step("reference sends %d", n)
				default:
					var pend []*rmsg
					for _, m := range msgs {
						if !m.done {
							pend = append(pend, m)
						}
					}
					if len(pend) == 0 {
						continue
					}
					i := c.Int("which", 0, min(len(pend)-1, 5))
					if c.Chance("newest", 1, 4) {
						i = len(pend) - 1
					}
					m := pend[i]
					// the last five chains are kept on both sides: do not go further back
					if chainAge(msgs, m) >= 4 {
						m.done = true
						continue
					}
					deliver(m)
					c.Step("deliver toLib=%v initial=%v", m.toLib, m.initial)
				}
			}
			ratchets := len(libCtr)
			c.Class(fmt.Sprintf("libInit=%v pre=%v", libInit, withPre))
			if both[true] > 0 && both[false] > 0 && ratchets >= 2 && ooo > 0 {
				c.NonTrivial()
			}
		})
}

// chainAge counts the newer ratchet keys of the same sender among delivered messages.
func chainAge(msgs []*rmsg, m *rmsg) int {
	key := func(m *rmsg) [32]byte {
		if m.initial {
			p, _ := ref.ParsePKWM(m.raw)
			return p.Msg.Ratchet
		}
		w, _ := ref.ParseWM(m.raw)
		return w.Ratchet
	}
	k := key(m)
	newer := map[[32]byte]bool{}
	after := false
	for _, x := range msgs {
		if x == m {
			after = true
		}
		if after && x.toLib == m.toLib && x.done {
			if kk := key(x); kk != k {
				newer[kk] = true
			}
		}
	}
	return len(newer)
}
