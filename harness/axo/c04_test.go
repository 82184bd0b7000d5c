//go:build go1.22

package axo

import (
	"bytes"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

func TestC04Bundle(t *testing.T) {
	kit.Check(t, "prekey bundles with any combination of forged, altered, substituted or missing parts, against stores that know no key, the genuine key or another key of the peer; "+
		"non-trivial: the bundle is not the genuine one, or the known key differs",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			me, peer := s.p[0], s.p[1]
			// state before
			had := false
			if c.Chance("existing", 1, 3) {
				s.initiate(0, true)
				s.pingpong(c.Int("pp", 1, 4))
				had = true
			}
			attacker := ref.NewKeyPair()
			known := c.Int("known", 0, 2)
			switch known {
			case 0:
				if !had {
					delete(me.st.ids, peer.name)
				}
			case 1:
				me.st.ids[peer.name] = append([]byte{}, peer.kp.Pub[:]...)
			case 2:
				me.st.ids[peer.name] = append([]byte{}, attacker.Pub[:]...)
			}
			// the bundle
			id := peer.kp
			spk := peer.spk
			spkID := peer.spkID
			sig := peer.sig
			hasSPK := true
			changed := ""
			if c.Chance("attackerIdentity", 1, 4) {
				id = attacker
				changed += " identity"
			}
			if c.Chance("otherSPK", 1, 3) {
				spk = ref.NewKeyPair()
				changed += " signed-prekey"
			}
			switch c.Int("sig", 0, 6) {
			case 0:
			case 1:
				sig[c.Int("sigbyte", 0, 63)] ^= 1 << c.Int("sigbit", 0, 7)
				changed += " sig-bit"
			case 2:
				sig = [64]byte{}
				changed += " sig-zero"
			case 3: // made by the attacker for this key
				var rnd [64]byte
				sig = ref.Sign(attacker.Priv, append([]byte{5}, spk.Pub[:]...), rnd)
				changed += " sig-by-attacker"
			case 4: // genuine signature of the key without its type byte
				var rnd [64]byte
				sig = ref.Sign(peer.kp.Priv, spk.Pub[:], rnd)
				changed += " sig-over-bare-key"
			case 5: // of the one-time prekey or another message
				var rnd [64]byte
				sig = ref.Sign(peer.kp.Priv, append([]byte{5}, id.Pub[:]...), rnd)
				changed += " sig-over-other"
			case 6: // genuine for this spk by this identity
				var rnd [64]byte
				sig = ref.Sign(id.Priv, append([]byte{5}, spk.Pub[:]...), rnd)
			}
			if c.Chance("noSPK", 1, 10) {
				hasSPK = false
				changed += " no-signed-prekey"
			}
			preID, pre := uint32(0), ref.KeyPair{}
			if c.Chance("withPre", 1, 2) {
				preID, pre = peer.newPreKey()
			}
			var prePub, spkPub *axolotl.ECPublicKey
			if preID != 0 {
				prePub = ecpub(pre.Pub)
			}
			if hasSPK {
				spkPub = ecpub(spk.Pub)
			}
			b, err := axolotl.NewPreKeyBundle(peer.st.reg, peer.dev, preID, prePub, int32(spkID), spkPub, sig[:], axolotl.NewIdentityKey(id.Pub[:]))
			if err != nil {
				c.Bad("NewPreKeyBundle: %v", err)
			}
			trusted := me.st.ids[peer.name] == nil || bytes.Equal(me.st.ids[peer.name], id.Pub[:])
			ok := hasSPK && trusted && ref.Verify(id.Pub, append([]byte{5}, spk.Pub[:]...), sig)
			before := me.st.snapshot()
			var berr error
			c.NoPanic("BuildSenderSession", func() { berr = me.builder(peer).BuildSenderSession(b) })
			c.Step("existing=%v known=%d changed=[%s] pre=%v should=%v err=%v", had, known, changed, preID != 0, ok, berr)
			c.Sig(had, known, changed, preID != 0, ok)
			if changed != "" || known == 2 {
				c.NonTrivial()
			}
			if !ok {
				c.Class("must be refused")
				if berr == nil {
					c.Bad("a session was started from a bundle that must be refused (trusted=%v, changed:%s)", trusted, changed)
				}
				if me.st.snapshot() != before {
					c.Bad("a refused bundle changed what is stored (changed:%s)", changed)
				}
				return
			}
			c.Class("must be accepted")
			if berr != nil {
				c.Bad("a genuine bundle was refused: %v", berr)
			}
			if !bytes.Equal(me.st.ids[peer.name], id.Pub[:]) {
				c.Bad("the identity key of the bundle was not remembered")
			}
			// the session goes to the owner of the bundle
			if id == peer.kp && spk == peer.spk {
				me.cur = [32]byte{0xff}
				m := s.send(0, []byte("hello"))
				if !s.deliver(m) {
					c.Bad("the owner of the bundle cannot read the first message")
				}
			}
		})
}

func TestC04Initial(t *testing.T) {
	kit.Check(t, "initial messages whose identity, base key, key ids or inner message are substituted, against stores that know no key, the genuine key or another key; "+
		"non-trivial: something was substituted or the known key differs",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			alice, bob := s.p[0], s.p[1]
			if c.Chance("existing", 1, 3) {
				s.initiate(0, true)
				s.pingpong(c.Int("pp", 1, 4))
			}
			attacker := ref.NewKeyPair()
			known := c.Int("known", 0, 2)
			switch known {
			case 0:
				delete(bob.st.ids, alice.name)
			case 1:
				bob.st.ids[alice.name] = append([]byte{}, alice.kp.Pub[:]...)
			case 2:
				bob.st.ids[alice.name] = append([]byte{}, attacker.Pub[:]...)
			}
			// an initial message by alice or by the attacker under alice's name
			id := alice.kp
			byAttacker := c.Chance("byAttacker", 1, 3)
			if byAttacker {
				id = attacker
			}
			b := ref.Bundle{RegID: bob.st.reg, IK: bob.kp.Pub, SPKID: bob.spkID, SPK: bob.spk.Pub, Sig: bob.sig}
			if c.Chance("withPre", 1, 2) {
				pid, kp := bob.newPreKey()
				b.HasOPK, b.OPKID, b.OPK = true, pid, kp.Pub
			}
			rs, err := ref.Initiate(id, uint32(c.Int("reg", 1, 100)), b)
			if err != nil {
				c.Broken("%v", err)
			}
			pt := kit.Bytes(50).Draw(c.T, "pt")
			raw, _ := rs.Encrypt(pt)
			for k := c.Int("later", 0, 3); k > 0; k-- {
				pt = kit.Bytes(50).Draw(c.T, "pt")
				raw, _ = rs.Encrypt(pt)
			}
			changed := "nothing"
			claimed := id.Pub
			genuine := true
			switch c.Int("change", 0, 8) {
			case 1: // claims another identity
				p, _ := ref.ParsePKWM(raw)
				k := alice.kp.Pub
				if !byAttacker {
					k = attacker.Pub
				}
				claimed, genuine, changed = k, false, "identity"
				raw = pkwm(p.RegID, p.HasPreKey, p.PreKeyID, p.SPKID, p.Base, k, p.Msg.Raw)
			case 2:
				p, _ := ref.ParsePKWM(raw)
				genuine, changed = false, "base key"
				raw = pkwm(p.RegID, p.HasPreKey, p.PreKeyID, p.SPKID, ref.NewKeyPair().Pub, p.IK, p.Msg.Raw)
			case 3: // without the one-time prekey it used, or with one it did not use
				p, _ := ref.ParsePKWM(raw)
				pre := p.PreKeyID
				if !p.HasPreKey {
					pre, _ = bob.newPreKey()
				}
				genuine, changed = false, "prekey presence"
				raw = pkwm(p.RegID, !p.HasPreKey, pre, p.SPKID, p.Base, p.IK, p.Msg.Raw)
			case 4: // another one-time prekey
				p, _ := ref.ParsePKWM(raw)
				o, _ := bob.newPreKey()
				genuine, changed = false, "other prekey"
				raw = pkwm(p.RegID, true, o, p.SPKID, p.Base, p.IK, p.Msg.Raw)
			case 5: // another signed prekey of bob
				p, _ := ref.ParsePKWM(raw)
				kp := ref.NewKeyPair()
				nid := bob.spkID%0xffffff + 1
				bob.st.StoreSignedPreKey(nid, axolotl.NewSignedPreKeyRecord(nid, 2, axolotl.MakeECKeyPair(kp.Priv[:], kp.Pub[:]), bob.sig[:]))
				genuine, changed = false, "other signed prekey"
				raw = pkwm(p.RegID, p.HasPreKey, p.PreKeyID, nid, p.Base, p.IK, p.Msg.Raw)
			case 6: // altered inner message
				p, _ := ref.ParsePKWM(raw)
				in := append([]byte{}, p.Msg.Raw...)
				in[c.Int("pos", 1, len(in)-1)] ^= 1 << c.Int("bit", 0, 7)
				genuine, changed = false, "inner message"
				raw = pkwm(p.RegID, p.HasPreKey, p.PreKeyID, p.SPKID, p.Base, p.IK, in)
			case 7: // prekeys that do not exist
				p, _ := ref.ParsePKWM(raw)
				genuine, changed = false, "unknown prekey"
				if c.Chance("spk", 1, 2) {
					raw = pkwm(p.RegID, p.HasPreKey, p.PreKeyID, p.SPKID%0xffffff+1, p.Base, p.IK, p.Msg.Raw)
				} else {
					raw = pkwm(p.RegID, true, 0x123456, p.SPKID, p.Base, p.IK, p.Msg.Raw)
				}
			}
			want := bob.st.ids[alice.name]
			trusted := want == nil || bytes.Equal(want, claimed[:])
			before := bob.st.snapshot()
			var got []byte
			var derr error
			c.NoPanic("initial message", func() { got, derr = s.decryptRaw(1, 3, raw) })
			c.Step("known=%d byAttacker=%v pre=%v changed=%s trusted=%v err=%v", known, byAttacker, b.HasOPK, changed, trusted, derr)
			c.Sig(known, byAttacker, b.HasOPK, changed, len(pt))
			if !genuine || known == 2 || byAttacker {
				c.NonTrivial()
			}
			if !genuine || !trusted {
				c.Class("must be refused")
				if derr == nil {
					c.Bad("accepted an initial message with changed %s (trusted=%v)", changed, trusted)
				}
				if bob.st.snapshot() != before {
					c.Bad("a refused initial message (changed %s, trusted=%v) changed what is stored", changed, trusted)
				}
				return
			}
			c.Class("must be accepted")
			if derr != nil || !bytes.Equal(got, pt) {
				c.Bad("a genuine initial message was not accepted: %v", derr)
			}
			if !bytes.Equal(bob.st.ids[alice.name], claimed[:]) {
				c.Bad("the identity key of the sender was not remembered")
			}
		})
}

func pkwm(reg uint32, hasPre bool, pre, spk uint32, base, ik [32]byte, msg []byte) []byte {
	fs := []ref.Field{ref.V(5, uint64(reg))}
	if hasPre {
		fs = append(fs, ref.V(1, uint64(pre)))
	}
	fs = append(fs, ref.V(6, uint64(spk)), ref.B(2, append([]byte{5}, base[:]...)), ref.B(3, append([]byte{5}, ik[:]...)), ref.B(4, msg))
	return append([]byte{0x33}, ref.Enc(fs...)...)
}
