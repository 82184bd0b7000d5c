//go:build go1.22

package axo

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

type crash struct{}

type initiator struct {
	name    string
	kp      ref.KeyPair
	rs      *ref.Session
	pre     uint32 // 0: none
	msgs    [][]byte
	pts     [][]byte
	done    []bool
	session bool // at least one message delivered
	dead    bool // its prekey was used up by another initiator
}

func TestC07PreKeys(t *testing.T) {
	kit.Check(t, "several initiators with own, shared, last-resort or no one-time prekeys, their initial messages delivered in any order, repeatedly, with failing or crashing stores; "+
		"non-trivial: at least three initiators, one fault or contended prekey, and at least three deliveries",
		func(c *kit.Case) {
			c.SeedRand()
			bob := newParty(c, "bob", 1)
			const last = 0xFFFFFF
			lastKP := bob.putPreKey(last)
			zero := c.Chance("decoyZero", 1, 2)
			if zero {
				bob.putPreKey(0)
			}
			n := c.Int("initiators", 1, 5)
			var ins []*initiator
			keys := map[uint32]ref.KeyPair{last: lastKP}
			switch c.Int("idclass", 0, 3) {
			case 0: // up to just below the last resort key's
				bob.nextPre = last - 1 - uint32(c.Int("below", 0, 5))
			case 1:
				bob.nextPre = max(1<<c.Int("power", 0, 23)-uint32(c.Int("below", 0, 5)), 1)
				if bob.nextPre > last {
					bob.nextPre = 1
				}
			default:
				bob.nextPre = uint32(c.Int("firstid", 1, 0xfffff0))
			}
			contended := 0
			onePeer := c.Chance("onePeer", 1, 4)
			for i := 0; i < n; i++ {
				in := &initiator{name: fmt.Sprintf("peer%d", i), kp: ref.NewKeyPair()}
				if i > 0 && (onePeer || c.Chance("samePeer", 1, 4)) {
					// a peer we know starts another session
					in.name, in.kp = ins[0].name, ins[0].kp
					c.Class("a peer starting again")
				}
				b := ref.Bundle{RegID: bob.st.reg, IK: bob.kp.Pub, SPKID: bob.spkID, SPK: bob.spk.Pub, Sig: bob.sig}
				switch k := c.Int("kind", 0, 6); {
				case k <= 2:
					id, kp := bob.newPreKey()
					keys[id] = kp
					in.pre = id
				case k == 3:
					in.pre = last
				case k == 4:
					in.pre = 0
				default: // the prekey of an earlier initiator
					for _, o := range ins {
						if o.pre != 0 && o.pre != last {
							in.pre = o.pre
						}
					}
					if in.pre == 0 {
						id, kp := bob.newPreKey()
						keys[id] = kp
						in.pre = id
					} else {
						contended++
					}
				}
				if in.pre != 0 {
					b.HasOPK, b.OPKID, b.OPK = true, in.pre, keys[in.pre].Pub
				}
				rs, err := ref.Initiate(in.kp, uint32(i+1), b)
				if err != nil {
					c.Broken("%v", err)
				}
				in.rs = rs
				ins = append(ins, in)
				in.more(c.Int("first", 1, 3))
			}
			// spare prekeys nobody used
			spare := map[uint32]bool{}
			for k := c.Int("spare", 0, 3); k > 0; k-- {
				id, _ := bob.newPreKey()
				spare[id] = true
			}
			usedBy := map[uint32]*initiator{}
			cipher := func(in *initiator) *axolotl.SessionCipher {
				return axolotl.NewSessionCipher(bob.st, bob.st, bob.st, bob.st, in.name, 1)
			}
			check := func(what string) {
				for id := range keys {
					want := id == last || usedBy[id] == nil
					if got := bob.st.ContainsPreKey(id); got != want {
						c.Bad("%s: prekey %d present=%v, expected %v", what, id, got, want)
					}
				}
				for id := range spare {
					if !bob.st.ContainsPreKey(id) {
						c.Bad("%s: unused prekey %d is gone", what, id)
					}
				}
				if zero && !bob.st.ContainsPreKey(0) {
					c.Bad("%s: prekey 0 was removed, no message names it", what)
				}
				if !bob.st.ContainsSignedPreKey(bob.spkID) {
					c.Bad("%s: the signed prekey is gone", what)
				}
			}
			faults, deliveries := 0, 0
			steps := c.Int("steps", 2, 25)
			for k := 0; k < steps; k++ {
				in := ins[c.Int("who", 0, len(ins)-1)]
				if c.Chance("more", 1, 5) {
					in.more(1)
				}
				j := c.Int("msg", 0, len(in.msgs)-1)
				mode := c.Int("fault", 0, 5) // 4: error, 5: crash
				at := 0
				ops := 0
				if mode >= 4 {
					at = c.Int("at", 1, 9)
				}
				fired := ""
				bob.st.fail = func(op string) bool {
					ops++
					if mode >= 4 && ops == at {
						fired = op
						if mode == 5 {
							panic(crash{})
						}
						return true
					}
					return false
				}
				var pt []byte
				var err error
				crashed := false
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(crash); !ok {
								panic(r)
							}
							crashed = true
						}
					}()
					pt, err = decryptAs(cipher(in), 3, in.msgs[j])
				}()
				bob.st.fail = nil
				dead := in.pre != 0 && in.pre != last && usedBy[in.pre] != nil && usedBy[in.pre] != in
				c.Step("%s msg %d (prekey %d) fault=%q crash=%v dead=%v: err=%v", in.name, j, in.pre, fired, crashed, dead, err)
				if fired != "" {
					faults++
				}
				switch {
				case crashed:
					// start again from what is stored: later messages of the initiator must get through
					bob.st.mu.TryLock()
					bob.st.mu.Unlock()
					if dead {
						break
					}
					in.more(1)
					m := len(in.msgs) - 1
					pt, err := decryptAs(cipher(in), 3, in.msgs[m])
					if err != nil || !bytes.Equal(pt, in.pts[m]) {
						c.Bad("after a crash at %s the next message of the initiator is lost: %v", fired, err)
					}
					in.done[m] = true
					in.session = true
					// whether message j counts as delivered is open
					if _, err := decryptAs(cipher(in), 3, in.msgs[j]); err == nil && in.done[j] {
						c.Bad("a message was delivered again after a crash")
					}
					in.done[j] = true
					if in.pre != 0 && in.pre != last {
						if bob.st.ContainsPreKey(in.pre) {
							// the crash hit between storing the session and removing the prekey
							c.Class("prekey left over by a crash")
							bob.st.RemovePreKey(in.pre)
						}
						usedBy[in.pre] = in
					}
				case err != nil:
					if fired == "" || fired == "RemovePreKey" {
						if !dead && !in.done[j] {
							c.Bad("a genuine initial message was refused: %v", err)
						}
					}
				default:
					if dead {
						c.Bad("a prekey that was used up was used again by %s", in.name)
					}
					if in.done[j] {
						c.Bad("a message was delivered twice")
					}
					if !bytes.Equal(pt, in.pts[j]) {
						c.Bad("wrong plaintext")
					}
					in.done[j] = true
					in.session = true
					deliveries++
					if in.pre != 0 && in.pre != last {
						if fired == "RemovePreKey" {
							// the store dropped the removal
							bob.st.RemovePreKey(in.pre)
						}
						usedBy[in.pre] = in
					}
				}
				check(fmt.Sprintf("after step %d", k))
			}
			// everything undelivered gets through now
			for _, in := range ins {
				if in.pre != 0 && in.pre != last && usedBy[in.pre] != nil && usedBy[in.pre] != in {
					continue
				}
				for j := range in.msgs {
					if in.done[j] {
						continue
					}
					pt, err := decryptAs(cipher(in), 3, in.msgs[j])
					if err != nil || !bytes.Equal(pt, in.pts[j]) {
						c.Bad("message %d of %s cannot be delivered at the end: %v", j, in.name, err)
					}
					in.done[j] = true
					if in.pre != 0 && in.pre != last {
						usedBy[in.pre] = in
					}
				}
				check("at the end")
			}
			if n >= 3 && faults+contended > 0 && deliveries >= 3 {
				c.NonTrivial()
			}
		})
}

func (in *initiator) more(n int) {
	for ; n > 0; n-- {
		pt := []byte(fmt.Sprintf("%s %d", in.name, len(in.msgs)))
		raw, initial := in.rs.Encrypt(pt)
		if !initial {
			panic("not initial")
		}
		in.msgs = append(in.msgs, raw)
		in.pts = append(in.pts, pt)
		in.done = append(in.done, false)
	}
}
