//go:build go1.22

package textsecure

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/fingerprint"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// TestC16Accounts: what two accounts show for each other, from their
// configuration and the identities they keep.
func TestC16Accounts(t *testing.T) {
	kit.Check(t, "both accounts know each other's identity, and one of them may see another one", func(c *kit.Case) {
		c.SeedRand()
		type account struct {
			tel, uuid string
			kp        ref.KeyPair
			s         *store
			pw, dir   string
		}
		tel := func(who string) string {
			return kit.Pick(c.T, who, []string{"+31612345678", "+4912345", "+14152222222", "+1415222222", "31612345678", "0", "+0031612345678"})
		}
		var acc [2]*account
		for i := range acc {
			a := &account{tel: tel("tel"), uuid: kit.Pick(c.T, "uuid", uuids[:2]), kp: ref.NewKeyPair(), pw: drawPassword(c.T), dir: c.Scratch()}
			a.s = openStore(c, a.pw, a.dir)
			acc[i] = a
		}
		be := func(i int) {
			a := acc[i]
			config.ConfigFile = &config.Config{Tel: a.tel, UUID: a.uuid}
			identityKey = axolotl.NewIdentityKeyPairFromKeys(a.kp.Priv[:], a.kp.Pub[:])
			a.s = openStore(c, a.pw, a.dir)
			textSecureStore = a.s
		}
		defer func() { config.ConfigFile = &config.Config{} }()
		half := func(id string, pub [32]byte) string {
			k := append([]byte{5}, pub[:]...)
			h := append(append([]byte{0, 0}, k...), id...)
			for i := 0; i < 5200; i++ {
				d := sha512.Sum512(append(append([]byte{}, h...), k...))
				h = d[:]
			}
			out := ""
			for i := 0; i < 30; i += 5 {
				var v uint64
				for _, b := range h[i : i+5] {
					v = v<<8 | uint64(b)
				}
				out += fmt.Sprintf("%05d", v%100000)
			}
			return out
		}
		// what each keeps of the other
		wrong := -1
		if c.Chance("another key", 1, 3) {
			wrong = c.Int("who", 0, 1)
		}
		var seen [2][32]byte
		for i := range acc {
			be(i)
			if !bytes.Equal(MyIdentityKey(), append([]byte{5}, acc[i].kp.Pub[:]...)) {
				c.Bad("own identity key %x", MyIdentityKey())
			}
			o := acc[1-i]
			if _, _, err := GetFingerprint(o.uuid, o.tel); err == nil {
				c.Bad("a safety number for %s, whose identity is not known", o.uuid)
			}
			seen[i] = o.kp.Pub
			if i == wrong {
				seen[i][c.Int("byte", 0, 30)] ^= 1 << c.Int("bit", 0, 7)
			}
			if err := textSecureStore.SaveIdentity(o.uuid, axolotl.NewIdentityKey(seen[i][:])); err != nil {
				c.Bad("saving an identity: %v", err)
			}
		}
		var nums [2]string
		var codes [2][]byte
		for i, a := range acc {
			be(i)
			o := acc[1-i]
			n, qr, err := GetFingerprint(o.uuid, o.tel)
			if err != nil || len(n) != 12 {
				c.Bad("no safety number: %v", err)
			}
			nums[i], codes[i] = strings.Join(n, ""), qr
			x, y := half(a.tel, a.kp.Pub), half(o.tel, seen[i])
			if x > y {
				x, y = y, x
			}
			if nums[i] != x+y {
				c.Bad("the account %s shows %s for %s, independently computed %s", a.tel, nums[i], o.tel, x+y)
			}
		}
		c.Step("%s and %s, wrong identity %d", acc[0].tel, acc[1].tel, wrong)
		c.NonTrivial()
		p, err1 := fingerprint.ScanQRFingerprint(codes[0])
		q, err2 := fingerprint.ScanQRFingerprint(codes[1])
		if err1 != nil || err2 != nil {
			c.Bad("codes: %v, %v", err1, err2)
		}
		match := bytes.Equal(p.LocalFingerprint.Content, q.RemoteFingerprint.Content) && bytes.Equal(p.RemoteFingerprint.Content, q.LocalFingerprint.Content)
		if same := nums[0] == nums[1]; same != (wrong < 0) || match != (wrong < 0) {
			c.Bad("identities agree: %v, but the numbers are equal: %v and the codes match: %v", wrong < 0, same, match)
		}
	})
}
