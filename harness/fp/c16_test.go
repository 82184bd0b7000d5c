//go:build go1.22

package fp

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/fingerprint"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// side is one party: an identifier and an identity key.
type side struct {
	id  string
	key []byte // 33 bytes
}

func (s side) equal(o side) bool { return s.id == o.id && bytes.Equal(s.key, o.key) }

// half is the independent computation of one party's half.
func half(s side, keys []byte) []byte {
	h := append(append([]byte{0, 0}, keys...), s.id...)
	for i := 0; i < 5200; i++ {
		d := sha512.Sum512(append(append([]byte{}, h...), keys...))
		h = d[:]
	}
	return h
}

func digits(h []byte) string {
	out := ""
	for i := 0; i < 30; i += 5 {
		var v uint64
		for _, b := range h[i : i+5] {
			v = v<<8 | uint64(b)
		}
		out += fmt.Sprintf("%05d", v%100000)
	}
	return out
}

func number(a, b string) string {
	if a <= b {
		return a + b
	}
	return b + a
}

func drawSide(c *kit.Case, name string) side {
	k := make([]byte, 33)
	copy(k[1:], kit.Fill(c.T, 32))
	k[0] = 5
	id := kit.Pick(c.T, name, []string{"+14152222222", "+14153333333", "+1415222222", "", "11111111-aaaa-4bbb-8ccc-000000000001", "ünïcode", "\xff\x00"})
	return side{id, k}
}

func change(c *kit.Case, s side) (side, string) {
	o := side{s.id, append([]byte{}, s.key...)}
	switch c.Int("what", 0, 3) {
	case 0:
		b := c.Int("bit", 8, 33*8-1)
		o.key[b/8] ^= 1 << (b % 8)
		return o, fmt.Sprintf("key bit %d", b)
	case 1:
		o.id += kit.Pick(c.T, "suffix", []string{"0", " ", "\x00"})
		return o, "longer identifier"
	case 2:
		if len(o.id) > 0 {
			o.id = o.id[:len(o.id)-1]
			return o, "shorter identifier"
		}
		o.id = "x"
		return o, "identifier instead of none"
	}
	n := ref.NewKeyPair()
	copy(o.key[1:], n.Pub[:])
	return o, "another key"
}

type result struct {
	num string
	qr  []byte
}

func compute(c *kit.Case, local, remote side) result {
	var r result
	c.NoPanic("computing a safety number", func() {
		lk, rk := append([]byte{}, local.key...), append([]byte{}, remote.key...)
		n, qr, err := fingerprint.CreateFingerprintSimple(1, local.id, lk, remote.id, rk)
		if err != nil {
			c.Bad("no safety number: %v", err)
		}
		if !bytes.Equal(lk, local.key) || !bytes.Equal(rk, remote.key) {
			c.Bad("the caller's keys were changed")
		}
		if len(n) != 12 {
			c.Bad("%d groups", len(n))
		}
		for _, g := range n {
			if len(g) != 5 || strings.Trim(g, "0123456789") != "" {
				c.Bad("group %q", g)
			}
		}
		r = result{strings.Join(n, ""), qr}
	})
	return r
}

// matches is what an application does with a scanned code: the scanned local
// half is our remote half and the other way round.
func matches(c *kit.Case, ours, scanned []byte) bool {
	var res bool
	c.NoPanic("scanning a code", func() {
		o, err := fingerprint.ScanQRFingerprint(ours)
		if err != nil {
			c.Bad("own code: %v", err)
		}
		s, err := fingerprint.ScanQRFingerprint(scanned)
		if err != nil {
			return
		}
		res = o.GetVersion() == s.GetVersion() &&
			bytes.Equal(o.LocalFingerprint.Content, s.RemoteFingerprint.Content) && bytes.Equal(o.RemoteFingerprint.Content, s.LocalFingerprint.Content)
	})
	return res
}

func TestC16SafetyNumber(t *testing.T) {
	kit.Check(t, "one party's view differed from the other's, or the parties are alike", func(c *kit.Case) {
		a, b := drawSide(c, "alice"), drawSide(c, "bob")
		alike := false
		switch c.Int("relation", 0, 4) {
		case 0:
			b = side{a.id, append([]byte{}, a.key...)}
			alike = true
		case 1:
			b.key = append([]byte{}, a.key...)
			alike = true
		case 2:
			b.id = a.id
			alike = true
		}
		ra, rb := compute(c, a, b), compute(c, b, a)
		c.Step("%q %x / %q %x", a.id, a.key[1:4], b.id, b.key[1:4])
		if ra.num != rb.num {
			c.Bad("the parties see different safety numbers: %s and %s", ra.num, rb.num)
		}
		want := number(digits(half(a, a.key)), digits(half(b, b.key)))
		if ra.num != want {
			c.Bad("safety number %s, independently computed %s", ra.num, want)
		}
		if !matches(c, ra.qr, rb.qr) || !matches(c, rb.qr, ra.qr) {
			c.Bad("the codes of the two parties do not match")
		}
		if alike {
			c.NonTrivial()
			c.Class("parties alike")
		}
		// Bob's view of one of the two is another one
		if c.Chance("changed view", 3, 4) {
			c.NonTrivial()
			var x result
			var d string
			if c.Chance("of own", 1, 2) {
				o, dd := change(c, b)
				d = "own " + dd
				x = compute(c, o, a)
			} else {
				o, dd := change(c, a)
				d = "remote " + dd
				x = compute(c, b, o)
			}
			c.Step("changed: %s", d)
			if x.num == ra.num {
				c.Bad("same safety number with %s", d)
			}
			if matches(c, ra.qr, x.qr) {
				c.Bad("the codes match with %s", d)
			}
		}
		// the same code instead of the other party's: roles
		if !a.equal(b) && matches(c, ra.qr, ra.qr) {
			c.Bad("a code matches itself although the parties differ")
		}
		// what is no key, or another type of key, gets no safety number
		if c.Chance("malformed key", 1, 4) {
			bad := append([]byte{}, b.key...)
			switch c.Int("how", 0, 3) {
			case 0:
				bad = bad[1:]
			case 1:
				bad[0] ^= 1 << c.Int("type", 0, 7)
			case 2:
				bad = bad[:c.Int("length", 0, 32)]
			default:
				bad = append(bad, kit.Fill(c.T, c.Int("more", 1, 40))...)
			}
			for _, local := range []bool{false, true} {
				var err error
				c.NoPanic("computing a safety number for a malformed key", func() {
					if local {
						_, _, err = fingerprint.CreateFingerprintSimple(1, b.id, bad, a.id, a.key)
					} else {
						_, _, err = fingerprint.CreateFingerprintSimple(1, a.id, a.key, b.id, bad)
					}
				})
				if err == nil {
					c.Bad("a safety number for the malformed key %x (local %v)", bad, local)
				}
			}
			c.Class("malformed key")
		}
		// several identity keys, in any order
		if c.Chance("several keys", 1, 4) {
			c.NonTrivial()
			c.Class("several keys")
			n := c.Int("nkeys", 2, 4)
			var ks []axolotl.ECPublicKey
			for i := 0; i < n; i++ {
				kp := ref.NewKeyPair()
				ks = append(ks, *axolotl.NewECPublicKey(kp.Pub[:]))
			}
			perm := make([]axolotl.ECPublicKey, n)
			off := c.Int("rotate", 1, n-1)
			for i := range ks {
				perm[(i+off)%n] = ks[i]
			}
			bk := []axolotl.ECPublicKey{*axolotl.NewECPublicKey(b.key[1:])}
			n1, q1, err1 := fingerprint.CreateFingerprint(1, []byte(a.id), append([]axolotl.ECPublicKey{}, ks...), []byte(b.id), bk)
			n2, q2, err2 := fingerprint.CreateFingerprint(1, []byte(b.id), bk, []byte(a.id), perm)
			if err1 != nil || err2 != nil {
				c.Bad("%v %v", err1, err2)
			}
			if strings.Join(n1, "") != strings.Join(n2, "") || !matches(c, q1, q2) {
				c.Bad("the order of one party's keys changes the result")
			}
		}
	})
}

func TestC16Codes(t *testing.T) {
	kp1, kp2 := ref.NewKeyPair(), ref.NewKeyPair()
	a, b := side{"+14152222222", append([]byte{5}, kp1.Pub[:]...)}, side{"+14153333333", append([]byte{5}, kp2.Pub[:]...)}
	_, qa, err := fingerprint.CreateFingerprintSimple(1, a.id, a.key, b.id, b.key)
	_, qb, err2 := fingerprint.CreateFingerprintSimple(1, b.id, b.key, a.id, a.key)
	if err != nil || err2 != nil {
		t.Fatal("VERIF-VIOLATION: no code")
	}
	lh, rh := half(b, b.key)[:32], half(a, a.key)[:32]
	kit.Check(t, "the code is malformed or altered", func(c *kit.Case) {
		var q []byte
		wantErr := false
		switch c.Int("kind", 0, 4) {
		case 0:
			var d string
			q, d = kit.Mutate(c.T, qb)
			c.Step("genuine code with %s", d)
			if bytes.Equal(q, qb) {
				return
			}
		case 1:
			q = kit.Bytes(120).Draw(c.T, "bytes")
			c.Step("bytes %x", q)
		default:
			// a message built field by field
			var fs []ref.Field
			ok := true
			part := func(num int, h []byte) {
				switch c.Int("part", 0, 6) {
				case 0:
					ok = false
				case 1:
					fs = append(fs, ref.B(num, nil))
					ok = false
				case 2:
					n := kit.Pick(c.T, "n", []int{0, 1, 31, 33, 64})
					fs = append(fs, ref.B(num, ref.Enc(ref.B(1, append(append([]byte{}, h...), h...)[:n]))))
					ok = false
				default:
					fs = append(fs, ref.B(num, ref.Enc(ref.B(1, h))))
				}
			}
			if c.Chance("version", 4, 5) {
				fs = append(fs, ref.V(1, 1))
			} else {
				ok = false
			}
			part(2, lh)
			part(3, rh)
			q = ref.Enc(fs...)
			wantErr = !ok
			c.Step("code built from parts, complete %v: %x", ok, q)
			if ok && !matches(c, qa, q) {
				c.Bad("a complete code built from the same values does not match")
			}
		}
		c.NonTrivial()
		c.NoPanic("scanning", func() {
			s, err := fingerprint.ScanQRFingerprint(q)
			if wantErr && err == nil {
				c.Bad("a malformed code gives no error: %x", q)
			}
			if err != nil {
				c.Class("error")
				return
			}
			if s == nil || s.LocalFingerprint == nil || s.RemoteFingerprint == nil || s.Version == nil {
				c.Bad("an incomplete code gives no error: %x", q)
			}
			c.Class("accepted")
			same := s.GetVersion() == 1 && bytes.Equal(s.LocalFingerprint.Content, lh) && bytes.Equal(s.RemoteFingerprint.Content, rh)
			if matches(c, qa, q) != same {
				c.Bad("an altered code matches: %x", q)
			}
		})
		// malformed keys
		c.NoPanic("malformed keys", func() {
			n := kit.Pick(c.T, "keylen", []int{0, 1, 2, 32, 34, 65})
			k := make([]byte, n)
			if _, _, err := fingerprint.CreateFingerprintSimple(1, "a", k, "b", b.key); err == nil {
				c.Bad("a key of %d bytes gives no error", n)
			}
		})
	})
}

// twins are pairs of different parties whose halves begin with the same group
// (found among some hundred parties: a group has five digits).
func twins(t *testing.T, n int) [][2]side {
	seen := map[string]side{}
	var out [][2]side
	for i := 0; i < n; i++ {
		var k [33]byte
		h := sha512.Sum512([]byte(fmt.Sprintf("twin %d", i)))
		copy(k[1:], h[:32])
		k[0] = 5
		s := side{fmt.Sprintf("+49%d", 15100000000+i), k[:]}
		g := digits(half(s, s.key))
		if o, ok := seen[g[:5]]; ok {
			out = append(out, [2]side{o, s})
		}
		seen[g[:5]] = s
	}
	return out
}

func TestC16Alike(t *testing.T) {
	pairs := twins(t, 1100)
	if len(pairs) == 0 {
		t.Fatal("VERIF-BROKEN: no two parties with the same first group")
	}
	kit.Check(t, "the two halves begin with the same digits", func(c *kit.Case) {
		if c.Chance("parties", 1, 8) {
			p := pairs[c.Int("pair", 0, len(pairs)-1)]
			ra, rb := compute(c, p[0], p[1]), compute(c, p[1], p[0])
			c.Step("%q and %q: %s", p[0].id, p[1].id, ra.num)
			want := number(digits(half(p[0], p[0].key)), digits(half(p[1], p[1].key)))
			if ra.num != rb.num || ra.num != want {
				c.Bad("two parties whose halves begin alike see %s and %s, independently computed %s", ra.num, rb.num, want)
			}
			c.NonTrivial()
			c.Class("two parties")
			return
		}
		// halves that share their first groups, in other bytes
		a, b := kit.Fill(c.T, 64), kit.Fill(c.T, 64)
		n := c.Int("shared groups", 0, 6)
		put := func(at []byte, v uint64) {
			for i := 4; i >= 0; i-- {
				at[i] = byte(v)
				v >>= 8
			}
		}
		for i := 0; i < 6; i++ {
			d := uint64(c.Int("digits", 0, 99999))
			if c.Chance("edge", 1, 6) {
				d = kit.Pick(c.T, "d", []uint64{0, 1, 9, 99999, 10000})
			}
			e := d
			if i >= n {
				e = uint64(c.Int("other digits", 0, 99999))
			}
			put(a[5*i:], d+100000*uint64(c.Int("wraps a", 0, 10995114)))
			put(b[5*i:], e+100000*uint64(c.Int("wraps b", 0, 10995114)))
		}
		ka, kb := append([]byte{}, a...), append([]byte{}, b...)
		x, y := strings.Join(fingerprint.CreateFingerprintNumbers(a, b), ""), strings.Join(fingerprint.CreateFingerprintNumbers(b, a), "")
		c.Step("%d shared groups: %s", n, x)
		if want := number(digits(ka), digits(kb)); x != y || x != want {
			c.Bad("halves that share %d groups: %s and %s, independently computed %s", n, x, y, want)
		}
		if !bytes.Equal(a, ka) || !bytes.Equal(b, kb) {
			c.Bad("the caller's halves were changed")
		}
		if n > 0 {
			c.NonTrivial()
		}
	})
}
