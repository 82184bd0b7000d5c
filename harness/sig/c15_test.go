//go:build go1.22

package sig

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/curve25519sign"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

var order, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)

func key(c *kit.Case, name string) ref.KeyPair {
	var p [32]byte
	copy(p[:], kit.Fill(c.T, 32))
	p[c.Int(name, 0, 31)] ^= byte(c.Int(name+"x", 0, 255))
	return ref.FromPriv(p)
}

func verify(c *kit.Case, pub [32]byte, msg []byte, sig [64]byte) bool {
	s, m := sig, append([]byte{}, msg...)
	var ok bool
	c.NoPanic("Verify", func() { ok = curve25519sign.Verify(pub, m, &s) })
	if s != sig {
		c.Bad("Verify changed the signature")
	}
	if !bytes.Equal(m, msg) {
		c.Bad("Verify changed the message")
	}
	return ok
}

func TestC15Signatures(t *testing.T) {
	kit.Check(t, "a changed message, key or signature was tried next to the genuine one", func(c *kit.Case) {
		kp := key(c, "key")
		msg := kit.Big(300).Draw(c.T, "msg")
		var rnd [64]byte
		copy(rnd[:], kit.Fill(c.T, 64))
		priv := kp.Priv
		m2 := append(make([]byte, 0, len(msg)+64), msg...)
		var sig [64]byte
		c.NoPanic("Sign", func() { sig = *curve25519sign.Sign(&priv, m2, rnd) })
		if priv != kp.Priv || !bytes.Equal(m2, msg) {
			c.Bad("Sign changed its inputs")
		}
		c.Step("sign %d bytes", len(msg))
		for i := 0; i < 3; i++ {
			if !verify(c, kp.Pub, msg, sig) {
				c.Bad("a genuine signature does not verify (attempt %d): priv %x msg %x random %x", i+1, kp.Priv, msg, rnd)
			}
		}
		if !ref.Verify(kp.Pub, msg, sig) {
			c.Bad("a signature does not verify with the independent implementation: priv %x msg %x", kp.Priv, msg)
		}
		// the other direction
		rs := ref.Sign(kp.Priv, msg, rnd)
		if !verify(c, kp.Pub, msg, rs) {
			c.Bad("a signature of the independent implementation does not verify")
		}
		// Two signatures that share their first half give away the private key
		// unless everything signed is the same.
		if om, d := kit.Mutate(c.T, msg); !bytes.Equal(om, msg) {
			c.NoPanic("Sign", func() {
				if o := curve25519sign.Sign(&priv, om, rnd); bytes.Equal(o[:32], sig[:32]) {
					c.Bad("the signature of another message (%s) uses the same nonce", d)
				}
			})
		}
		{
			r2 := rnd
			r2[c.Int("rndbyte", 0, 63)] ^= 1 << c.Int("rndbit", 0, 7)
			c.NoPanic("Sign", func() {
				if o := curve25519sign.Sign(&priv, m2, r2); *o == sig {
					c.Bad("the signature does not depend on all of the random bytes")
				}
			})
			ok := key(c, "nonce key")
			if ok.Pub != kp.Pub {
				opriv := ok.Priv
				c.NoPanic("Sign", func() {
					if o := curve25519sign.Sign(&opriv, m2, rnd); bytes.Equal(o[:32], sig[:32]) {
						c.Bad("the signature of another key uses the same nonce")
					}
				})
			}
		}
		n := c.Int("changes", 1, 6)
		for i := 0; i < n; i++ {
			c.NonTrivial()
			switch c.Int("kind", 0, 6) {
			case 0:
				m, d := kit.Mutate(c.T, msg)
				c.Step("message with %s", d)
				if bytes.Equal(m, msg) {
					break
				}
				if verify(c, kp.Pub, m, sig) {
					c.Bad("the signature verifies for another message (%s)", d)
				}
			case 1, 2:
				s := sig
				bit := c.Int("bit", 0, 511)
				if c.Chance("last byte", 1, 4) {
					bit = 504 + c.Int("b", 0, 7)
				}
				s[bit/8] ^= 1 << (bit % 8)
				c.Step("signature bit %d", bit)
				if verify(c, kp.Pub, msg, s) {
					c.Bad("the signature verifies with bit %d changed", bit)
				}
			case 3:
				// the same scalar in another representation
				s := sig
				le := make([]byte, 32)
				for j := 0; j < 32; j++ {
					le[31-j] = s[32+j]
				}
				le[0] &= 0x7f
				x := new(big.Int).SetBytes(le)
				x.Add(x, new(big.Int).Mul(order, big.NewInt(int64(c.Int("multiple", 1, 7)))))
				if x.BitLen() > 255 {
					break
				}
				b := x.FillBytes(make([]byte, 32))
				for j := 0; j < 32; j++ {
					s[32+j] = b[31-j]
				}
				s[63] |= sig[63] & 0x80
				c.Step("signature with a multiple of the order added")
				c.Class("not reduced")
				if verify(c, kp.Pub, msg, s) {
					c.Bad("the signature verifies with changed bits (scalar not reduced)")
				}
			case 4:
				o := key(c, "other")
				if o.Pub == kp.Pub {
					break
				}
				c.Step("another key")
				if verify(c, o.Pub, msg, sig) {
					c.Bad("the signature verifies under another key")
				}
			case 5:
				p := kp.Pub
				bit := c.Int("kbit", 0, 254)
				p[bit/8] ^= 1 << (bit % 8)
				c.Step("key bit %d", bit)
				if verify(c, p, msg, sig) {
					c.Bad("the signature verifies with key bit %d changed", bit)
				}
			case 6:
				// arbitrary signature and key bytes
				var s [64]byte
				copy(s[:], kit.Fill(c.T, 64))
				p := kp.Pub
				if c.Chance("any key", 1, 2) {
					copy(p[:], kit.Fill(c.T, 32))
					p[31] &= 0x7f
				}
				if s == sig {
					break
				}
				c.Step("arbitrary signature")
				got := verify(c, p, msg, s)
				if p == kp.Pub && got {
					c.Bad("an arbitrary signature verifies: %x", s)
				}
			}
		}
		// the genuine signature still verifies after all that, also through the bundle check
		if !verify(c, kp.Pub, msg, sig) {
			c.Bad("the genuine signature does not verify any more")
		}
		spk := key(c, "spk")
		ser := append([]byte{5}, spk.Pub[:]...)
		bs := *curve25519sign.Sign(&priv, ser, rnd)
		given := append([]byte{}, bs[:]...)
		for i := 0; i < 2; i++ {
			_, err := axolotl.NewPreKeyBundle(1, 1, 0, nil, 5, axolotl.NewECPublicKey(spk.Pub[:]), given, axolotl.NewIdentityKey(kp.Pub[:]))
			if err != nil {
				c.Bad("a bundle with a genuine signature is refused (attempt %d): %v", i+1, err)
			}
			if !bytes.Equal(given, bs[:]) {
				c.Bad("checking a bundle changed the signature")
			}
		}
	})
}
