//go:build go1.22

package profiles

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	mathrand "math/rand"
	"testing"

	"github.com/signal-golang/textsecure/unidentifiedAccess"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

func gcm27(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

var nonces27 = map[string]bool{}

func TestC27Ciphers(t *testing.T) {
	kit.Check(t, "a text or picture was restored from its encrypted form, or a wrong key or alteration was refused", func(c *kit.Case) {
		key := kit.Fill(c.T, 32)
		orig := append([]byte{}, key...)
		other := append([]byte{}, key...)
		other[c.Int("byte", 0, 31)] ^= 1 << c.Int("bit", 0, 7)
		padded := kit.Pick(c.T, "padded", []int{53, 53, 53, 128, 257, 32, 512})
		name := kit.Fill(c.T, c.Int("len", 0, padded+3))
		for len(name) > 0 && name[len(name)-1] == 0 {
			name[len(name)-1] = 'x' // zeros at the end are the padding
		}
		// the caller's name is the start of a longer buffer
		whole := append(append(make([]byte, 0, len(name)+padded+8), name...), bytes.Repeat([]byte{0xa7}, padded)...)
		arg := whole[:len(name)]
		reseed := c.Chance("same start of the program", 1, 2)
		var ct []byte
		var err error
		if reseed {
			mathrand.Seed(1)
		}
		c.NoPanic("encryptName", func() { ct, err = encryptName(key, arg, padded) })
		c.Step("%d bytes padded to %d: %v", len(name), padded, err)
		if !bytes.Equal(key, orig) || !bytes.Equal(whole, append(append([]byte{}, name...), bytes.Repeat([]byte{0xa7}, padded)...)) {
			c.Bad("encrypting changes the caller's data")
		}
		if len(name) > padded {
			if err == nil {
				c.Bad("%d bytes are encrypted with a padded size of %d", len(name), padded)
			}
			return
		}
		if err != nil {
			c.Bad("encrypting %d bytes with a padded size of %d fails: %v", len(name), padded, err)
		}
		if len(ct) != 12+padded+16 {
			c.Bad("%d bytes with a padded size of %d are %d bytes encrypted", len(name), padded, len(ct))
		}
		if nonces27[string(ct[:12])] {
			c.Bad("the nonce %x is used a second time", ct[:12])
		}
		nonces27[string(ct[:12])] = true
		pt, e := gcm27(orig).Open(nil, ct[:12], ct[12:], nil)
		if e != nil || !bytes.Equal(pt[:len(name)], name) || len(bytes.Trim(pt[len(name):], "\x00")) != 0 {
			c.Bad("a holder of the key gets %q, %v of %q", pt, e, name)
		}
		// and the way back, of this and of what another client made
		if c.Chance("other client", 1, 2) {
			n := kit.Fill(c.T, 12)
			ct = gcm27(orig).Seal(n, n, append(append([]byte{}, name...), make([]byte, padded-len(name))...), nil)
		}
		in := append([]byte{}, ct...)
		var got []byte
		c.NoPanic("decryptName", func() { got, err = decryptName(key, in) })
		if err != nil || !bytes.Equal(got, name) {
			c.Bad("%q becomes %q, %v", name, got, err)
		}
		if !bytes.Equal(in, ct) || !bytes.Equal(key, orig) {
			c.Bad("decrypting changes the caller's data")
		}
		c.NonTrivial()
		bad := kit.Mutator(c.T)(ct)
		c.NoPanic("decryptName", func() { got, err = decryptName(key, bad) })
		if err == nil {
			c.Bad("an altered text is accepted as %q", got)
		}
		c.NoPanic("decryptName", func() { got, err = decryptName(other, in) })
		if err == nil {
			c.Bad("another key decrypts the text to %q", got)
		}
		short := orig[:c.Int("key length", 0, 31)]
		c.NoPanic("decryptName", func() { got, err = decryptName(short, in) })
		if err == nil {
			c.Bad("a part of the key decrypts the text to %q", got)
		}
		// a picture
		pic := kit.Big(400).Draw(c.T, "picture")
		n := kit.Fill(c.T, 12)
		av := gcm27(orig).Seal(append([]byte{}, n...), n, pic, nil)
		in = append([]byte{}, av...)
		c.NoPanic("decryptAvatar", func() { got, err = decryptAvatar(in, key) })
		if err != nil || !bytes.Equal(got, pic) {
			c.Bad("a picture of %d bytes becomes %d bytes, %v", len(pic), len(got), err)
		}
		if !bytes.Equal(in, av) || !bytes.Equal(key, orig) {
			c.Bad("decrypting a picture changes the caller's data")
		}
		bad = kit.Mutator(c.T)(av)
		c.NoPanic("decryptAvatar of altered data", func() { got, err = decryptAvatar(bad, key) })
		if err == nil {
			c.Bad("an altered picture is accepted")
		}
		for _, k := range [][]byte{other, short} {
			c.NoPanic("decryptAvatar with another key", func() { got, err = decryptAvatar(in, k) })
			if err == nil {
				c.Bad("another key decrypts the picture")
			}
		}
		// the key others use to reach us without telling who they are
		access, err := unidentifiedAccess.DeriveAccessKeyFrom(key)
		if want := gcm27(orig).Seal(nil, make([]byte, 12), make([]byte, 16), nil)[:16]; err != nil || !bytes.Equal(access, want) {
			c.Bad("the access key is %x, %v instead of %x", access, err, want)
		}
		// a new key does not depend on how the program started
		if reseed {
			mathrand.Seed(1)
		}
		k := GenerateProfileKey()
		if len(k) != 32 || nonces27[string(k)] {
			c.Bad("the profile key %x is made a second time", k)
		}
		nonces27[string(k)] = true
	})
}
