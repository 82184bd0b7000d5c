//go:build go1.22

package contactsDiscovery

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

func gcm29(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

func key29(c *kit.Case, name string) ref.KeyPair {
	var p [32]byte
	copy(p[:], kit.Fill(c.T, 32))
	copy(p[:8], kit.Fill(c.T, 8))
	p[9] = byte(len(name))
	return ref.FromPriv(p)
}

func TestC29Attestation(t *testing.T) {
	kit.Check(t, "keys were derived on both sides and compared, or an altered attestation was refused", func(c *kit.Case) {
		client, eph, stat := key29(c, "client"), key29(c, "ephemeral key"), key29(c, "static")
		var cp, other axolotl.ECKeyPair
		mk := func(k ref.KeyPair) axolotl.ECKeyPair {
			ik := axolotl.NewIdentityKeyPairFromKeys(k.Priv[:], k.Pub[:])
			return axolotl.ECKeyPair{PrivateKey: ik.PrivateKey, PublicKey: ik.PublicKey.ECPublicKey}
		}
		cp = mk(client)
		// the enclave's side
		ikm := append(ref.DH(eph.Priv, client.Pub), ref.DH(stat.Priv, client.Pub)...)
		salt := append(append(append([]byte{}, client.Pub[:]...), eph.Pub[:]...), stat.Pub[:]...)
		keys := ref.HKDF(ikm, salt, nil, 64)
		ephPub := append(make([]byte, 0, 100), eph.Pub[:]...)
		statPub := append(make([]byte, 0, 100), stat.Pub[:]...)
		var k *RemoteAttestationKeys
		var err error
		c.NoPanic("deriving keys", func() { k, err = remoteAttestationKeys(&cp, ephPub, statPub) })
		if err != nil {
			c.Bad("deriving keys fails: %v", err)
		}
		if !bytes.Equal(k.ClientKey, keys[:32]) || !bytes.Equal(k.ServerKey, keys[32:]) {
			c.Bad("client derives %x and %x, the enclave %x", k.ClientKey, k.ServerKey, keys)
		}
		if bytes.Equal(k.ClientKey, k.ServerKey) {
			c.Bad("the two directions share a key")
		}
		if !bytes.Equal(ephPub[:cap(ephPub)][32:64], make([]byte, 32)) || *cp.PublicKey.Key() != client.Pub || *cp.PrivateKey.Key() != client.Priv {
			c.Bad("deriving keys changes the caller's keys")
		}
		// someone else with all the public values
		other = mk(key29(c, "someone"))
		if o, err := remoteAttestationKeys(&other, ephPub, statPub); err == nil && (bytes.Equal(o.ClientKey, keys[:32]) || bytes.Equal(o.ServerKey, keys[32:])) {
			c.Bad("someone else derives the same keys")
		}
		if o, err := remoteAttestationKeys(&cp, statPub, ephPub); err == nil && bytes.Equal(o.ClientKey, keys[:32]) {
			c.Bad("the roles of the enclave's keys do not matter")
		}
		c.NonTrivial()
		// a response
		for n := c.Int("responses", 1, 4); n > 0; n-- {
			id := kit.Bytes(80).Draw(c.T, "request id")
			iv := kit.Fill(c.T, 12)
			sealed := gcm29(keys[32:]).Seal(nil, iv, id, nil)
			quote := make([]byte, 436+40)
			quote[0], quote[96] = 2, 5
			copy(quote[112:], enclave29)
			copy(quote[368:], stat.Pub[:])
			quote[432] = 40
			f := map[string][]byte{"ephemeral": eph.Pub[:], "static": stat.Pub[:], "iv": iv, "ciphertext": sealed[:len(id)], "tag": sealed[len(id):], "quote": quote}
			altered := ""
			switch c.Int("alteration", 0, 7) {
			case 0, 1, 2:
				field := kit.Pick(c.T, "field", []string{"ephemeral", "static", "iv", "ciphertext", "tag"})
				var d string
				f[field], d = kit.Mutate(c.T, f[field])
				altered = field + ": " + d
			case 3:
				field := kit.Pick(c.T, "field", []string{"ephemeral", "static", "iv", "tag"})
				f[field] = nil
				altered = "no " + field
			case 4: // sealed with the key of the other direction, or by someone else
				k := keys[:32]
				if c.Chance("someone", 1, 2) {
					k = kit.Fill(c.T, 32)
				}
				sealed = gcm29(k).Seal(nil, iv, id, nil)
				f["ciphertext"], f["tag"] = sealed[:len(id)], sealed[len(id):]
				altered = "request id under another key"
			case 5: // swapped
				f["ephemeral"], f["static"] = f["static"], f["ephemeral"]
				altered = "keys swapped"
			case 6:
				switch c.Int("quote", 0, 2) {
				case 0:
					quote[112+c.Int("i", 0, 31)] ^= 1
				case 1:
					quote[368+c.Int("i", 0, 31)] ^= 1
				case 2:
					f["quote"] = quote[:c.Int("cut", 0, 400)]
				}
				altered = "quote"
			}
			if altered != "" && bytes.Equal(append(append([]byte{}, f["ciphertext"]...), f["tag"]...), sealed) && altered[0] != 'q' &&
				bytes.Equal(f["iv"], iv) && bytes.Equal(f["ephemeral"], eph.Pub[:]) && bytes.Equal(f["static"], stat.Pub[:]) && altered != "request id under another key" {
				altered = ""
			}
			resp := &RemoteAttestationResponse{ServerEphemeralPublic: f["ephemeral"], ServerStaticPublic: f["static"], Quote: f["quote"], Iv: f["iv"], Signature: "c2ln"}
			ct := append(append(append([]byte{}, f["ciphertext"]...), bytes.Repeat([]byte{0xEE}, 40)...), 1)
			resp.Ciphertext, resp.Tag = ct[:len(f["ciphertext"])], append([]byte{}, f["tag"]...)
			var a *RemoteAttestation
			c.NoPanic("validating an attestation", func() { a, err = validateAndBuildRemoteAttestation(resp, "cookie", &cp, enclaveName29) })
			if !bytes.Equal(ct[len(f["ciphertext"]):], append(bytes.Repeat([]byte{0xEE}, 40), 1)) || !bytes.Equal(ct[:len(f["ciphertext"])], f["ciphertext"]) {
				c.Bad("validating an attestation changes the caller's data")
			}
			switch {
			case altered == "":
				if err != nil || !bytes.Equal(a.RequestId, id) || !bytes.Equal(a.Keys.ClientKey, keys[:32]) || !bytes.Equal(a.Keys.ServerKey, keys[32:]) {
					c.Bad("a genuine attestation is refused or gives other keys: %v", err)
				}
			case altered == "quote":
				if err == nil {
					if kit.Known("quote-not-verified") {
						c.Excluded("quote-not-verified")
						break
					}
					c.Bad("an attestation whose quote is of another enclave or key is accepted")
				}
			case err == nil:
				c.Bad("an altered attestation is accepted (%s)", altered)
			}
			c.Step("request id of %d bytes, altered: %q", len(id), altered)
		}
		c.NoPanic("an empty attestation", func() {
			if _, err := validateAndBuildRemoteAttestation(nil, "", &cp, enclaveName29); err == nil {
				c.Bad("an empty attestation is accepted")
			}
		})
	})
}

const enclaveName29 = "c98e00a4e3ff977a56afefe7362a27e4961e4f19e211febfbb19b897e6b80b15"

var enclave29 = []byte{0xc9, 0x8e, 0x00, 0xa4, 0xe3, 0xff, 0x97, 0x7a, 0x56, 0xaf, 0xef, 0xe7, 0x36, 0x2a, 0x27, 0xe4, 0x96, 0x1e, 0x4f, 0x19, 0xe2, 0x11, 0xfe, 0xbf, 0xbb, 0x19, 0xb8, 0x97, 0xe6, 0xb8, 0x0b, 0x15}
