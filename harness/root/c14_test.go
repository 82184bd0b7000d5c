//go:build go1.22

package textsecure

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/json"
	"io"
	"net/http"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// firstBytes serves a given prefix of randomness, then the case's own.
type firstBytes struct {
	first []byte
	rest  io.Reader
	words [][]byte // then, what reads of their length are given
}

func (f *firstBytes) Read(p []byte) (int, error) {
	if len(f.first) == 0 && len(f.words) > 0 && len(f.words[0]) == len(p) {
		n := copy(p, f.words[0])
		f.words = f.words[1:]
		return n, nil
	}
	if len(f.first) > 0 {
		n := copy(p, f.first)
		f.first = f.first[n:]
		return n, nil
	}
	return f.rest.Read(p)
}

func unb64(s string) ([]byte, bool) {
	b, err := base64.RawStdEncoding.DecodeString(s)
	return b, err == nil
}

func TestC14KeySet(t *testing.T) {
	kit.Check(t, "the key set was generated with an id near the reserved ones, or over earlier prekeys", func(c *kit.Case) {
		c.SeedRand()
		defer kit.UnseedRand()
		w := newWorld(c, drawPassword(c.T))
		// earlier contents of the store (the world put a last resort key and a signed prekey there)
		earlier := c.Chance("earlier batch", 1, 4)
		var uploads [][]byte
		status := 200
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			if r.Method == "PUT" && r.URL.Path == "/v2/keys/" {
				uploads = append(uploads, body)
				rw.WriteHeader(status)
				return true
			}
			return false
		}
		first := uint32(c.Int("first", 0, 1<<32-1))
		special := true
		switch c.Int("class", 0, 4) {
		case 4: // a batch over a power of two
			first = 1<<c.Int("power", 7, 23) - uint32(c.Int("below", 0, 120))
		case 0:
			first = 0xFFFFFF - uint32(kit.Pick(c.T, "just below", []int{c.Int("below", 0, 220), c.Int("below", 98, 103)}))
		case 1:
			first = uint32(c.Int("low", 0, 3))
		case 2:
			first = uint32(c.Int("high", 0, 255))<<24 | (0xFFFFFF - uint32(c.Int("below", 0, 220)))
		default:
			special = false
		}
		if c.Chance("all zero", 1, 8) {
			first = 0
		}
		if earlier {
			if err := generatePreKeys(); err != nil {
				c.Bad("first generation: %v", err)
			}
			c.Step("earlier batch generated")
		}
		fb := []byte{byte(first >> 24), byte(first >> 16), byte(first >> 8), byte(first)}
		var words [][]byte
		if c.Chance("second", 1, 2) { // the id of the signed prekey
			for k := c.Int("words", 1, 2); k > 0; k-- {
				words = append(words, kit.Pick(c.T, "word", [][]byte{{0, 0, 0, 0}, {0, 255, 255, 255}, {255, 255, 255, 255}, {0, 255, 255, 254}, {1, 0, 0, 0}, {0, 0, 0, 1}}))
			}
		}
		rand.Reader = &firstBytes{fb, rand.Reader, words}
		c.Step("first random word %08x, earlier batch %v", first, earlier)
		if err := generatePreKeys(); err != nil {
			c.Bad("generating keys fails: %v", err)
		}
		if err := generatePreKeyState(); err != nil {
			c.Bad("collecting the keys fails: %v", err)
		}
		if c.Chance("server error", 1, 6) {
			status = kit.Refusal(c.T, "status", []int{400, 401, 403, 413, 422, 500, 503})
			if err := registerPreKeys(); err == nil {
				c.Bad("the server answered %d and no error is reported", status)
			}
			c.Class("server error")
			status = 200
			uploads = nil
		}
		if err := registerPreKeys(); err != nil {
			c.Bad("upload fails: %v", err)
		}
		if len(uploads) != 1 {
			c.Bad("%d uploads", len(uploads))
		}
		if special || earlier {
			c.NonTrivial()
		}
		var up struct {
			IdentityKey string
			PreKeys     []struct {
				KeyID     uint32
				PublicKey string
			}
			LastResortKey *struct {
				KeyID     uint32
				PublicKey string
			}
			SignedPreKey *struct {
				KeyID                uint32
				PublicKey, Signature string
			}
		}
		if err := json.Unmarshal(uploads[0], &up); err != nil {
			c.Bad("the upload is not JSON: %v", err)
		}
		if len(up.PreKeys) < 100 {
			c.Bad("%d one-time prekeys instead of a batch of 100", len(up.PreKeys))
		}
		key := func(s, what string) (k [32]byte) {
			b, ok := unb64(s)
			if !ok || len(b) != 33 || b[0] != 5 {
				c.Bad("%s: not a key: %q", what, s)
			}
			copy(k[:], b[1:])
			return
		}
		ik := key(up.IdentityKey, "identity key")
		if ik != w.kp.Pub {
			c.Bad("another identity key is uploaded")
		}
		if up.LastResortKey == nil || up.SignedPreKey == nil {
			c.Bad("the upload is incomplete: %s", uploads[0])
		}
		if up.LastResortKey.KeyID != 0xFFFFFF {
			c.Bad("last resort key under id %d", up.LastResortKey.KeyID)
		}
		ids := map[uint32]bool{}
		pubs := map[[32]byte]bool{}
		stored := func(id uint32, pub [32]byte, what string) ref.KeyPair {
			rec, err := textSecureStore.LoadPreKey(id)
			if err != nil {
				c.Bad("%s %d is not in the store: %v", what, id, err)
			}
			var priv [32]byte
			copy(priv[:], rec.Pkrs.PrivateKey)
			kp := ref.FromPriv(priv)
			if kp.Pub != pub || rec.Pkrs.GetId() != id || !bytes.Equal(rec.Pkrs.PublicKey, pub[:]) {
				c.Bad("%s %d: the store holds another key", what, id)
			}
			return kp
		}
		for _, pk := range up.PreKeys {
			if pk.KeyID == 0 || pk.KeyID >= 0xFFFFFF {
				c.Bad("one-time prekey under the reserved or unusable id %d", pk.KeyID)
			}
			if ids[pk.KeyID] {
				c.Bad("prekey id %d occurs twice", pk.KeyID)
			}
			ids[pk.KeyID] = true
			p := key(pk.PublicKey, "prekey")
			if pubs[p] {
				c.Bad("a prekey occurs twice")
			}
			pubs[p] = true
			stored(pk.KeyID, p, "prekey")
		}
		lr := key(up.LastResortKey.PublicKey, "last resort key")
		if pubs[lr] {
			c.Bad("the last resort key is also a one-time prekey")
		}
		stored(0xFFFFFF, lr, "last resort key")
		sp := key(up.SignedPreKey.PublicKey, "signed prekey")
		sb, ok := unb64(up.SignedPreKey.Signature)
		if !ok || len(sb) != 64 {
			c.Bad("signature: %q", up.SignedPreKey.Signature)
		}
		var sig [64]byte
		copy(sig[:], sb)
		if up.SignedPreKey.KeyID == 0 || up.SignedPreKey.KeyID > 0xFFFFFF {
			c.Bad("signed prekey under the reserved or unusable id %d", up.SignedPreKey.KeyID)
		}
		if !ref.Verify(ik, append([]byte{5}, sp[:]...), sig) {
			c.Bad("the signature of the signed prekey does not verify")
		}
		rec, err := textSecureStore.LoadSignedPreKey(up.SignedPreKey.KeyID)
		if err != nil {
			c.Bad("the signed prekey is not in the store: %v", err)
		}
		var spriv [32]byte
		copy(spriv[:], rec.Spkrs.PrivateKey)
		if ref.FromPriv(spriv).Pub != sp {
			c.Bad("the store holds another signed prekey")
		}
		// a peer uses some of them, over a reopened store
		openStoreAgain(w)
		use := []int{0, len(up.PreKeys) - 1, c.Int("use", 0, len(up.PreKeys)-1), -1, -2}
		used := map[int]bool{}
		for i, u := range use {
			if used[u] {
				continue
			}
			used[u] = true
			b := ref.Bundle{RegID: 4711, IK: ik, SPKID: up.SignedPreKey.KeyID, SPK: sp, Sig: sig, HasOPK: u != -2}
			if u >= 0 {
				b.OPKID, b.OPK = up.PreKeys[u].KeyID, key(up.PreKeys[u].PublicKey, "prekey")
			} else if u == -1 {
				b.OPKID, b.OPK = 0xFFFFFF, lr
			}
			peer := ref.NewKeyPair()
			s, err := ref.Initiate(peer, 9, b)
			if err != nil {
				c.Bad("a peer refuses the bundle: %v", err)
			}
			m, _ := s.Encrypt([]byte("hello"))
			pk, err := axolotl.LoadPreKeyWhisperMessage(m)
			if err != nil {
				c.Bad("%v", err)
			}
			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, "peer", uint32(i+1))
			textSecureStore.SaveIdentity("peer", ikey(peer.Pub))
			pt, err := sc.SessionDecryptPreKeyWhisperMessage(pk)
			if err != nil || string(pt) != "hello" {
				c.Bad("a peer that used prekey %d cannot start a session: %v", b.OPKID, err)
			}
		}
	})
}

func openStoreAgain(w *world) { openStore(w.c, w.password, w.dir) }
