//go:build go1.22

package textsecure

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

// storeModel is what the store should hold.
type storeModel struct {
	reg     uint32
	hasReg  bool
	ikp     *ref.KeyPair
	ids     map[string][32]byte
	pre     map[uint32]ref.KeyPair
	spre    map[uint32][]byte
	pass    *string
	sigKey  []byte
	sess    map[string][]byte // by name/dev
	secrets [][]byte
}

func newStoreModel() *storeModel {
	return &storeModel{ids: map[string][32]byte{}, pre: map[uint32]ref.KeyPair{}, spre: map[uint32][]byte{}, sess: map[string][]byte{}}
}

func devices(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{1, 2, 3, 11, 12, 0, 111, 0x7fffffff, 0xffffffff}).Draw(t, "dev")
}
func preID(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{0, 1, 2, 9, 10, 99, 100, 12345678, 0xfffffe, 0xffffff, 0x1000000, 123456789, 999999999, 1000000000, 0xffffffff}).Draw(t, "id")
}

// apply performs one drawn operation on the store and the model.
func (m *storeModel) apply(c *kit.Case, s *store) string {
	switch c.Int("op", 0, 13) {
	case 0:
		m.reg, m.hasReg = uint32(rapid.SampledFrom([]uint32{0, 1, 0x3fff, 16384, 0x7fffffff, 0xffffffff}).Draw(c.T, "reg")), true
		s.SetLocalRegistrationID(m.reg)
		return fmt.Sprintf("reg %d", m.reg)
	case 1:
		kp := ref.NewKeyPair()
		m.ikp = &kp
		if err := s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(kp.Priv[:], kp.Pub[:])); err != nil {
			c.Bad("SetIdentityKeyPair: %v", err)
		}
		m.secrets = append(m.secrets, kp.Priv[:])
		return "identity key pair"
	case 2, 3:
		id := kit.Pick(c.T, "name", uuids)
		kp := ref.NewKeyPair()
		m.ids[id] = kp.Pub
		if err := s.SaveIdentity(id, ikey(kp.Pub)); err != nil {
			c.Bad("SaveIdentity: %v", err)
		}
		return "identity of " + id
	case 4, 5:
		id := preID(c.T)
		kp := ref.NewKeyPair()
		m.pre[id] = kp
		if err := s.StorePreKey(id, axolotl.NewPreKeyRecord(id, axolotl.MakeECKeyPair(kp.Priv[:], kp.Pub[:]))); err != nil {
			c.Bad("StorePreKey: %v", err)
		}
		m.secrets = append(m.secrets, kp.Priv[:])
		return fmt.Sprintf("prekey %d", id)
	case 6:
		id := preID(c.T)
		delete(m.pre, id)
		s.RemovePreKey(id)
		return fmt.Sprintf("remove prekey %d", id)
	case 7:
		id := preID(c.T)
		kp := ref.NewKeyPair()
		r := axolotl.NewSignedPreKeyRecord(id, rapid.Uint64().Draw(c.T, "ts"), axolotl.MakeECKeyPair(kp.Priv[:], kp.Pub[:]), kit.Fill(c.T, 64))
		m.spre[id], _ = r.Serialize()
		if err := s.StoreSignedPreKey(id, r); err != nil {
			c.Bad("StoreSignedPreKey: %v", err)
		}
		m.secrets = append(m.secrets, kp.Priv[:])
		return fmt.Sprintf("signed prekey %d", id)
	case 8:
		id := preID(c.T)
		delete(m.spre, id)
		s.RemoveSignedPreKey(id)
		return fmt.Sprintf("remove signed prekey %d", id)
	case 9:
		p := kit.Pick(c.T, "httppass", []string{"", "x", "0123456789abcdef", "sixteen bytes!!!sixteen bytes!!!", "päss\x00wörd 0123456789"})
		m.pass = &p
		s.storeHTTPPassword(p)
		if len(p) > 8 {
			m.secrets = append(m.secrets, []byte(p))
		}
		return "http password " + p
	case 10:
		k := kit.Fill(c.T, kit.Pick(c.T, "siglen", []int{0, 1, 16, 32, 52, 64}))
		m.sigKey = append([]byte{}, k...)
		s.storeHTTPSignalingKey(k)
		if len(k) >= 32 && !allSame(k) {
			m.secrets = append(m.secrets, m.sigKey)
		}
		return fmt.Sprintf("signaling key of %d", len(k))
	case 11, 12:
		name, dev := kit.Pick(c.T, "name", uuids), devices(c.T)
		rec, blob := sessionRecord(c, kit.Pick(c.T, "record", []int{c.Int("seed", 1, 200), c.Int("seed", 1, 200), c.Int("long", 300, 900)}))
		m.sess[fmt.Sprintf("%s/%d", name, dev)] = blob
		if err := s.StoreSession(name, dev, rec); err != nil {
			c.Bad("StoreSession: %v", err)
		}
		return fmt.Sprintf("session %s/%d", name, dev)
	default:
		name, dev := kit.Pick(c.T, "name", uuids), devices(c.T)
		delete(m.sess, fmt.Sprintf("%s/%d", name, dev))
		s.DeleteSession(name, dev)
		return fmt.Sprintf("delete session %s/%d", name, dev)
	}
}

func allSame(b []byte) bool {
	for _, x := range b {
		if x != b[0] {
			return false
		}
	}
	return true
}

// verify compares everything readable with the model.
func (m *storeModel) verify(c *kit.Case, s *store, what string) {
	reg, err := s.GetLocalRegistrationID()
	if m.hasReg != (err == nil) || reg != m.reg {
		c.Bad("%s: registration id %d (%v), stored %d (%v)", what, reg, err, m.reg, m.hasReg)
	}
	ikp, err := s.GetIdentityKeyPair()
	if (m.ikp != nil) != (err == nil) {
		c.Bad("%s: identity key pair: %v", what, err)
	}
	if m.ikp != nil && (*ikp.PrivateKey.Key() != m.ikp.Priv || *ikp.PublicKey.Key() != m.ikp.Pub) {
		c.Bad("%s: the identity key pair differs", what)
	}
	for _, id := range uuids {
		k, known := m.ids[id]
		b, err := ContactIdentityKey(id)
		if known != (err == nil) || known && !bytes.Equal(b, append([]byte{5}, k[:]...)) {
			c.Bad("%s: identity key of %s is %x (%v), stored %x (%v)", what, id, b, err, k, known)
		}
	}
	for _, id := range []uint32{0, 1, 2, 9, 10, 99, 100, 12345678, 0xfffffe, 0xffffff, 0x1000000, 123456789, 999999999, 1000000000, 0xffffffff} {
		kp, known := m.pre[id]
		r, err := s.LoadPreKey(id)
		if s.ContainsPreKey(id) != known || known != (err == nil) {
			c.Bad("%s: prekey %d: contained %v, load error %v, stored %v", what, id, s.ContainsPreKey(id), err, known)
		}
		if known && (r.Pkrs.Id != id || !bytes.Equal(r.Pkrs.PrivateKey, kp.Priv[:]) || !bytes.Equal(r.Pkrs.PublicKey, kp.Pub[:])) {
			c.Bad("%s: prekey %d differs", what, id)
		}
		want, known := m.spre[id]
		sr, err := s.LoadSignedPreKey(id)
		if s.ContainsSignedPreKey(id) != known || known != (err == nil) {
			c.Bad("%s: signed prekey %d: contained %v, load error %v, stored %v", what, id, s.ContainsSignedPreKey(id), err, known)
		}
		if known {
			if b, _ := sr.Serialize(); !bytes.Equal(b, want) {
				c.Bad("%s: signed prekey %d differs", what, id)
			}
		}
	}
	p, err := s.loadHTTPPassword()
	if (m.pass != nil) != (err == nil) || m.pass != nil && p != *m.pass {
		c.Bad("%s: http password %q (%v)", what, p, err)
	}
	k, err := s.loadHTTPSignalingKey()
	if (m.sigKey != nil) != (err == nil) || !bytes.Equal(k, m.sigKey) {
		c.Bad("%s: signaling key %x (%v), stored %x", what, k, err, m.sigKey)
	}
	for _, name := range uuids {
		for _, dev := range []uint32{1, 2, 3, 11, 12, 0, 111, 0x7fffffff, 0xffffffff} {
			want, known := m.sess[fmt.Sprintf("%s/%d", name, dev)]
			if s.ContainsSession(name, dev) != known {
				c.Bad("%s: session %s/%d contained: %v, stored: %v", what, name, dev, !known, known)
			}
			rec, err := s.LoadSession(name, dev)
			if err != nil {
				c.Bad("%s: session %s/%d: %v", what, name, dev, err)
			}
			if rec.Fresh == known {
				c.Bad("%s: session %s/%d fresh=%v, stored: %v", what, name, dev, rec.Fresh, known)
			}
			if known {
				if b, _ := rec.Serialize(); !bytes.Equal(b, want) {
					c.Bad("%s: session %s/%d differs from what was stored", what, name, dev)
				}
			}
		}
	}
}

func TestC09Store(t *testing.T) {
	kit.Check(t, "sequences of writes, overwrites, removals and reopenings of a store, compared with a map after each reopening; "+
		"non-trivial: at least eight operations, one of them after a reopening",
		func(c *kit.Case) {
			c.SeedRand()
			dir := c.Scratch()
			pw := drawPassword(c.T)
			s := openStore(c, pw, dir)
			m := newStoreModel()
			n, reopened, after := c.Int("ops", 1, 30), 0, 0
			for k := 0; k < n; k++ {
				if c.Chance("reopen", 1, 8) {
					s = openStore(c, pw, dir)
					reopened++
					c.Step("reopen")
					continue
				}
				c.Step("%s", m.apply(c, s))
				if reopened > 0 {
					after++
				}
			}
			m.verify(c, s, "before closing")
			s = openStore(c, pw, dir)
			m.verify(c, s, "after reopening")
			if n >= 8 && after > 0 {
				c.NonTrivial()
			}
			if pw != "" {
				c.Class("with password")
				for _, f := range recordFiles(dir) {
					b, _ := os.ReadFile(f)
					for _, x := range m.secrets {
						if bytes.Contains(b, x) {
							c.Bad("a stored secret is in clear in %s", strings.TrimPrefix(f, dir))
						}
					}
				}
				for _, blob := range m.sess {
					for _, f := range recordFiles(filepath.Join(dir, "sessions")) {
						b, _ := os.ReadFile(f)
						if bytes.Contains(b, blob[10:42]) {
							c.Bad("session data is in clear in %s", strings.TrimPrefix(f, dir))
						}
					}
				}
			}
		})
}

// fullStore stores one record of each kind.
func fullStore(c *kit.Case, s *store) *storeModel {
	m := newStoreModel()
	m.reg, m.hasReg = uint32(c.Int("reg", 1, 0x3fff)), true
	s.SetLocalRegistrationID(m.reg)
	kp := ref.NewKeyPair()
	m.ikp = &kp
	s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(kp.Priv[:], kp.Pub[:]))
	r := ref.NewKeyPair()
	m.ids[uuids[0]] = r.Pub
	s.SaveIdentity(uuids[0], ikey(r.Pub))
	pk := ref.NewKeyPair()
	m.pre[1] = pk
	s.StorePreKey(1, axolotl.NewPreKeyRecord(1, axolotl.MakeECKeyPair(pk.Priv[:], pk.Pub[:])))
	sp := ref.NewKeyPair()
	sr := axolotl.NewSignedPreKeyRecord(2, 3, axolotl.MakeECKeyPair(sp.Priv[:], sp.Pub[:]), bytes.Repeat([]byte{9}, 64))
	m.spre[2], _ = sr.Serialize()
	s.StoreSignedPreKey(2, sr)
	pw := "http password 01"
	m.pass = &pw
	s.storeHTTPPassword(pw)
	m.sigKey = bytes.Repeat([]byte{1, 2, 3, 4}, 13)
	s.storeHTTPSignalingKey(m.sigKey)
	rec, blob := sessionRecord(c, 5)
	m.sess[uuids[0]+"/1"] = blob
	s.StoreSession(uuids[0], 1, rec)
	return m
}

// readers reads each kind of record; they return an error or the data in a comparable form.
func (m *storeModel) readers(s *store) map[string]func() (string, error) {
	return map[string]func() (string, error){
		"identity/regid": func() (string, error) { v, err := s.GetLocalRegistrationID(); return fmt.Sprint(v), err },
		"identity/identity_key": func() (string, error) {
			v, err := s.GetIdentityKeyPair()
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%x%x", *v.PublicKey.Key(), *v.PrivateKey.Key()), nil
		},
		"identity/remote_" + uuids[0]: func() (string, error) {
			v, err := ContactIdentityKey(uuids[0])
			return fmt.Sprintf("%x", v), err
		},
		"prekeys/000000001": func() (string, error) {
			v, err := s.LoadPreKey(1)
			if err != nil {
				return "", err
			}
			b, _ := v.Serialize()
			return fmt.Sprintf("%x", b), nil
		},
		"signed_prekeys/000000002": func() (string, error) {
			v, err := s.LoadSignedPreKey(2)
			if err != nil {
				return "", err
			}
			b, _ := v.Serialize()
			return fmt.Sprintf("%x", b), nil
		},
		"identity/http_password": func() (string, error) { return s.loadHTTPPassword() },
		"identity/http_signaling_key": func() (string, error) {
			v, err := s.loadHTTPSignalingKey()
			return fmt.Sprintf("%x", v), err
		},
		"sessions/" + uuids[0] + "_1": func() (string, error) {
			v, err := s.LoadSession(uuids[0], 1)
			if err != nil {
				return "", err
			}
			b, _ := v.Serialize()
			return fmt.Sprintf("%x", b), nil
		},
	}
}

func TestC10Tamper(t *testing.T) {
	kit.Check(t, "a store with one record of each kind, of which one file is altered, or which is opened with another password; "+
		"every case is non-trivial: it reads every record after the change",
		func(c *kit.Case) {
			c.SeedRand()
			dir := c.Scratch()
			pw := kit.Pick(c.T, "pw", []string{"p", "correct horse", "パスワード"})
			s := openStore(c, pw, dir)
			m := fullStore(c, s)
			before := map[string]string{}
			rd := m.readers(s)
			for name, f := range rd {
				v, err := f()
				if err != nil {
					c.Bad("%s cannot be read: %v", name, err)
				}
				before[name] = v
			}
			trustedKey := ikey(m.ids[uuids[0]])
			c.NonTrivial()
			if c.Chance("otherPassword", 1, 8) {
				other := kit.Pick(c.T, "other", []string{"P", "q", "correct horse ", "correct hors", "pp", "パスワー"})
				s = openStore(c, other, dir)
				c.Step("opened with %q instead of %q", other, pw)
				for name, f := range m.readers(s) {
					f := f
					c.NoPanic("reading "+name, func() {
						if v, err := f(); err == nil {
							c.Bad("%s was read with the wrong password: %s", name, v)
						}
					})
				}
				if s.IsTrustedIdentity(uuids[0], trustedKey) || s.IsTrustedIdentity(uuids[0], ikey(ref.NewKeyPair().Pub)) {
					c.Bad("an identity is trusted although its record cannot be read")
				}
				return
			}
			var names []string
			for _, f := range recordFiles(dir) {
				rel, _ := filepath.Rel(dir, f)
				if rel != "salt" && before[rel] != "" {
					names = append(names, rel)
				}
			}
			if len(names) != len(rd) {
				c.Broken("record files: %v", names)
			}
			victim := kit.Pick(c.T, "victim", names)
			path := filepath.Join(dir, victim)
			old, _ := os.ReadFile(path)
			var data []byte
			what := ""
			switch c.Int("how", 0, 7) {
			case 0, 1, 2:
				data, what = kit.Mutate(c.T, old)
			case 3:
				n := c.Int("cut", 0, len(old)-1)
				data, what = old[:n], fmt.Sprintf("cut to %d of %d", n, len(old))
			case 4:
				n := kit.Pick(c.T, "short", []int{0, 1, 15, 16, 31, 32, 33, 47, 48, 49})
				data, what = old[:min(n, len(old)-1)], fmt.Sprintf("cut to %d", n)
			case 5:
				data, what = kit.Bytes(200).Draw(c.T, "junk"), "replaced by junk"
			case 6: // a block removed or two blocks exchanged
				data = append([]byte{}, old...)
				nb := len(old) / 16
				i, j := c.Int("b1", 0, nb-1), c.Int("b2", 0, nb-1)
				for k := 0; k < 16; k++ {
					data[16*i+k], data[16*j+k] = data[16*j+k], data[16*i+k]
				}
				what = fmt.Sprintf("blocks %d and %d exchanged", i, j)
			case 7: // in clear
				data, what = []byte("12345"), "replaced by plaintext"
			}
			if bytes.Equal(data, old) {
				return
			}
			os.WriteFile(path, data, 0600)
			if c.Chance("reopen", 1, 2) {
				s = openStore(c, pw, dir)
			}
			c.Step("%s: %s", victim, what)
			c.Class(strings.SplitN(victim, "_", 2)[0])
			for name, f := range m.readers(s) {
				name, f := name, f
				c.NoPanic("reading "+name+" with "+victim+" "+what, func() {
					v, err := f()
					if name == victim {
						if err == nil {
							c.Bad("%s (%s) was read without an error", name, what)
						}
					} else if err != nil || v != before[name] {
						c.Bad("%s changed when %s was altered (%v)", name, victim, err)
					}
				})
			}
			c.NoPanic("IsTrustedIdentity", func() {
				want := !strings.HasPrefix(victim, "identity/remote_")
				if s.IsTrustedIdentity(uuids[0], trustedKey) != want {
					c.Bad("genuine key trusted=%v with %s altered", !want, victim)
				}
				if s.IsTrustedIdentity(uuids[0], ikey(ref.NewKeyPair().Pub)) {
					c.Bad("a wrong key is trusted with %s altered", victim)
				}
			})
			// a session that cannot be read is not replaced by operations on it
			if strings.HasPrefix(victim, "sessions/") {
				c.NoPanic("encrypting", func() {
					_, _, err := axolotl.NewSessionCipher(s, s, s, s, uuids[0], 1).SessionEncryptMessage([]byte("x"))
					if err == nil {
						c.Bad("encrypted under an unreadable session")
					}
				})
				if now, _ := os.ReadFile(path); !bytes.Equal(now, data) {
					c.Bad("the unreadable session was overwritten")
				}
			}
		})
}
