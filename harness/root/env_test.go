//go:build go1.22

package textsecure

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	protobuf "github.com/signal-golang/textsecure/axolotl/protobuf"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

// childHook is what a child process of another check than C11 does.
var childHook func()

// runAgain runs the test in another environment, if it needs one.
var runAgain func() (code int, done bool)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		childMain()
		return
	}
	if runAgain != nil {
		if code, done := runAgain(); done {
			os.Exit(code)
		}
	}
	signal.Ignore(syscall.SIGXFSZ)
	config.ConfigFile = &config.Config{}
	// no check may leave its scratch directory
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		os.Chdir(d)
	}
	os.Exit(m.Run())
}

var uuids = []string{
	"11111111-aaaa-4bbb-8ccc-000000000001", "11111111-aaaa-4bbb-8ccc-000000000002", "22222222-aaaa-4bbb-8ccc-000000000003",
	"11111111-aaaa-4bbb-8ccc-00000000000", "1", "11", "111", "1_1", "1_11", "a", "A", "a_1", "31612345678", "3161234567",
}

func ikey(k [32]byte) *axolotl.IdentityKey { return axolotl.NewIdentityKey(k[:]) }

// openStore opens a store and makes it the global one.
func openStore(c *kit.Case, password, dir string) *store {
	s, err := newStore(password, dir)
	if err != nil {
		c.Bad("cannot open the store: %v", err)
	}
	textSecureStore = s
	return s
}

// sessionBlob makes a record with distinguishable contents.
func sessionRecord(c *kit.Case, seed int) (*axolotl.SessionRecord, []byte) {
	// a record as the library makes it
	me, peer := ref.NewKeyPair(), ref.NewKeyPair()
	spk := ref.NewKeyPair()
	var rnd [64]byte
	rnd[0] = byte(seed)
	sig := ref.Sign(peer.Priv, append([]byte{5}, spk.Pub[:]...), rnd)
	b, err := axolotl.NewPreKeyBundle(uint32(seed), 1, 0, nil, 7, axolotl.NewECPublicKey(spk.Pub[:]), sig[:], ikey(peer.Pub))
	if err != nil {
		c.Broken("%v", err)
	}
	m := &oneSession{kp: axolotl.NewIdentityKeyPairFromKeys(me.Priv[:], me.Pub[:])}
	n := 1
	if seed%3 == 0 {
		n = 3 // with archived states
	}
	for ; n > 0; n-- {
		if err := axolotl.NewSessionBuilder(m, m, m, m, "x", 1).BuildSenderSession(b); err != nil {
			c.Broken("%v", err)
		}
	}
	blob, err := m.rec.Serialize()
	if err != nil {
		c.Broken("%v", err)
	}
	if seed < 300 {
		return m.rec, blob
	}
	// with the keys of messages that have not arrived yet
	rs := &protobuf.RecordStructure{}
	if err := proto.Unmarshal(blob, rs); err != nil {
		c.Broken("%v", err)
	}
	for i := range rs.CurrentSession.ReceiverChains {
		ch := rs.CurrentSession.ReceiverChains[i]
		for k := 0; k < seed-290; k++ {
			key := bytes.Repeat([]byte{byte(k), byte(seed)}, 16)
			ch.MessageKeys = append(ch.MessageKeys, &protobuf.SessionStructure_Chain_MessageKey{Index: uint32(k), CipherKey: key, MacKey: key, Iv: key[:16]})
		}
	}
	blob, _ = proto.Marshal(rs)
	rec, err := axolotl.LoadSessionRecord(blob)
	if err != nil {
		c.Broken("%v", err)
	}
	if blob, err = rec.Serialize(); err != nil {
		c.Broken("%v", err)
	}
	return rec, blob
}

// oneSession is a store for a single session.
type oneSession struct {
	kp  *axolotl.IdentityKeyPair
	rec *axolotl.SessionRecord
}

func (s *oneSession) Lock()                                                 {}
func (s *oneSession) Unlock()                                               {}
func (s *oneSession) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) { return s.kp, nil }
func (s *oneSession) GetLocalRegistrationID() (uint32, error)               { return 1, nil }
func (s *oneSession) SaveIdentity(string, *axolotl.IdentityKey) error       { return nil }
func (s *oneSession) IsTrustedIdentity(string, *axolotl.IdentityKey) bool   { return true }
func (s *oneSession) LoadPreKey(uint32) (*axolotl.PreKeyRecord, error)      { return nil, errNone }
func (s *oneSession) StorePreKey(uint32, *axolotl.PreKeyRecord) error       { return nil }
func (s *oneSession) ContainsPreKey(uint32) bool                            { return false }
func (s *oneSession) RemovePreKey(uint32)                                   {}
func (s *oneSession) LoadSignedPreKey(uint32) (*axolotl.SignedPreKeyRecord, error) {
	return nil, errNone
}
func (s *oneSession) LoadSignedPreKeys() []axolotl.SignedPreKeyRecord             { return nil }
func (s *oneSession) StoreSignedPreKey(uint32, *axolotl.SignedPreKeyRecord) error { return nil }
func (s *oneSession) ContainsSignedPreKey(uint32) bool                            { return false }
func (s *oneSession) RemoveSignedPreKey(uint32)                                   {}
func (s *oneSession) GetSubDeviceSessions(string) []uint32                        { return nil }
func (s *oneSession) ContainsSession(string, uint32) bool                         { return s.rec != nil }
func (s *oneSession) DeleteSession(string, uint32)                                {}
func (s *oneSession) DeleteAllSessions(string)                                    {}
func (s *oneSession) LoadSession(string, uint32) (*axolotl.SessionRecord, error) {
	if s.rec == nil {
		return axolotl.NewSessionRecord(), nil
	}
	return s.rec, nil
}
func (s *oneSession) StoreSession(r string, d uint32, rec *axolotl.SessionRecord) error {
	rec.Fresh = false
	s.rec = rec
	return nil
}

var errNone = fmt.Errorf("none")

// recordFiles lists all files below dir.
func recordFiles(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			out = append(out, p)
		}
		return nil
	})
	return out
}

func drawPassword(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "p", "correct horse", "p\x00q", "パスワード", "a very long password a very long password a very long password a very long password"}).Draw(t, "password")
}
