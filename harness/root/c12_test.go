//go:build go1.22

package textsecure

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/fingerprint"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

func TestC12Isolation(t *testing.T) {
	kit.Check(t, "sequences of storing, listing and deleting device sessions and ending sessions of peers with similar names; "+
		"non-trivial: at least three peers with sessions at one time and a deletion of all sessions of one of them",
		func(c *kit.Case) {
			c.SeedRand()
			dir := filepath.Join(c.Scratch(), "store")
			pw := ""
			if c.Chance("pw", 1, 6) {
				pw = "p"
			}
			s := openStore(c, pw, dir)
			model := map[string]map[uint32][]byte{}
			names := uuids
			delAll, many := 0, false
			for k := c.Int("ops", 3, 40); k > 0; k-- {
				name := kit.Pick(c.T, "name", names)
				switch op := c.Int("op", 0, 11); {
				case op == 10:
					hostileName(c, s, dir, model)
				case op == 11: // a peer with many devices
					first, n := uint32(c.Int("firstDevice", 1, 300)), c.Int("devices", 5, 40)
					rec, blob := sessionRecord(c, c.Int("seed", 1, 100))
					if model[name] == nil {
						model[name] = map[uint32][]byte{}
					}
					for d := first; d < first+uint32(n); d++ {
						if err := s.StoreSession(name, d, rec); err != nil {
							c.Bad("StoreSession: %v", err)
						}
						model[name][d] = blob
					}
					c.Step("store %s/%d to %d", name, first, first+uint32(n)-1)
				case op <= 5:
					dev := devices(c.T)
					rec, blob := sessionRecord(c, c.Int("seed", 1, 100))
					if err := s.StoreSession(name, dev, rec); err != nil {
						c.Bad("StoreSession: %v", err)
					}
					if model[name] == nil {
						model[name] = map[uint32][]byte{}
					}
					model[name][dev] = blob
					c.Step("store %s/%d", name, dev)
				case op == 6:
					dev := devices(c.T)
					if ds := model[name]; len(ds) > 0 && c.Chance("real", 2, 3) {
						for _, d := range sortedDevs(ds) {
							dev = d
						}
					}
					s.DeleteSession(name, dev)
					delete(model[name], dev)
					c.Step("delete %s/%d", name, dev)
				case op == 7:
					s.DeleteAllSessions(name)
					delete(model, name)
					delAll++
					c.Step("delete all of %s", name)
				case op == 8: // the peer ends the session
					f := uint32(signalservice.DataMessage_END_SESSION)
					fl, err := handleFlags(name, &signalservice.DataMessage{Flags: &f})
					if err != nil || fl != EndSessionFlag {
						c.Bad("END_SESSION of %s: flags %d, %v", name, fl, err)
					}
					delete(model, name)
					delAll++
					c.Step("%s ends the session", name)
				case op == 9:
					if c.Chance("reopen", 1, 2) {
						s = openStore(c, pw, dir)
					}
					f := uint32(0)
					if _, err := handleFlags(name, &signalservice.DataMessage{Flags: &f}); err != nil {
						c.Bad("flags 0: %v", err)
					}
				}
				with := 0
				for _, ds := range model {
					if len(ds) > 0 {
						with++
					}
				}
				many = many || with >= 3
				for _, n := range names {
					got := append([]uint32{}, s.GetSubDeviceSessions(n)...)
					sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
					if want := sortedDevs(model[n]); fmt.Sprint(got) != fmt.Sprint(want) {
						c.Bad("devices of %s: %v, with stored sessions: %v", n, got, want)
					}
				}
			}
			for _, n := range names {
				for _, d := range []uint32{1, 2, 3, 11, 12, 0, 111, 0x7fffffff, 0xffffffff} {
					want, ok := model[n][d]
					if s.ContainsSession(n, d) != ok {
						c.Bad("session %s/%d contained=%v, stored=%v", n, d, !ok, ok)
					}
					rec, err := s.LoadSession(n, d)
					if err != nil {
						c.Bad("session %s/%d: %v", n, d, err)
					}
					if b, _ := rec.Serialize(); ok && !bytes.Equal(b, want) {
						c.Bad("session %s/%d differs from what was stored", n, d)
					}
				}
			}
			if many && delAll > 0 {
				c.NonTrivial()
			}
		})
}

// hostileName lets a peer whose name looks like a path do something: whatever
// comes of it, nothing that belongs to others changes.
func hostileName(c *kit.Case, s *store, dir string, model map[string]map[uint32][]byte) {
	victim := kit.Pick(c.T, "victim", uuids)
	// things of ours that have to stay
	ours := ref.NewKeyPair()
	if !exists(filepath.Join(dir, "identity", "identity_key")) {
		s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(ours.Priv[:], ours.Pub[:]))
		s.SetLocalRegistrationID(5)
		s.StorePreKey(7, axolotl.NewPreKeyRecord(7, axolotl.MakeECKeyPair(ours.Priv[:], ours.Pub[:])))
	}
	s.SaveIdentity(victim, ikey(ref.NewKeyPair().Pub))
	name := kit.Pick(c.T, "hostile", []string{"x/../" + victim, "x/../../identity/identity_key", "x/../identity_key", "x/../regid", "x/../../prekeys/000000007",
		"x/../remote_" + victim, "../" + victim, "./" + victim, victim + "/", "/" + victim, "x/../../../outside", "a/b", "../../identity/remote_" + victim, victim + "_1/../" + victim})
	before := filesUnder(dir)
	what := c.Int("does", 0, 6)
	dev := devices(c.T)
	c.NoPanic("a peer named "+name, func() {
		switch what {
		case 0:
			s.SaveIdentity(name, ikey(ref.NewKeyPair().Pub))
		case 1:
			rec, _ := sessionRecord(c, 3)
			s.StoreSession(name, dev, rec)
		case 2:
			s.DeleteSession(name, dev)
		case 3:
			s.DeleteAllSessions(name)
		case 4:
			f := uint32(signalservice.DataMessage_END_SESSION)
			handleFlags(name, &signalservice.DataMessage{Flags: &f})
		case 5:
			kp, spk := ref.NewKeyPair(), ref.NewKeyPair()
			sig := ref.Sign(kp.Priv, append([]byte{5}, spk.Pub[:]...), [64]byte{})
			b, _ := axolotl.NewPreKeyBundle(1, dev, 0, nil, 1, axolotl.NewECPublicKey(spk.Pub[:]), sig[:], ikey(kp.Pub))
			axolotl.NewSessionBuilder(s, s, s, s, name, dev).BuildSenderSession(b)
		case 6:
			// a session of the victim is not one of this peer
			if len(model[victim]) > 0 {
				dev = sortedDevs(model[victim])[0]
			}
			if s.ContainsSession(name, dev) && model[victim][dev] != nil && !exists(filepath.Join(dir, "sessions", name)) {
				c.Bad("the session %s/%d counts as one of a peer named %q", victim, dev, name)
			}
		}
	})
	after := filesUnder(dir)
	for f, b := range before {
		if a, ok := after[f]; !ok || a != b {
			c.Bad("a peer named %q (action %d) changed %s", name, what, f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && !strings.HasPrefix(f, "identity/") && !strings.HasPrefix(f, "sessions/") {
			c.Bad("a peer named %q (action %d) made %s", name, what, f)
		}
	}
	if what != 6 {
		// whatever was kept for it goes, for the lists of the others are compared
		for f := range after {
			if _, ok := before[f]; !ok {
				os.RemoveAll(filepath.Join(dir, f))
			}
		}
	}
	c.Class("peer named like a path")
	c.Step("peer %q does %d", name, what)
}

// filesUnder is the content of all files below dir, and of files beside it.
func filesUnder(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	es, _ := os.ReadDir(filepath.Dir(dir))
	for _, e := range es {
		if e.Type().IsRegular() {
			m["../"+e.Name()] = ""
		}
	}
	return m
}

func sortedDevs(m map[uint32][]byte) []uint32 {
	out := []uint32{}
	for d := range m {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func TestC13Pinning(t *testing.T) {
	kit.Check(t, "histories of first contacts, key changes, saves and reopenings over several peers; "+
		"non-trivial: at least two saved peers, a query with a changed key, and a reopening",
		func(c *kit.Case) {
			c.SeedRand()
			dir := c.Scratch()
			pw := drawPassword(c.T)
			s := openStore(c, pw, dir)
			always := c.Chance("always", 1, 8)
			config.ConfigFile = &config.Config{AlwaysTrustPeerID: always, Tel: "+31612345678"}
			defer func() { config.ConfigFile = &config.Config{} }()
			me := ref.NewKeyPair()
			identityKey = axolotl.NewIdentityKeyPairFromKeys(me.Priv[:], me.Pub[:])
			pinned := map[string][32]byte{}
			var pool [][32]byte
			for i := 0; i < 4; i++ {
				pool = append(pool, ref.NewKeyPair().Pub)
			}
			// keys that differ in a single bit
			k := pool[0]
			k[c.Int("byte", 0, 31)] ^= 1 << c.Int("bit", 0, 7)
			pool = append(pool, k)
			names := uuids
			changed, reopened := 0, 0
			for k := c.Int("ops", 3, 30); k > 0; k-- {
				name := kit.Pick(c.T, "name", names)
				key := kit.Pick(c.T, "key", pool)
				switch op := c.Int("op", 0, 9); {
				case op <= 3:
					p, known := pinned[name]
					want := always || !known || p == key
					if got := s.IsTrustedIdentity(name, ikey(key)); got != want {
						c.Bad("key %x of %s trusted=%v; pinned: %v %x, always trust: %v", key[:4], name, got, known, p[:4], always)
					}
					if known && p != key {
						changed++
						c.Class("changed key queried")
					}
				case op <= 6:
					if err := s.SaveIdentity(name, ikey(key)); err != nil {
						c.Bad("SaveIdentity: %v", err)
					}
					pinned[name] = key
					c.Step("save %s %x", name, key[:4])
				case op == 7:
					s = openStore(c, pw, dir)
					reopened++
					c.Step("reopen")
				case op == 8: // a bundle with a changed key is refused, one with the pinned key is accepted
					kp := ref.NewKeyPair()
					p, known := pinned[name]
					spk := ref.NewKeyPair()
					var rnd [64]byte
					sig := ref.Sign(kp.Priv, append([]byte{5}, spk.Pub[:]...), rnd)
					ik := axolotl.NewIdentityKeyPairFromKeys(me.Priv[:], me.Pub[:])
					s.SetIdentityKeyPair(ik)
					s.SetLocalRegistrationID(5)
					b, _ := axolotl.NewPreKeyBundle(1, 1, 0, nil, 1, axolotl.NewECPublicKey(spk.Pub[:]), sig[:], ikey(kp.Pub))
					err := axolotl.NewSessionBuilder(s, s, s, s, name, 1).BuildSenderSession(b)
					if (err == nil) != (always || !known) {
						c.Bad("session with %s under a new key: %v (pinned %v, always trust %v)", name, err, known, always)
					}
					if err == nil {
						pinned[name] = kp.Pub
						pool = append(pool, kp.Pub)
					} else {
						changed++
					}
					_ = p
					c.Step("session with %s: %v", name, err)
				default:
					checkReported(c, name, pinned, me)
				}
			}
			s = openStore(c, pw, dir)
			for _, n := range names {
				checkReported(c, n, pinned, me)
				p, known := pinned[n]
				for _, key := range pool {
					want := always || !known || p == key
					if got := s.IsTrustedIdentity(n, ikey(key)); got != want {
						c.Bad("at the end: key %x of %s trusted=%v; pinned: %v %x", key[:4], n, got, known, p[:4])
					}
				}
			}
			// a pinned key that can not be read any more is no reason to trust another one
			if len(pinned) > 0 && !always && c.Chance("unreadable", 1, 3) {
				var known []string
				for _, n := range names {
					if _, ok := pinned[n]; ok {
						known = append(known, n)
					}
				}
				n := kit.Pick(c.T, "unreadable", known)
				file := ""
				filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
					if err == nil && !fi.IsDir() && filepath.Base(path) == "remote_"+n {
						file = path
					}
					return nil
				})
				if file != "" {
					if c.Chance("directory", 1, 2) {
						os.Remove(file)
						os.Mkdir(file, 0700)
					} else if pw != "" {
						os.Truncate(file, int64(c.Int("left", 0, 31)))
					}
					c.Class("pinned key unreadable")
					for _, key := range pool {
						if key != pinned[n] && s.IsTrustedIdentity(n, ikey(key)) {
							c.Bad("the pinned key of %s can not be read, and another key is trusted", n)
						}
					}
				}
			}
			if len(pinned) >= 2 && changed > 0 && reopened > 0 {
				c.NonTrivial()
			}
		})
}

func checkReported(c *kit.Case, name string, pinned map[string][32]byte, me ref.KeyPair) {
	p, known := pinned[name]
	b, err := ContactIdentityKey(name)
	if known != (err == nil) || known && !bytes.Equal(b, append([]byte{5}, p[:]...)) {
		c.Bad("identity key of %s: %x (%v), pinned %v %x", name, b, err, known, p)
	}
	num, scan, err := GetFingerprint(name, "+4912345")
	if known != (err == nil) {
		c.Bad("fingerprint of %s: %v (pinned %v)", name, err, known)
	}
	if known {
		n2, s2, err := fingerprint.CreateFingerprintSimple(1, "+31612345678", append([]byte{5}, me.Pub[:]...), "+4912345", append([]byte{5}, p[:]...))
		if err != nil || fmt.Sprint(num) != fmt.Sprint(n2) || !bytes.Equal(scan, s2) {
			c.Bad("the safety number of %s is not that of the saved key", name)
		}
	}
}

var _ = os.Remove
