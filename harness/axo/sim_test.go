//go:build go1.22

// Package axo drives the exported API of the axolotl package with generated
// histories of two parties; the stores keep only serialized data.
package axo

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

var errStore = errors.New("injected store failure")

// memStore implements all store interfaces of the axolotl package.
type memStore struct {
	mu       sync.Mutex // the session lock of the interface
	dm       sync.Mutex // protects the maps
	ikp      *axolotl.IdentityKeyPair
	reg      uint32
	ids      map[string][]byte
	pre      map[uint32][]byte
	spre     map[uint32][]byte
	sess     map[string][]byte
	live     map[string]*axolotl.SessionRecord // only in live mode
	liveMode bool
	trustAll bool
	fail     func(op string) bool
	ops      int
	removed  []uint32
	yield    func()
}

func newMemStore(kp ref.KeyPair, reg uint32) *memStore {
	return &memStore{ikp: axolotl.NewIdentityKeyPairFromKeys(kp.Priv[:], kp.Pub[:]), reg: reg,
		ids: map[string][]byte{}, pre: map[uint32][]byte{}, spre: map[uint32][]byte{}, sess: map[string][]byte{}, live: map[string]*axolotl.SessionRecord{}}
}

func (s *memStore) f(op string) bool {
	s.dm.Lock()
	s.ops++
	s.dm.Unlock()
	if s.yield != nil {
		s.yield()
	}
	return s.fail != nil && s.fail(op)
}
func (s *memStore) Lock()   { s.mu.Lock() }
func (s *memStore) Unlock() { s.mu.Unlock() }
func (s *memStore) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
	if s.f("GetIdentityKeyPair") {
		return nil, errStore
	}
	return s.ikp, nil
}
func (s *memStore) GetLocalRegistrationID() (uint32, error) {
	if s.f("GetLocalRegistrationID") {
		return 0, errStore
	}
	return s.reg, nil
}
func (s *memStore) SaveIdentity(id string, k *axolotl.IdentityKey) error {
	if s.f("SaveIdentity") {
		return errStore
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	s.ids[id] = append([]byte{}, k.Key()[:]...)
	return nil
}
func (s *memStore) IsTrustedIdentity(id string, k *axolotl.IdentityKey) bool {
	s.dm.Lock()
	defer s.dm.Unlock()
	b, ok := s.ids[id]
	return s.trustAll || !ok || bytes.Equal(b, k.Key()[:])
}
func (s *memStore) LoadPreKey(id uint32) (*axolotl.PreKeyRecord, error) {
	if s.f("LoadPreKey") {
		return nil, errStore
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	b, ok := s.pre[id]
	if !ok {
		return nil, fmt.Errorf("no prekey %d", id)
	}
	return axolotl.LoadPreKeyRecord(b)
}
func (s *memStore) StorePreKey(id uint32, r *axolotl.PreKeyRecord) error {
	if s.f("StorePreKey") {
		return errStore
	}
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	s.pre[id] = b
	return nil
}
func (s *memStore) ContainsPreKey(id uint32) bool {
	s.dm.Lock()
	defer s.dm.Unlock()
	_, ok := s.pre[id]
	return ok
}
func (s *memStore) RemovePreKey(id uint32) {
	if s.f("RemovePreKey") {
		return
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	if _, ok := s.pre[id]; ok {
		s.removed = append(s.removed, id)
	}
	delete(s.pre, id)
}
func (s *memStore) LoadSignedPreKey(id uint32) (*axolotl.SignedPreKeyRecord, error) {
	if s.f("LoadSignedPreKey") {
		return nil, errStore
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	b, ok := s.spre[id]
	if !ok {
		return nil, fmt.Errorf("no signed prekey %d", id)
	}
	return axolotl.LoadSignedPreKeyRecord(b)
}
func (s *memStore) LoadSignedPreKeys() []axolotl.SignedPreKeyRecord { return nil }
func (s *memStore) StoreSignedPreKey(id uint32, r *axolotl.SignedPreKeyRecord) error {
	b, err := r.Serialize()
	if err != nil {
		return err
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	s.spre[id] = b
	return nil
}
func (s *memStore) ContainsSignedPreKey(id uint32) bool {
	s.dm.Lock()
	defer s.dm.Unlock()
	_, ok := s.spre[id]
	return ok
}
func (s *memStore) RemoveSignedPreKey(id uint32) {
	s.dm.Lock()
	defer s.dm.Unlock()
	delete(s.spre, id)
}
func skey(r string, d uint32) string { return fmt.Sprintf("%s/%d", r, d) }
func (s *memStore) LoadSession(r string, d uint32) (*axolotl.SessionRecord, error) {
	if s.f("LoadSession") {
		return nil, errStore
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	if s.liveMode {
		if rec, ok := s.live[skey(r, d)]; ok {
			return rec, nil
		}
	}
	b, ok := s.sess[skey(r, d)]
	if !ok {
		return axolotl.NewSessionRecord(), nil
	}
	return axolotl.LoadSessionRecord(append([]byte{}, b...))
}
func (s *memStore) GetSubDeviceSessions(string) []uint32 { return nil }
func (s *memStore) StoreSession(r string, d uint32, rec *axolotl.SessionRecord) error {
	if s.f("StoreSession") {
		return errStore
	}
	b, err := rec.Serialize()
	if err != nil {
		return err
	}
	s.dm.Lock()
	defer s.dm.Unlock()
	s.sess[skey(r, d)] = b
	if s.liveMode {
		rec.Fresh = false
		s.live[skey(r, d)] = rec
	}
	return nil
}
func (s *memStore) ContainsSession(r string, d uint32) bool {
	s.dm.Lock()
	defer s.dm.Unlock()
	_, ok := s.sess[skey(r, d)]
	return ok
}
func (s *memStore) DeleteSession(r string, d uint32) {
	s.dm.Lock()
	defer s.dm.Unlock()
	delete(s.sess, skey(r, d))
	delete(s.live, skey(r, d))
}
func (s *memStore) DeleteAllSessions(string) {}

// reload drops live objects, so that the next load comes from serialized data.
func (s *memStore) reload() { s.live = map[string]*axolotl.SessionRecord{} }

// snapshot is a comparable copy of everything stored.
func (s *memStore) snapshot() string {
	s.dm.Lock()
	defer s.dm.Unlock()
	return fmt.Sprintf("%x|%x|%x|%x", s.ids, s.pre, s.spre, s.sess)
}

type party struct {
	name  string
	dev   uint32
	kp    ref.KeyPair
	st    *memStore
	spkID uint32
	spk   ref.KeyPair
	sig   [64]byte
	// model
	sessions map[[32]byte]*mSession // by base key, as known to this party
	cur      [32]byte
	nextPre  uint32
}

type mChain struct {
	next uint32
	done map[uint32]bool
}
type mSession struct {
	order  [][32]byte // receiver chains by first receipt
	chains map[[32]byte]*mChain
}

type message struct {
	id        int
	from      int
	raw       []byte
	typ       int32
	pt        []byte
	base      [32]byte
	chain     [32]byte
	ctr       uint32
	preKey    uint32
	delivered bool
}

func (m *message) String() string { return fmt.Sprintf("m%d(%d:%d)", m.id, m.from, m.ctr) }

// sim is a pair of parties and everything sent so far.
type sim struct {
	c    *kit.Case
	p    [2]*party
	msgs []*message
}

func newParty(c *kit.Case, name string, dev uint32) *party {
	kp := ref.NewKeyPair()
	p := &party{name: name, dev: dev, kp: kp, sessions: map[[32]byte]*mSession{}, nextPre: 1}
	p.st = newMemStore(kp, uint32(c.Int(name+"reg", 1, 0x3fff)))
	p.spkID = uint32(c.Int(name+"spk", 1, 0xffffff))
	p.spk = ref.NewKeyPair()
	var rnd [64]byte
	copy(rnd[:], kit.Fill(c.T, 64))
	p.sig = signFast(kp, append([]byte{5}, p.spk.Pub[:]...), rnd)
	ekp := axolotl.MakeECKeyPair(p.spk.Priv[:], p.spk.Pub[:])
	p.st.StoreSignedPreKey(p.spkID, axolotl.NewSignedPreKeyRecord(p.spkID, 1, ekp, p.sig[:]))
	return p
}

func newSim(c *kit.Case) *sim {
	s := &sim{c: c}
	s.p[0] = newParty(c, "alice", uint32(c.Int("adev", 1, 3)))
	s.p[1] = newParty(c, "bob", uint32(c.Int("bdev", 1, 3)))
	return s
}

// newPreKey stores a fresh one-time prekey and returns it.
func (p *party) newPreKey() (uint32, ref.KeyPair) {
	id := p.nextPre
	p.nextPre++
	if p.nextPre == 0xFFFFFF { // the id of the last resort key
		p.nextPre = 1
	}
	return id, p.putPreKey(id)
}

func (p *party) putPreKey(id uint32) ref.KeyPair {
	kp := ref.NewKeyPair()
	p.st.StorePreKey(id, axolotl.NewPreKeyRecord(id, axolotl.MakeECKeyPair(kp.Priv[:], kp.Pub[:])))
	return kp
}

func ecpub(k [32]byte) *axolotl.ECPublicKey { return axolotl.NewECPublicKey(k[:]) }

// bundle is the bundle of p with the given one-time prekey (id 0: none).
func (p *party) bundle(preID uint32, pre [32]byte) *axolotl.PreKeyBundle {
	var pk *axolotl.ECPublicKey
	if preID != 0 {
		pk = ecpub(pre)
	}
	b, err := axolotl.NewPreKeyBundle(p.st.reg, p.dev, preID, pk, int32(p.spkID), ecpub(p.spk.Pub), p.sig[:], axolotl.NewIdentityKey(p.kp.Pub[:]))
	if err != nil {
		panic(err)
	}
	return b
}

func (p *party) cipher(peer *party) *axolotl.SessionCipher {
	return axolotl.NewSessionCipher(p.st, p.st, p.st, p.st, peer.name, peer.dev)
}
func (p *party) builder(peer *party) *axolotl.SessionBuilder {
	return axolotl.NewSessionBuilder(p.st, p.st, p.st, p.st, peer.name, peer.dev)
}

// initiate makes party i start a session with the other one.
func (s *sim) initiate(i int, withPre bool) {
	me, peer := s.p[i], s.p[1-i]
	var id uint32
	var pub [32]byte
	if withPre {
		var kp ref.KeyPair
		id, kp = peer.newPreKey()
		pub = kp.Pub
	}
	if err := me.builder(peer).BuildSenderSession(peer.bundle(id, pub)); err != nil {
		s.c.Bad("%s cannot start a session from a genuine bundle: %v", me.name, err)
	}
	me.cur = [32]byte{} // base key learned from the next message
	me.cur[0] = 0xff
}

// has reports whether party i can send.
func (s *sim) has(i int) bool { return s.p[i].st.ContainsSession(s.p[1-i].name, s.p[1-i].dev) }

// send encrypts pt from party i.
func (s *sim) send(i int, pt []byte) *message {
	me, peer := s.p[i], s.p[1-i]
	in := append([]byte{}, pt...)
	raw, typ, err := me.cipher(peer).SessionEncryptMessage(in)
	if err != nil {
		s.c.Bad("%s cannot encrypt: %v", me.name, err)
	}
	m := &message{id: len(s.msgs), from: i, raw: append([]byte{}, raw...), typ: typ, pt: append([]byte{}, pt...)}
	var wm *ref.WM
	switch typ {
	case 1:
		wm, err = ref.ParseWM(raw)
		m.base = me.cur
	case 3:
		var pk *ref.PKWM
		pk, err = ref.ParsePKWM(raw)
		if err == nil {
			wm = pk.Msg
			m.base = pk.Base
			m.preKey = pk.PreKeyID
			me.cur = pk.Base
			if me.sessions[pk.Base] == nil {
				me.sessions[pk.Base] = &mSession{chains: map[[32]byte]*mChain{}}
			}
		}
	default:
		err = fmt.Errorf("type %d", typ)
	}
	if err != nil {
		s.c.Bad("%s produced a message that does not parse: %v", me.name, err)
	}
	m.chain, m.ctr = wm.Ratchet, wm.Counter
	s.msgs = append(s.msgs, m)
	return m
}

// decryptRaw feeds bytes to party i as a message of the given type.
func (s *sim) decryptRaw(i int, typ int32, raw []byte) (pt []byte, err error) {
	me, peer := s.p[i], s.p[1-i]
	return decryptAs(me.cipher(peer), typ, raw)
}

func decryptAs(sc *axolotl.SessionCipher, typ int32, raw []byte) ([]byte, error) {
	raw = append([]byte{}, raw...)
	if typ == 3 {
		m, err := axolotl.LoadPreKeyWhisperMessage(raw)
		if err != nil {
			return nil, err
		}
		return sc.SessionDecryptPreKeyWhisperMessage(m)
	}
	m, err := axolotl.LoadWhisperMessage(raw)
	if err != nil {
		return nil, err
	}
	return sc.SessionDecryptWhisperMessage(m)
}

// must says whether the model requires m to be deliverable now (false: no claim).
func (s *sim) must(m *message) bool {
	if m.delivered {
		return false
	}
	p := s.p[1-m.from]
	ms := p.sessions[m.base]
	if ms == nil {
		return m.typ == 3 && m.ctr <= 2000
	}
	ch := ms.chains[m.chain]
	if ch == nil {
		return m.ctr <= 2000
	}
	recent := false
	for k := len(ms.order) - 1; k >= 0 && k >= len(ms.order)-5; k-- {
		if ms.order[k] == m.chain {
			recent = true
		}
	}
	if !recent {
		return false
	}
	return m.ctr < ch.next || m.ctr-ch.next <= 1999
}

// deliver hands m to its receiver and checks the outcome against the model.
func (s *sim) deliver(m *message) bool {
	must := s.must(m)
	pt, err := s.decryptRaw(1-m.from, m.typ, m.raw)
	if m.delivered {
		if err == nil {
			s.c.Bad("message %v was delivered twice", m)
		}
		return false
	}
	if err != nil {
		if must {
			s.c.Bad("genuine message %v was not delivered: %v", m, err)
		}
		return false
	}
	if !bytes.Equal(pt, m.pt) {
		s.c.Bad("message %v decrypted to %d bytes %.40x, sent were %d bytes %.40x", m, len(pt), pt, len(m.pt), m.pt)
	}
	m.delivered = true
	p := s.p[1-m.from]
	ms := p.sessions[m.base]
	if ms == nil {
		ms = &mSession{chains: map[[32]byte]*mChain{}}
		p.sessions[m.base] = ms
	}
	p.cur = m.base
	ch := ms.chains[m.chain]
	if ch == nil {
		ch = &mChain{done: map[uint32]bool{}}
		ms.chains[m.chain] = ch
		ms.order = append(ms.order, m.chain)
	}
	ch.done[m.ctr] = true
	if m.ctr >= ch.next {
		ch.next = m.ctr + 1
	}
	return true
}

// pending lists undelivered messages.
func (s *sim) pending() []*message {
	var out []*message
	for _, m := range s.msgs {
		if !m.delivered {
			out = append(out, m)
		}
	}
	return out
}

func signFast(kp ref.KeyPair, msg []byte, rnd [64]byte) [64]byte { return ref.Sign(kp.Priv, msg, rnd) }

// pickPending draws an undelivered message, biased to old, new or any.
func (s *sim) pickPending(pend []*message) *message {
	n := len(pend)
	switch s.c.Int("which", 0, 3) {
	case 0:
		return pend[0]
	case 1:
		return pend[n-1]
	}
	return pend[rapid.IntRange(0, n-1).Draw(s.c.T, "idx")]
}

// pingpong makes both parties exchange delivered messages, advancing the ratchet.
func (s *sim) pingpong(n int) {
	for k := 0; k < n; k++ {
		i := k % 2
		if !s.has(i) {
			i = 0
		}
		s.deliver(s.send(i, []byte{byte(k)}))
	}
}

// settle delivers everything that must still be deliverable, in drawn order,
// then checks that both parties can exchange messages.
func (s *sim) settle() {
	for {
		var pend []*message
		for _, m := range s.pending() {
			if s.must(m) {
				pend = append(pend, m)
			}
		}
		if len(pend) == 0 {
			break
		}
		s.deliver(s.pickPending(pend))
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < 2; i++ {
			if s.has(i) {
				m := s.send(i, []byte(fmt.Sprintf("final %d %d", round, i)))
				if !s.must(m) {
					s.c.Class("final message not claimed")
				}
				s.deliver(m)
			}
		}
	}
}
