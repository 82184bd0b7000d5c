//go:build go1.22

package axo

import (
	"bytes"
	"testing"

	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

// inner returns the bytes of the message inside (raw itself for type 1).
func inner(typ int32, raw []byte) []byte {
	if typ != 3 {
		return raw
	}
	p, err := ref.ParsePKWM(raw)
	if err != nil {
		return nil
	}
	return p.Msg.Raw
}

// innerLoose finds the message field without requiring anything else.
func innerLoose(typ int32, raw []byte) []byte {
	if typ != 3 {
		return raw
	}
	if len(raw) == 0 {
		return nil
	}
	fs, err := ref.Dec(raw[1:])
	if err != nil {
		return nil
	}
	return fs[4].Bytes
}

// attack feeds raw to party i; acceptance is right only if it carries a
// genuine, undelivered message for i, whose plaintext it then yields.
func (s *sim) attack(i int, typ int32, raw []byte, what string) bool {
	var pt []byte
	var err error
	s.c.NoPanic(what, func() { pt, err = s.decryptRaw(i, typ, raw) })
	if err != nil {
		return false
	}
	in := innerLoose(typ, raw)
	for _, m := range s.msgs {
		if m.from == 1-i && !m.delivered && bytes.Equal(inner(m.typ, m.raw), in) {
			if !bytes.Equal(pt, m.pt) {
				s.c.Bad("%s: wrong plaintext for %v", what, m)
			}
			s.noteDelivered(m)
			return true
		}
	}
	s.c.Bad("%s: accepted, giving %d bytes %.40x", what, len(pt), pt)
	return false
}

func (s *sim) noteDelivered(m *message) {
	m.delivered = true
	p := s.p[1-m.from]
	ms := p.sessions[m.base]
	if ms == nil {
		ms = &mSession{chains: map[[32]byte]*mChain{}}
		p.sessions[m.base] = ms
	}
	p.cur = m.base
	ch := ms.chains[m.chain]
	if ch == nil {
		ch = &mChain{done: map[uint32]bool{}}
		ms.chains[m.chain] = ch
		ms.order = append(ms.order, m.chain)
	}
	ch.done[m.ctr] = true
	if m.ctr >= ch.next {
		ch.next = m.ctr + 1
	}
}

// rewriteWM re-encodes a message with one field changed, keeping its MAC.
func rewriteWM(t *rapid.T, raw []byte, other []byte) ([]byte, string) {
	w, err := ref.ParseWM(raw)
	if err != nil {
		return nil, ""
	}
	mac := raw[len(raw)-8:]
	rk, ctr, prev, ct := append([]byte{5}, w.Ratchet[:]...), uint64(w.Counter), uint64(w.Prev), w.CT
	var what string
	switch rapid.IntRange(0, 7).Draw(t, "field") {
	case 0:
		ctr = uint64(rapid.SampledFrom([]uint32{0, 1, 2, 3, w.Counter + 1, w.Counter + 2, w.Counter + 100, w.Counter + 2000, w.Counter + 2001, 0xffffffff, 0x7fffffff, 0x80000000}).Draw(t, "ctr"))
		what = "counter"
	case 1:
		k := ref.NewKeyPair()
		rk = append([]byte{5}, k.Pub[:]...)
		what = "new ratchet key"
	case 2:
		if o, err := ref.ParseWM(other); err == nil {
			rk = append([]byte{5}, o.Ratchet[:]...)
			what = "ratchet key of another message"
		}
	case 3:
		if o, err := ref.ParseWM(other); err == nil {
			ct = o.CT
			what = "ciphertext of another message"
		}
	case 4:
		prev += 1
		what = "previous counter"
	case 5:
		if o, err := ref.ParseWM(other); err == nil {
			mac = o.Raw[len(o.Raw)-8:]
			what = "mac of another message"
		}
	case 6:
		ctr = uint64(w.Counter) + 1
		k := ref.NewKeyPair()
		rk = append([]byte{5}, k.Pub[:]...)
		what = "counter and new ratchet key"
	case 7:
		rk[32] |= 0x80
		what = "encoding of the ratchet key"
	}
	out := append([]byte{raw[0]}, ref.Enc(ref.B(1, rk), ref.V(2, ctr), ref.V(3, prev), ref.B(4, ct))...)
	return append(out, mac...), what
}

// rewritePKWM re-encodes an initial message with one outer field changed.
func rewritePKWM(t *rapid.T, raw, newInner []byte) ([]byte, string) {
	p, err := ref.ParsePKWM(raw)
	if err != nil {
		return nil, ""
	}
	reg, pre, spk, base, ik, msg := uint64(p.RegID), uint64(p.PreKeyID), uint64(p.SPKID), append([]byte{5}, p.Base[:]...), append([]byte{5}, p.IK[:]...), p.Msg.Raw
	what := ""
	if newInner != nil {
		msg = newInner
		what = "inner message"
	} else {
		k := ref.NewKeyPair()
		switch rapid.IntRange(0, 7).Draw(t, "pkfield") {
		case 0:
			pre = uint64(rapid.SampledFrom([]uint32{0, 1, 2, 3, 0xffffff}).Draw(t, "pre"))
			what = "prekey id"
		case 1:
			spk++
			what = "signed prekey id"
		case 2:
			base = append([]byte{5}, k.Pub[:]...)
			what = "base key"
		case 3:
			ik = append([]byte{5}, k.Pub[:]...)
			what = "identity key"
		case 4:
			base = append([]byte{5}, k.Pub[:]...)
			ik = append([]byte{5}, k.Pub[:]...)
			what = "base and identity key"
		case 5, 6: // the same key to the key agreement
			base[32] |= 0x80
			what = "encoding of the base key"
		case 7:
			ik[32] |= 0x80
			what = "encoding of the identity key"
		}
	}
	return append([]byte{raw[0]}, ref.Enc(ref.V(5, reg), ref.V(1, pre), ref.V(6, spk), ref.B(2, base), ref.B(3, ik), ref.B(4, msg))...), what
}

// run sends n messages from party i, delivers them in one of three orders and
// replays each as soon as it is delivered, and some again afterwards.
func (s *sim) run(i, n, order int) (refused int) {
	if !s.has(i) {
		i = 0
	}
	c := s.c
	c.Class("long run with replays")
	var ms []*message
	for k := 0; k < n; k++ {
		ms = append(ms, s.send(i, []byte{byte(k), byte(k >> 8)}))
	}
	switch order {
	case 1:
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			ms[a], ms[b] = ms[b], ms[a]
		}
	case 2:
		step := c.Int("stride", 2, 40)
		var o []*message
		for a := 0; a < step; a++ {
			for b := a; b < n; b += step {
				o = append(o, ms[b])
			}
		}
		ms = o
	}
	replay := func(m *message) {
		if m.delivered && !s.attack(1-m.from, m.typ, m.raw, "replay of "+m.String()) {
			refused++
		}
	}
	for _, m := range ms {
		s.deliver(m)
		replay(m)
	}
	for k := c.Int("again", 0, 20); k > 0; k-- {
		replay(ms[c.Int("which", 0, n-1)])
	}
	c.Step("run of %d messages from %d in order %d, %d replays refused", n, i, order, refused)
	return refused
}

func TestC02Reject(t *testing.T) {
	kit.Check(t, "histories of genuine sends and deliveries with altered, replayed, foreign and re-encoded ciphertexts in between, sometimes over several sessions; "+
		"non-trivial: at least three attacks were refused and at least two genuine messages were delivered after an attack",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			withPre := c.Chance("withPre", 1, 2)
			s.initiate(0, withPre)
			// a second pair of sessions whose messages are foreign to the first
			f := &sim{c: c}
			f.p[0] = newParty(c, "carol", 1)
			f.p[1] = s.p[1]
			haveForeign := c.Chance("foreign", 1, 2)
			if haveForeign {
				fb := &party{}
				*fb = *s.p[1]
				fb.sessions = map[[32]byte]*mSession{}
				f.p[1] = fb
				f.initiate(0, false)
			}
			refused, after := 0, 0
			long := c.Chance("long", 1, 12)
			steps := c.Int("steps", 3, 45)
			for k := 0; k < steps; k++ {
				switch op := c.Int("op", 0, 13); {
				case op <= 2:
					i := c.Int("who", 0, 1)
					if !s.has(i) {
						i = 0
					}
					m := s.send(i, kit.Big(100).Draw(c.T, "pt"))
					c.Step("send %v", m)
				case op <= 5:
					pend := s.pending()
					if len(pend) == 0 {
						continue
					}
					m := s.pickPending(pend)
					got := s.deliver(m)
					if got && refused > 0 {
						after++
					}
					c.Step("deliver %v=%v", m, got)
				case op == 6:
					if long {
						long = false
						refused += s.run(c.Int("who", 0, 1), c.Int("run", 20, 600), c.Int("order", 0, 2))
						continue
					}
					s.pingpong(c.Int("pp", 2, 6))
					c.Step("pingpong")
				case op == 7:
					if c.Chance("reinit", 1, 3) {
						i := c.Int("who", 0, 1)
						s.initiate(i, c.Chance("withPre", 1, 2))
						m := s.send(i, []byte("first of a new session"))
						c.Step("new session by %d: %v", i, m)
						c.Class("new session")
					}
				default: // attacks
					if len(s.msgs) == 0 {
						continue
					}
					m := s.msgs[c.Int("target", 0, len(s.msgs)-1)]
					if c.Chance("recent", 1, 2) {
						m = s.msgs[len(s.msgs)-1-c.Int("back", 0, min(len(s.msgs)-1, 4))]
					}
					to, typ, raw, what := 1-m.from, m.typ, m.raw, ""
					o := s.msgs[c.Int("other", 0, len(s.msgs)-1)]
					switch c.Int("attack", 0, 7) {
					case 0, 1:
						raw, what = kit.Mutate(c.T, raw)
					case 2: // replay
						var done []*message
						for _, x := range s.msgs {
							if x.delivered {
								done = append(done, x)
							}
						}
						if len(done) == 0 {
							continue
						}
						m = done[c.Int("done", 0, len(done)-1)]
						to, typ, raw, what = 1-m.from, m.typ, m.raw, "replay"
						c.Class("replay")
					case 3: // reflect to its sender
						to, what = m.from, "reflected"
					case 4, 5: // re-encode the message with a changed field
						in, w := rewriteWM(c.T, inner(m.typ, m.raw), inner(o.typ, o.raw))
						if w == "" {
							continue
						}
						what = w
						if m.typ == 3 {
							raw, _ = rewritePKWM(c.T, m.raw, in)
						} else {
							raw = in
						}
					case 6: // initial message with a changed outer field
						if m.typ != 3 {
							continue
						}
						raw, what = rewritePKWM(c.T, m.raw, nil)
						c.Class("initial message rewritten")
					case 7: // a message of another session, in place of ours
						if !haveForeign {
							continue
						}
						fm := f.send(0, []byte("foreign"))
						if m.typ == 3 && m.from == 0 {
							raw, what = rewritePKWM(c.T, m.raw, inner(fm.typ, fm.raw))
							what = "foreign message under our initial header"
						} else {
							to, typ, raw, what = 1, 1, inner(fm.typ, fm.raw), "foreign message"
						}
						c.Class("foreign")
					}
					if bytes.Equal(raw, m.raw) && what != "replay" && what != "reflected" {
						continue
					}
					ok := s.attack(to, typ, raw, what+" of "+m.String())
					if !ok {
						refused++
					} else {
						c.Class("carried a genuine message")
					}
					c.Step("attack %d with %s of %v: accepted=%v", to, what, m, ok)
				}
			}
			if refused >= 3 && after >= 2 {
				c.NonTrivial()
			}
			s.settle()
		})
}
