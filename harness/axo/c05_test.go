//go:build go1.22

package axo

import (
	"testing"

	"github.com/signal-golang/textsecure/zzverif/kit"
)

func TestC05Sessions(t *testing.T) {
	kit.Check(t, "histories in which either party starts new sessions over existing ones, with sends, deliveries in any order and replays; "+
		"non-trivial: at least three sessions, a delivery under an older session than the receiver's current one, and a replay after it",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			s.initiate(0, c.Chance("withPre", 1, 2))
			inits, old, replays := 1, 0, 0
			steps := c.Int("steps", 5, 70)
			for k := 0; k < steps; k++ {
				switch op := c.Int("op", 0, 12); {
				case op <= 3:
					i := c.Int("who", 0, 1)
					if !s.has(i) {
						i = 0
					}
					m := s.send(i, kit.Bytes(40).Draw(c.T, "pt"))
					c.Step("send %v", m)
				case op <= 8:
					pend := s.pending()
					if len(pend) == 0 {
						continue
					}
					m := s.pickPending(pend)
					if r := s.p[1-m.from]; r.sessions[m.base] != nil && r.cur != m.base {
						old++
						c.Class("delivery under an older session")
					}
					got := s.deliver(m)
					c.Step("deliver %v=%v", m, got)
				case op == 9:
					n := c.Int("pp", 2, 6)
					s.pingpong(n)
					c.Step("pingpong %d", n)
				case op == 10:
					if inits >= 12 {
						continue
					}
					i := c.Int("who", 0, 1)
					s.initiate(i, c.Chance("withPre", 1, 2))
					m := s.send(i, []byte{1})
					inits++
					c.Step("session %d by %d: %v", inits, i, m)
					if c.Chance("both", 1, 3) {
						s.initiate(1-i, c.Chance("withPre", 1, 2))
						m = s.send(1-i, []byte{2})
						inits++
						c.Step("session %d by %d: %v", inits, 1-i, m)
						c.Class("simultaneous initiation")
					}
				default:
					var done []*message
					for _, m := range s.msgs {
						if m.delivered {
							done = append(done, m)
						}
					}
					if len(done) == 0 {
						continue
					}
					m := done[c.Int("done", 0, len(done)-1)]
					if c.Chance("newest", 1, 2) {
						m = done[len(done)-1-c.Int("back", 0, min(5, len(done)-1))]
					}
					s.deliver(m) // complains if accepted
					if old > 0 {
						replays++
					}
					c.Step("replay %v", m)
				}
			}
			if inits >= 3 && old > 0 && replays > 0 {
				c.NonTrivial()
			}
			s.settle()
			// nothing delivered may be accepted again
			for _, m := range s.msgs {
				if m.delivered {
					s.deliver(m)
				}
			}
			s.settle()
		})
}

func TestC05ManySwitches(t *testing.T) {
	kit.Check(t, "two simultaneous sessions between which the parties switch back and forth up to 120 times; non-trivial: more than 45 switches",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			s.initiate(0, c.Chance("withPre", 1, 2))
			held := []*message{s.send(0, []byte("held back 0")), s.send(0, []byte("held back 1"))}
			s.deliver(s.send(0, []byte("a")))
			s.pingpong(2)
			s.initiate(1, c.Chance("withPre", 1, 2))
			held = append(held, s.send(1, []byte("held back 2")))
			s.deliver(s.send(1, []byte("b")))
			// messages of both sessions, delivered alternately
			n := c.Int("switches", 10, 120)
			sw := 0
			for k := 0; k < n; k++ {
				i := c.Int("who", 0, 1)
				m := s.send(i, []byte{byte(k)})
				j := c.Int("other", 0, 1)
				m2 := s.send(j, []byte{byte(k), 1})
				if s.p[1-m2.from].cur != m2.base {
					sw++
				}
				s.deliver(m2)
				if s.p[1-m.from].cur != m.base {
					sw++
				}
				s.deliver(m)
			}
			c.Step("%d switches", sw)
			c.Sig(n, sw)
			if n > 45 {
				c.NonTrivial()
			}
			for _, m := range held {
				s.deliver(m)
			}
			s.settle()
			for _, m := range s.msgs {
				if m.delivered {
					s.deliver(m)
				}
			}
		})
}

func TestC05Archive(t *testing.T) {
	kit.Check(t, "one party starts up to 52 sessions one after another, of each of which messages in both directions are held back, stores keeping only serialized data; then everything held back of the latest 41 is delivered in any order; "+
		"non-trivial: more than five sessions, and at least three messages delivered under sessions that were not the current one",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			n := c.Int("sessions", 2, 41)
			if c.Chance("few", 1, 2) {
				n = c.Int("sessions", 2, 12)
			} else if c.Chance("more", 1, 3) {
				n = c.Int("sessions", 42, 52)
				c.Class("more sessions than are kept")
			}
			who := 0
			replies := 0
			kept := 0 // the first message of the oldest session still kept
			for k := 0; k < n; k++ {
				if k == n-41 {
					kept = len(s.msgs)
				}
				s.initiate(who, c.Chance("withPre", 1, 2))
				first := s.send(who, []byte{byte(k)})
				if c.Chance("held", 2, 3) {
					s.send(who, []byte{byte(k), 1})
				}
				s.deliver(first)
				if c.Chance("reply", 1, 3) {
					r := s.send(1-who, []byte{byte(k), 2})
					if c.Chance("arrives", 1, 2) {
						s.deliver(r)
						s.send(who, []byte{byte(k), 3})
					}
					replies++
				}
			}
			// a record keeps its current session and the latest 40 before it
			s.msgs = s.msgs[kept:]
			old := 0
			pend := s.pending()
			for len(pend) > 0 {
				i := c.Int("which", 0, len(pend)-1)
				m := pend[i]
				pend = append(pend[:i:i], pend[i+1:]...)
				if s.p[1-m.from].cur != m.base {
					old++
				}
				s.deliver(m)
				if c.Chance("again", 1, 5) {
					s.deliver(m)
				}
			}
			c.Step("%d sessions, %d replies, %d under older sessions", n, replies, old)
			c.Sig(n, replies, old)
			if n > 5 && old >= 3 {
				c.NonTrivial()
			}
			s.settle()
			for _, m := range s.msgs {
				if m.delivered {
					s.deliver(m)
				}
			}
		})
}
