//go:build go1.22

package axo

import (
	"testing"

	"github.com/signal-golang/textsecure/zzverif/kit"
)

func TestC01Delivery(t *testing.T) {
	kit.Check(t, "histories of two parties over one session: send, burst, deliver in any order, lose, reload; "+
		"non-trivial: at least two ratchet steps and at least one message delivered out of order or after a newer chain",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			live := c.Chance("live", 1, 3)
			s.p[0].st.liveMode, s.p[1].st.liveMode = live, live
			s.initiate(0, c.Chance("withPre", 1, 2))
			big := c.Chance("big", 1, 40)
			steps := c.Int("steps", 1, 60)
			ooo, late := 0, 0
			for k := 0; k < steps; k++ {
				switch op := c.Int("op", 0, 10); {
				case op <= 3: // send
					i := c.Int("who", 0, 1)
					if !s.has(i) {
						i = 0
					}
					m := s.send(i, kit.Big(400).Draw(c.T, "pt"))
					c.Step("send %v", m)
				case op <= 7: // deliver
					pend := s.pending()
					var ok []*message
					for _, m := range pend {
						if !live || s.must(m) {
							ok = append(ok, m)
						}
					}
					if len(ok) == 0 {
						continue
					}
					m := s.pickPending(ok)
					ms := s.p[1-m.from].sessions[m.base]
					if ms != nil && ms.chains[m.chain] != nil {
						if m.ctr != ms.chains[m.chain].next {
							ooo++
						}
						if ms.order[len(ms.order)-1] != m.chain {
							late++
							c.Class("delivery on an older chain")
						}
					} else if m.ctr > 0 {
						ooo++
					}
					must := s.must(m)
					got := s.deliver(m)
					if !must {
						c.Class("delivery without claim")
					}
					c.Step("deliver %v=%v", m, got)
				case op == 8: // burst
					i := c.Int("who", 0, 1)
					if !s.has(i) {
						i = 0
					}
					n := c.Int("burst", 2, 12)
					if c.Chance("midburst", 1, 120) {
						n = c.Int("midsize", 50, 600)
						c.Class("burst of up to 600")
					}
					if big {
						n = c.Int("bigburst", 1985, 2004)
						big = false
						c.Class("burst around the window")
					}
					for j := 0; j < n; j++ {
						s.send(i, []byte{byte(j)})
					}
					c.Step("burst %d from %d", n, i)
				case op == 9:
					n := c.Int("pp", 2, 9)
					s.pingpong(n)
					c.Step("pingpong %d", n)
				default:
					i := c.Int("who", 0, 1)
					s.p[i].st.reload()
					c.Step("reload %d", i)
				}
			}
			steps = len(s.p[0].chains()) + len(s.p[1].chains())
			if steps >= 2 && ooo+late > 0 {
				c.NonTrivial()
			}
			if steps > 6 {
				c.Class("more than six chains")
			}
			if len(s.p[0].chains()) > 5 || len(s.p[1].chains()) > 5 {
				c.Class("a party saw more than five chains")
			}
			s.settle()
		})
}

func (p *party) chains() [][32]byte {
	var out [][32]byte
	for _, ms := range p.sessions {
		out = append(out, ms.order...)
	}
	return out
}
