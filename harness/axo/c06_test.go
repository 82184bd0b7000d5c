//go:build go1.22

package axo

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// sched runs tasks one at a time; at every store operation the next task is drawn.
type sched struct {
	c      *kit.Case
	tasks  []*task
	holder *task
	ev     chan *task
	trace  []byte
}
type task struct {
	id     int
	s      *sched
	resume chan bool
	wants  bool // waiting for the session lock
	done   bool
	out    bool // running somewhere we cannot see (blocked inside the code under test)
	panicV any
	run    func(st *schedStore)
}

// schedStore is one task's view of the shared store.
type schedStore struct {
	*memStore
	t *task
}

func (t *task) yield() {
	t.s.ev <- t
	<-t.resume
}
func (s *schedStore) Lock() {
	s.t.wants = true
	s.t.yield()
}
func (s *schedStore) Unlock() {
	s.t.s.holder = nil
	s.t.yield()
}
func (s *schedStore) LoadSession(r string, d uint32) (*axolotl.SessionRecord, error) {
	rec, err := s.memStore.LoadSession(r, d)
	s.t.yield()
	return rec, err
}
func (s *schedStore) StoreSession(r string, d uint32, rec *axolotl.SessionRecord) error {
	s.t.yield()
	err := s.memStore.StoreSession(r, d, rec)
	s.t.yield()
	return err
}

func (s *sched) add(run func(st *schedStore)) {
	s.tasks = append(s.tasks, &task{id: len(s.tasks), s: s, resume: make(chan bool), run: run})
}

// runAll executes all tasks under drawn schedules; it returns false if they get stuck.
func (s *sched) runAll(st *memStore) bool {
	s.ev = make(chan *task, len(s.tasks)*2+2)
	for _, t := range s.tasks {
		t := t
		go func() {
			<-t.resume
			defer func() {
				t.panicV = recover()
				t.done = true
				s.ev <- t
			}()
			t.run(&schedStore{memStore: st, t: t})
		}()
	}
	for {
		var ready []*task
		left, out := 0, 0
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			left++
			if t.out {
				out++
				continue
			}
			if t.wants && s.holder != nil {
				continue
			}
			ready = append(ready, t)
		}
		if left == 0 {
			return true
		}
		if len(ready) == 0 {
			if out == 0 {
				return false
			}
			select {
			case t := <-s.ev:
				t.out = false
			case <-time.After(10 * time.Second):
				return false
			}
			continue
		}
		t := ready[s.c.Int("next", 0, len(ready)-1)]
		s.trace = append(s.trace, byte('0'+t.id))
		if t.wants {
			t.wants = false
			s.holder = t
		}
		t.resume <- true
	wait:
		for {
			select {
			case e := <-s.ev:
				e.out = false
				if e == t {
					break wait
				}
			case <-time.After(300 * time.Millisecond):
				t.out = true
				break wait
			}
		}
		if t.panicV != nil {
			s.c.Bad("panic in a concurrent operation: %v", t.panicV)
		}
	}
}

func TestC06Concurrent(t *testing.T) {
	kit.Check(t, "rounds of concurrent encryptions and decryptions on one session under drawn schedules of their store operations, with failing stores in some; "+
		"non-trivial: at least three concurrent encryptions that the schedule really interleaved",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			s.initiate(0, c.Chance("withPre", 1, 2))
			if c.Chance("established", 1, 2) {
				s.pingpong(c.Int("pp", 1, 4))
			}
			me, peer := s.p[0], s.p[1]
			used := map[string]bool{}
			rounds := c.Int("rounds", 1, 3)
			inter := 0
			for r := 0; r < rounds; r++ {
				// messages of the peer to be decrypted meanwhile
				var in []*message
				if s.has(1) {
					for k := c.Int("in", 0, 2); k > 0; k-- {
						in = append(in, s.send(1, []byte(fmt.Sprintf("in %d", k))))
					}
				}
				sc := &sched{c: c}
				type result struct {
					raw []byte
					typ int32
					err error
					pt  []byte
				}
				n := c.Int("senders", 2, 4)
				per := c.Int("per", 1, 3)
				results := make([][]result, n)
				fail := map[int]bool{}
				if c.Chance("faults", 1, 3) {
					for k := c.Int("nfaults", 1, 3); k > 0; k-- {
						fail[c.Int("fault", 0, n*per)] = true
					}
				}
				nstore := 0
				me.st.fail = func(op string) bool {
					if op == "StoreSession" {
						nstore++
						return fail[nstore-1]
					}
					return false
				}
				for i := 0; i < n; i++ {
					i := i
					sc.add(func(st *schedStore) {
						for k := 0; k < per; k++ {
							pt := []byte(fmt.Sprintf("out %d %d %d", r, i, k))
							raw, typ, err := axolotl.NewSessionCipher(st, st, st, st, peer.name, peer.dev).SessionEncryptMessage(append([]byte{}, pt...))
							results[i] = append(results[i], result{append([]byte{}, raw...), typ, err, pt})
						}
					})
				}
				dec := make([]result, len(in))
				decTwice := c.Chance("twice", 1, 2)
				dec2 := make([]result, len(in))
				for i := range in {
					i := i
					sc.add(func(st *schedStore) {
						pt, err := decryptAs(axolotl.NewSessionCipher(st, st, st, st, peer.name, peer.dev), in[i].typ, in[i].raw)
						dec[i] = result{pt: pt, err: err}
					})
					if decTwice {
						sc.add(func(st *schedStore) {
							pt, err := decryptAs(axolotl.NewSessionCipher(st, st, st, st, peer.name, peer.dev), in[i].typ, in[i].raw)
							dec2[i] = result{pt: pt, err: err}
						})
					}
				}
				ok := sc.runAll(me.st)
				me.st.fail = nil
				c.Step("round %d: %d senders x %d, %d incoming, faults %v, schedule %s", r, n, per, len(in), fail, sc.trace)
				if !ok {
					c.Bad("the operations got stuck (schedule %s)", sc.trace)
				}
				for i := 1; i+1 < len(sc.trace); i++ {
					if sc.trace[i] != sc.trace[i-1] {
						inter++
					}
				}
				// results
				for i := range in {
					succ := 0
					for _, d := range []result{dec[i], dec2[i]} {
						if d.err == nil && d.pt != nil {
							succ++
							if !bytes.Equal(d.pt, in[i].pt) {
								c.Bad("concurrent decryption gave %q, sent was %q", d.pt, in[i].pt)
							}
						}
					}
					if succ > 1 {
						c.Bad("a message was delivered twice by concurrent decryptions")
					}
					if succ == 1 {
						s.noteDelivered(in[i])
					} else if len(fail) == 0 {
						c.Bad("a message was not delivered by concurrent decryptions: %v / %v", dec[i].err, dec2[i].err)
					}
				}
				for i := range results {
					for _, x := range results[i] {
						if x.err != nil {
							if len(x.raw) != 0 {
								c.Bad("encryption reported %v and still gave a ciphertext", x.err)
							}
							if len(fail) == 0 {
								c.Bad("encryption failed without any fault: %v", x.err)
							}
							c.Class("encryption refused because of a fault")
							continue
						}
						w, err := ref.ParseWM(innerLoose(x.typ, x.raw))
						if err != nil {
							c.Bad("ciphertext does not parse: %v", err)
						}
						k := fmt.Sprintf("%x/%d", w.Ratchet, w.Counter)
						if used[k] {
							c.Bad("two ciphertexts with the same ratchet key and counter %d (schedule %s)", w.Counter, sc.trace)
						}
						used[k] = true
						pt, err := s.decryptRaw(1, x.typ, x.raw)
						if err != nil || !bytes.Equal(pt, x.pt) {
							c.Bad("the peer cannot read a message encrypted concurrently: %v (schedule %s)", err, sc.trace)
						}
					}
				}
				// faults may have left incoming messages undelivered: they still can be delivered
				for _, m := range in {
					if !m.delivered {
						if pt, err := s.decryptRaw(0, m.typ, m.raw); err != nil || !bytes.Equal(pt, m.pt) {
							c.Bad("a message whose storing failed cannot be delivered later: %v", err)
						}
						s.noteDelivered(m)
					}
				}
				if n*per >= 3 && inter >= 3 {
					c.NonTrivial()
				}
			}
		})
}
