//go:build go1.22

package axo

import (
	"bytes"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

// hostileKey draws the bytes of a key field.
func hostileKey(t *rapid.T) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "keykind") {
	case 0:
		return []byte{}
	case 1:
		return []byte{5}
	case 2:
		n := rapid.SampledFrom([]int{2, 31, 32, 34, 64, 65}).Draw(t, "keylen")
		return append([]byte{5}, kit.Fill(t, n-1)...)
	case 3:
		return append([]byte{byte(rapid.IntRange(0, 255).Draw(t, "keytype"))}, kit.Fill(t, 32)...)
	case 4:
		b := bytes.Repeat([]byte{0xff}, 33)
		b[0] = 5
		return b
	case 5:
		return append([]byte{5}, make([]byte, 32)...)
	default:
		k := ref.NewKeyPair()
		return append([]byte{5}, k.Pub[:]...)
	}
}

func hostileU32(t *rapid.T) uint64 {
	return rapid.SampledFrom([]uint64{0, 1, 2, 100, 1999, 2000, 2001, 1 << 16, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 33, 1<<64 - 1}).Draw(t, "u32")
}

func version(t *rapid.T) byte {
	return rapid.SampledFrom([]byte{0x33, 0x33, 0x33, 0x33, 0x30, 0x3f, 0x43, 0x22, 0, 0xff}).Draw(t, "version")
}

func hostileWM(t *rapid.T, known [][]byte) []byte {
	var fs []ref.Field
	drop := func(n string) bool { return rapid.IntRange(0, 9).Draw(t, "drop"+n) == 9 }
	if !drop("rk") {
		k := hostileKey(t)
		if len(known) > 0 && rapid.Bool().Draw(t, "knownkey") {
			k = rapid.SampledFrom(known).Draw(t, "which")
		}
		fs = append(fs, ref.B(1, k))
	}
	if !drop("ctr") {
		fs = append(fs, ref.V(2, hostileU32(t)))
	}
	if !drop("prev") {
		fs = append(fs, ref.V(3, hostileU32(t)))
	}
	if !drop("ct") {
		fs = append(fs, ref.B(4, kit.Bytes(80).Draw(t, "ct")))
	}
	if rapid.IntRange(0, 9).Draw(t, "extra") == 9 {
		fs = append(fs, ref.B(rapid.IntRange(1, 20).Draw(t, "fn"), kit.Bytes(20).Draw(t, "fv")))
	}
	out := append([]byte{version(t)}, ref.Enc(fs...)...)
	return append(out, kit.Fill(t, rapid.SampledFrom([]int{8, 8, 8, 0, 7, 1}).Draw(t, "maclen"))...)
}

func hostilePKWM(t *rapid.T, known [][]byte, ids []uint64) []byte {
	var fs []ref.Field
	drop := func(n string) bool { return rapid.IntRange(0, 9).Draw(t, "drop"+n) == 9 }
	id := func() uint64 {
		if rapid.Bool().Draw(t, "realid") {
			return rapid.SampledFrom(ids).Draw(t, "id")
		}
		return hostileU32(t)
	}
	if !drop("reg") {
		fs = append(fs, ref.V(5, hostileU32(t)))
	}
	if !drop("pre") {
		fs = append(fs, ref.V(1, id()))
	}
	if !drop("spk") {
		fs = append(fs, ref.V(6, id()))
	}
	if !drop("base") {
		fs = append(fs, ref.B(2, hostileKey(t)))
	}
	if !drop("ik") {
		k := hostileKey(t)
		if len(known) > 0 && rapid.Bool().Draw(t, "knownik") {
			k = rapid.SampledFrom(known).Draw(t, "which")
		}
		fs = append(fs, ref.B(3, k))
	}
	if !drop("msg") {
		in := hostileWM(t, known)
		if rapid.IntRange(0, 5).Draw(t, "junk") == 5 {
			in = kit.Bytes(60).Draw(t, "inner")
		}
		fs = append(fs, ref.B(4, in))
	}
	return append([]byte{version(t)}, ref.Enc(fs...)...)
}

func TestC08Hostile(t *testing.T) {
	kit.Check(t, "arbitrary, structured and mutated bytes given as messages to parties without, with a new and with an established session; "+
		"non-trivial: at least one input got past the outer parser",
		func(c *kit.Case) {
			c.SeedRand()
			s := newSim(c)
			state := c.Int("state", 0, 3)
			if state >= 1 {
				s.initiate(0, c.Chance("withPre", 1, 2))
			}
			if state >= 2 {
				s.pingpong(c.Int("pp", 1, 5))
			}
			var held *message
			if state == 3 {
				held = s.send(1, []byte("held"))
			}
			pid, _ := s.p[1].newPreKey()
			ids := []uint64{uint64(pid), uint64(s.p[1].spkID), uint64(s.p[0].spkID), 0}
			for k := c.Int("inputs", 1, 6); k > 0; k-- {
				to := c.Int("to", 0, 1)
				typ := int32(1 + 2*c.Int("typ", 0, 1))
				var raw []byte
				known := [][]byte{append([]byte{5}, s.p[1-to].kp.Pub[:]...), append([]byte{5}, s.p[to].kp.Pub[:]...), append([]byte{5}, s.p[to].spk.Pub[:]...)}
				for _, m := range s.msgs {
					known = append(known, append([]byte{5}, m.chain[:]...))
				}
				kind := c.Int("kind", 0, 6)
				switch {
				case kind == 0:
					raw = kit.Big(200).Draw(c.T, "raw")
				case kind == 1:
					raw = append([]byte{version(c.T)}, kit.Bytes(200).Draw(c.T, "raw")...)
				case kind <= 3 && typ == 1:
					raw = hostileWM(c.T, known)
				case kind <= 3:
					raw = hostilePKWM(c.T, known, ids)
				default:
					if len(s.msgs) == 0 {
						raw = hostilePKWM(c.T, known, ids)
						break
					}
					m := s.msgs[c.Int("msg", 0, len(s.msgs)-1)]
					raw, _ = kit.Mutate(c.T, m.raw)
					if c.Chance("twice", 1, 3) {
						raw, _ = kit.Mutate(c.T, raw)
					}
					if kind == 5 { // fed as the other type
						typ = 4 - m.typ
					} else {
						typ = m.typ
						to = 1 - m.from
					}
				}
				c.NoPanic("loading", func() {
					if typ == 1 {
						if _, err := axolotl.LoadWhisperMessage(append([]byte{}, raw...)); err == nil {
							c.NonTrivial()
							c.Class("parsed")
						}
					} else if _, err := axolotl.LoadPreKeyWhisperMessage(append([]byte{}, raw...)); err == nil {
						c.NonTrivial()
						c.Class("parsed")
					}
				})
				t0 := time.Now()
				c.Step("state %d to %d type %d: %x", state, to, typ, raw)
				ok := s.attack(to, typ, raw, "hostile input")
				if ok {
					c.Class("carried a genuine message")
				}
				if d := time.Since(t0); d > 20*time.Second {
					c.Bad("handling %d bytes took %v", len(raw), d)
				}
			}
			// afterwards everything works as before
			if held != nil && !held.delivered {
				s.deliver(held)
			}
			if state >= 1 {
				s.settle()
			}
		})
}

func TestC08Primitives(t *testing.T) {
	kit.Check(t, "records, ciphertexts and encryptions that hostile data can reach, with arbitrary bytes; non-trivial: the input is not empty",
		func(c *kit.Case) {
			c.SeedRand()
			key := kit.Fill(c.T, 32)
			b := kit.Bytes(200).Draw(c.T, "data")
			c.Sig(b, key)
			if len(b) > 0 {
				c.NonTrivial()
			}
			c.NoPanic("Decrypt", func() {
				pt, err := axolotl.Decrypt(key, append([]byte{}, b...))
				if len(b) >= 32 && len(b)%16 == 0 {
					// the padding bytes before the last one are not looked at (the MAC covers them)
					want, werr := ref.CBCDecrypt(key, b[:16], b[16:])
					if werr == nil && (err != nil || !bytes.Equal(want, pt)) {
						c.Bad("Decrypt of %x: %v", b, err)
					}
				} else if err == nil {
					c.Bad("Decrypt accepted %d bytes", len(b))
				}
			})
			iv := kit.Fill(c.T, 16)
			c.NoPanic("Encrypt", func() {
				ct, err := axolotl.Encrypt(key, append([]byte{}, iv...), append([]byte{}, b...))
				if err != nil || !bytes.Equal(ct, ref.CBCEncrypt(key, iv, b)) {
					c.Bad("Encrypt of %x gave %x (%v)", b, ct, err)
				}
				pt, err := axolotl.Decrypt(key, append(append([]byte{}, iv...), ct...))
				if err != nil || !bytes.Equal(pt, b) {
					c.Bad("Decrypt(Encrypt(%x)) gave %x (%v)", b, pt, err)
				}
			})
			// a party without session
			s := newSim(c)
			c.NoPanic("encrypting without a session", func() {
				raw, _, err := s.p[0].cipher(s.p[1]).SessionEncryptMessage(append([]byte{}, b...))
				if err == nil || len(raw) != 0 {
					c.Bad("a ciphertext without a session: %x (%v)", raw, err)
				}
			})
		})
}
