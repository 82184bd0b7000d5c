//go:build go1.22

// Package kit is the small layer between rapid and the check runner: it counts
// what was generated, keeps samples, and marks violations so that the runner
// can tell them from errors of the harness.
package kit

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"

	crand "crypto/rand"

	log "github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

const (
	violation = "VERIF-VIOLATION: "
	harness   = "VERIF-HARNESS: "
)

// ExitCalled is the panic value used when the code under test calls log.Fatal.
type ExitCalled struct{ Code int }

func init() {
	log.SetOutput(io.Discard)
	log.StandardLogger().ExitFunc = func(code int) { panic(ExitCalled{code}) }
}

type stats struct {
	mu       sync.Mutex
	Test     string         `json:"test"`
	Rule     string         `json:"rule"`
	Evals    int            `json:"evaluations"`
	NonTriv  int            `json:"nontrivial"`
	Classes  map[string]int `json:"classes"`
	Hashes   []string       `json:"hashes"`
	Samples  []string       `json:"samples"`
	Excluded map[string]int `json:"excluded"`
	seen     map[uint64]bool
}

// Case is one generated case.
type Case struct {
	*rapid.T
	s       *stats
	nt      bool
	sig     uint64
	hasSig  bool
	desc    []string
	excl    []string
	classes map[string]int
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Env returns an integer knob from the environment.
func Env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Known reports whether the known-findings file lists this key.
func Known(key string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == key {
			return true
		}
	}
	return false
}

// Check runs prop over generated cases.
func Check(t *testing.T, rule string, prop func(c *Case)) {
	s := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, Excluded: map[string]int{}, seen: map[uint64]bool{}}
	t.Cleanup(func() { s.write() })
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, s: s, classes: map[string]int{}}
		defer func() {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.Evals++
			for k, n := range c.classes {
				s.Classes[k] += n
			}
			for _, k := range c.excl {
				s.Excluded[k]++
			}
			if c.nt {
				s.NonTriv++
				h := c.sig
				if !c.hasSig {
					f := fnv.New64a()
					io.WriteString(f, strings.Join(c.desc, "|"))
					h = f.Sum64()
				}
				if !s.seen[h] {
					s.seen[h] = true
					n := len(s.seen)
					if len(s.Samples) < 6 && (n == 1 || n == 3 || n == 20 || n == 100 || n == 500 || n == 2000) {
						d := strings.Join(c.desc, "; ")
						if len(d) > 1500 {
							d = d[:1500] + "..."
						}
						s.Samples = append(s.Samples, d)
					}
				}
			}
		}()
		done := make(chan bool)
		defer close(done)
		go watch(done)
		prop(c)
	})
}

func (s *stats) write() {
	dir := os.Getenv("VERIF_EV_OUT")
	if dir == "" {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for h := range s.seen {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], h)
		s.Hashes = append(s.Hashes, hex.EncodeToString(b[:]))
	}
	b, _ := json.Marshal(s)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("ev-%s-%d.json", strings.ReplaceAll(s.Test, "/", "_"), os.Getpid())), b, 0600)
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial() { c.nt = true }

// Sig sets what makes the case distinct (by default its description).
func (c *Case) Sig(parts ...any) {
	f := fnv.New64a()
	if c.hasSig {
		fmt.Fprintf(f, "%x|", c.sig)
	}
	fmt.Fprintln(f, parts...)
	c.sig, c.hasSig = f.Sum64(), true
}

// Class counts a class of cases or steps.
func (c *Case) Class(name string) { c.classes[name]++ }

// Excluded counts a case cut short by a listed known finding.
func (c *Case) Excluded(key string) { c.excl = append(c.excl, key) }

// Step appends to the description of the case.
func (c *Case) Step(format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	c.desc = append(c.desc, d)
	c.T.Logf("%s", d)
}

// Bad reports a violation of the property.
func (c *Case) Bad(format string, args ...any) {
	c.T.Helper()
	c.T.Fatalf(violation+format, args...)
}

// Broken reports an error of the harness (not a verdict).
func (c *Case) Broken(format string, args ...any) {
	c.T.Helper()
	c.T.Fatalf(harness+format, args...)
}

// NoPanic runs f and reports a panic or exit of the code under test as a violation.
func (c *Case) NoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if isRapid(r) {
				panic(r)
			}
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			c.T.Fatalf(violation+"%s: panic: %v\n%s", what, r, buf)
		}
	}()
	f()
}

func isRapid(r any) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.")
}

type lockedReader struct {
	mu sync.Mutex
	r  *mrand.ChaCha8
}

func (l *lockedReader) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Read(p)
}

var realRand = crand.Reader

// RealRand is the system's randomness, whatever SeedRand did.
func RealRand() io.Reader { return realRand }

// SeedRand makes crypto/rand a function of the case, so that failures replay.
func (c *Case) SeedRand() {
	var seed [32]byte
	binary.LittleEndian.PutUint64(seed[:], rapid.Uint64().Draw(c.T, "randseed"))
	crand.Reader = &lockedReader{r: mrand.NewChaCha8(seed)}
}

// UnseedRand restores the system's randomness.
func UnseedRand() { crand.Reader = realRand }

// Bytes draws a byte string whose length is spread over small sizes and up to max.
func Bytes(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		var n int
		switch rapid.IntRange(0, 5).Draw(t, "lenclass") {
		case 0:
			n = 0
		case 1:
			n = rapid.IntRange(0, min(max, 3)).Draw(t, "len")
		case 2, 3:
			n = rapid.IntRange(0, min(max, 48)).Draw(t, "len")
		case 4:
			k := rapid.IntRange(0, max/16).Draw(t, "blocks")
			n = k*16 + rapid.IntRange(-1, 1).Draw(t, "off")
			if n < 0 {
				n = 0
			}
			if n > max {
				n = max
			}
		default:
			n = rapid.IntRange(0, max).Draw(t, "len")
		}
		return Fill(t, n)
	})
}

// Fill makes n bytes, cheaply in terms of drawn choices: constant, special or pseudo-random.
// Big is like Bytes, but sometimes far longer: around a power of two up to 128 KiB.
func Big(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 24).Draw(t, "big") != 17 {
			return Bytes(max).Draw(t, "bytes")
		}
		n := 1<<rapid.IntRange(8, 17).Draw(t, "log") + rapid.IntRange(-17, 17).Draw(t, "off")
		return Fill(t, n)
	})
}

func Fill(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	switch rapid.IntRange(0, 4).Draw(t, "fill") {
	case 0:
		// zeros
	case 1:
		v := rapid.SampledFrom([]byte{0x80, 0xff, 1, 16, 0x0a, 'a'}).Draw(t, "const")
		for i := range b {
			b[i] = v
		}
	case 2:
		if n <= 64 {
			for i := range b {
				b[i] = rapid.Byte().Draw(t, "b")
			}
			break
		}
		fallthrough
	case 3:
		r := mrand.New(mrand.NewPCG(rapid.Uint64().Draw(t, "bytesseed"), 7))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 4:
		// pseudo-random with a tail that looks like padding
		r := mrand.New(mrand.NewPCG(rapid.Uint64().Draw(t, "bytesseed"), 9))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		tail := rapid.SampledFrom([]string{"\x80", "\x80\x00", "\x00\x00", "\x80\x80\x00\x00", "\x10", "\x01", "\x00"}).Draw(t, "tail")
		if len(tail) <= n {
			copy(b[n-len(tail):], tail)
		}
	}
	return b
}

// Pick draws an element of xs.
func Pick[T any](t *rapid.T, name string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, name)]
}

// refusals are the statuses that tell that a request was not done.
var refusals = []int{300, 304, 400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 411, 412, 413, 415, 417, 418, 422, 423, 424, 425, 426, 428, 429, 431, 440, 451, 460, 499,
	500, 501, 502, 503, 504, 505, 507, 508, 509, 511, 520, 598, 599}

// Refusal draws a status that tells that a request was not done: one of the
// common ones, or any but those left out.
func Refusal(t *rapid.T, name string, common []int, without ...int) int {
	if rapid.IntRange(0, 2).Draw(t, name+" common") != 2 {
		return Pick(t, name, common)
	}
	for {
		n := Pick(t, name, refusals)
		found := false
		for _, x := range without {
			found = found || x == n
		}
		if !found {
			return n
		}
		name += "'"
	}
}

// Int draws an int in [lo, hi].
func (c *Case) Int(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }

// Chance is true with about num/den probability (shrinks to false).
func (c *Case) Chance(name string, num, den int) bool {
	return rapid.IntRange(0, den-1).Draw(c.T, name) >= den-num
}

// Mutate changes b in some way that makes it different; it returns the new bytes and a description.
func Mutate(t *rapid.T, b []byte) ([]byte, string) {
	out := append([]byte{}, b...)
	if len(out) == 0 {
		return []byte{rapid.Byte().Draw(t, "mb")}, "one byte instead of none"
	}
	switch rapid.IntRange(0, 5).Draw(t, "mutation") {
	case 0, 1:
		i := rapid.IntRange(0, len(out)-1).Draw(t, "mpos")
		bit := rapid.IntRange(0, 7).Draw(t, "mbit")
		out[i] ^= 1 << bit
		return out, fmt.Sprintf("bit %d of byte %d of %d", bit, i, len(b))
	case 2:
		// near the end or the start
		i := rapid.IntRange(0, min(len(out)-1, 40)).Draw(t, "mpos")
		if rapid.Bool().Draw(t, "mend") {
			i = len(out) - 1 - i
		}
		x := byte(rapid.IntRange(1, 255).Draw(t, "mxor"))
		out[i] ^= x
		return out, fmt.Sprintf("byte %d of %d xor %02x", i, len(b), x)
	case 3:
		n := rapid.IntRange(0, len(out)-1).Draw(t, "mcut")
		return out[:n], fmt.Sprintf("cut to %d of %d", n, len(b))
	case 4:
		n := rapid.IntRange(1, 40).Draw(t, "mext")
		return append(out, make([]byte, n)...), fmt.Sprintf("extended by %d", n)
	default:
		n := rapid.IntRange(1, len(out)).Draw(t, "mdrop")
		return out[n:], fmt.Sprintf("first %d of %d dropped", n, len(b))
	}
}

// Mutator draws a mutation to be applied later (in another goroutine, say) to
// bytes of any length; what it returns always differs from what it is given.
func Mutator(t *rapid.T) func([]byte) []byte {
	kind := rapid.IntRange(0, 5).Draw(t, "mutation")
	pos := rapid.IntRange(0, 1000).Draw(t, "mpos")
	x := byte(rapid.IntRange(1, 255).Draw(t, "mxor"))
	return func(b []byte) []byte {
		out := append([]byte{}, b...)
		if len(out) == 0 {
			return []byte{x}
		}
		switch kind {
		case 0, 1:
			out[pos%len(out)] ^= 1 << (x & 7)
		case 2:
			out[len(out)-1-pos%min(len(out), 40)] ^= x
		case 3:
			return out[:pos%len(out)]
		case 4:
			return append(out, make([]byte, 1+pos%40)...)
		default:
			return out[1+pos%len(out):]
		}
		return out
	}
}

// Scratch makes a directory for one case and removes it afterwards.
func (c *Case) Scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		c.Broken("scratch: %v", err)
	}
	c.T.Cleanup(func() { os.RemoveAll(d) })
	return d
}
