//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/unidentifiedAccess"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// sink37 takes what the library generated.
type sink37 struct {
	c *kit.Case
	// secret: the bytes of a value that must be fresh; small: a number of a few bits
	secret func(kind string, b []byte)
	small  func(kind string, v uint32, bits int)
}

var plainOps37 = []string{"password", "signaling key", "registration id", "identity key", "key pair", "group id", "profile key", "access token", "provisioning", "encrypted file", "salt"}
var worldOps37 = []string{"prekeys", "attachment", "profile", "discovery", "session"}

func (s *sink37) key(what string, priv, pub [32]byte) {
	if priv[0]&7 != 0 || priv[31]&0xc0 != 0x40 {
		s.c.Bad("%s: the private key %x is not a Curve25519 scalar", what, priv)
	}
	if ref.FromPriv(priv).Pub != pub {
		s.c.Bad("%s: the public key does not belong to the private key", what)
	}
	s.secret(what, priv[1:31])
	s.secret(what+" (public)", pub[:])
}

// plain37 makes one of the values that need no server.
func plain37(c *kit.Case, s *sink37, op string) {
	switch op {
	case "password":
		p := generatePassword()
		b, err := base64.RawStdEncoding.DecodeString(p)
		if err != nil || len(b) != 16 {
			c.Bad("the password %q is not 16 bytes in base 64 without padding", p)
		}
		s.secret(op, b)
	case "signaling key":
		b := generateSignalingKey()
		if len(b) != 52 || b[0] != 1 {
			c.Bad("signaling key %x", b)
		}
		s.secret(op, b[1:])
	case "registration id":
		v := generateRegistrationID()
		if v > 0x3fff {
			c.Bad("the registration id %d has more than 14 bits", v)
		}
		s.small(op, v, 14)
	case "identity key":
		kp := axolotl.GenerateIdentityKeyPair()
		s.key(op, *kp.PrivateKey.Key(), *kp.PublicKey.Key())
	case "key pair":
		kp := axolotl.NewECKeyPair()
		s.key(op, *kp.PrivateKey.Key(), *kp.PublicKey.Key())
	case "group id":
		b := newGroupID()
		if len(b) != 16 {
			c.Bad("the group id %x is not 16 bytes", b)
		}
		s.secret(op, b)
	case "profile key":
		b := profiles.GenerateProfileKey()
		if len(b) != 32 {
			c.Bad("the profile key %x is not 32 bytes", b)
		}
		s.secret(op, b)
	case "access token":
		b, err := unidentifiedAccess.GetTargetUnidentifiedAccessKey(contacts.Contact{})
		if err != nil || len(b) != 16 {
			c.Bad("access key %x, %v", b, err)
		}
		s.secret(op, b)
	case "provisioning":
		dev := ref.NewKeyPair()
		env, err := provisioningCipher(&signalservice.ProvisionMessage{Number: proto.String(ourTel)}, axolotl.NewECPublicKey(dev.Pub[:]))
		if err != nil {
			c.Bad("provisioning: %v", err)
		}
		f, err := ref.Dec(env)
		if err != nil || len(f[1].Bytes) != 33 || len(f[2].Bytes) < 17 {
			c.Bad("provisioning envelope %x, %v", env, err)
		}
		s.secret("provisioning key", f[1].Bytes[1:])
		s.secret("provisioning iv", f[2].Bytes[1:17])
	case "salt":
		d := c.Scratch()
		if _, err := newStore("password", d); err != nil {
			c.Bad("new store: %v", err)
		}
		b, err := os.ReadFile(d + "/salt")
		if err != nil || len(b) != 8 {
			c.Bad("salt %x, %v", b, err)
		}
		s.secret(op, b)
	case "encrypted file":
		d := c.Scratch()
		st, err := newStore("password", d)
		if err != nil {
			c.Bad("new store: %v", err)
		}
		for i := 0; i < 2; i++ {
			b, err := st.encrypt([]byte("the same text"))
			if err != nil || len(b) != 16+16+32 {
				c.Bad("encrypting a file: %x, %v", b, err)
			}
			s.secret("file iv", b[:16])
		}
	}
}

func world37(c *kit.Case, s *sink37, ops []string) {
	w := newWorld(c, "")
	e := w.withEnclave()
	old := w.extra
	w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
		if r.Method == "PUT" && strings.HasPrefix(r.URL.Path, "/v1/profile") {
			rw.WriteHeader(200)
			return true
		}
		return old(rw, r, body)
	}
	client.GetLocalContacts = func() ([]contacts.Contact, error) {
		return []contacts.Contact{{Tel: "+31611111111"}, {Tel: "+31611111112"}}, nil
	}
	peers := 0
	for _, op := range ops {
		w.takeReqs()
		w.takeAcc()
		switch op {
		case "prekeys":
			if err := generatePreKeys(); err != nil {
				c.Bad("generating prekeys: %v", err)
			}
			if err := generatePreKeyState(); err != nil {
				c.Bad("generating prekeys: %v", err)
			}
			n, low := 0, uint32(1<<31)
			for _, r := range preKeyRecords {
				s.secret("prekey", r.Pkrs.PrivateKey[1:31])
				s.secret("prekey (public)", r.Pkrs.PublicKey[:])
				if id := r.Pkrs.GetId(); id != 0xffffff {
					n++
					if id == 0 || id > 0xffffff {
						c.Bad("a prekey has the id %d", id)
					}
					low = min(low, id)
				}
			}
			if n != 100 {
				c.Bad("%d prekeys", n)
			}
			s.small("first prekey id", low, 23)
			if id := signedKey.Spkrs.GetId(); id == 0 || id > 0xffffff {
				c.Bad("the signed prekey has the id %d", id)
			}
			s.small("signed prekey id", signedKey.Spkrs.GetId(), 23)
			s.secret("signed prekey", signedKey.Spkrs.PrivateKey[1:31])
			s.secret("signed prekey (public)", signedKey.Spkrs.PublicKey)
			// the next batch starts from nothing
			if err := os.RemoveAll(textSecureStore.preKeysDir); err != nil {
				c.Broken("%v", err)
			}
		case "attachment":
			before := w.nextBlob
			a, err := uploadAttachment(strings.NewReader("the same attachment"), "text/plain")
			if err != nil || w.nextBlob != before+1 {
				c.Bad("upload: %v", err)
			}
			blob := w.blobs[fmt.Sprintf("blob%d", w.nextBlob)]
			if len(a.keys) != 64 || len(blob) != 16+32+32 {
				c.Bad("attachment with a key of %d bytes and a blob of %d", len(a.keys), len(blob))
			}
			s.secret("attachment keys", a.keys)
			s.secret("attachment iv", blob[:16])
		case "profile":
			// the profile it asks for afterwards does not matter here
			profiles.UpdateProfile(bytes.Repeat([]byte{7}, 32), ourUUID, "the same name")
			for _, r := range w.takeReqs() {
				if r.method != "PUT" {
					continue
				}
				var in struct{ Name, About, AboutEmoji []byte }
				if err := json.Unmarshal(r.body, &in); err != nil || len(in.Name) < 12 {
					c.Bad("profile %s", r.body)
				}
				for _, b := range [][]byte{in.Name, in.About, in.AboutEmoji} {
					if len(b) >= 12 {
						s.secret("profile nonce", b[:12])
					}
				}
			}
		case "discovery":
			if _, err := GetRegisteredContacts(); err != nil {
				c.Bad("discovery: %v", err)
			}
			if len(e.problems) > 0 {
				c.Bad("discovery: %s", e.problems[0])
			}
			for _, r := range w.takeReqs() {
				switch {
				case strings.HasPrefix(r.path, "/v1/attestation/"):
					var in struct{ ClientPublic []byte }
					json.Unmarshal(r.body, &in)
					s.secret("discovery key", in.ClientPublic)
				case strings.HasPrefix(r.path, "/v1/discovery/"):
					var in struct {
						Commitment, Iv []byte
						Envelopes      map[string]struct{ Iv, Data []byte }
					}
					json.Unmarshal(r.body, &in)
					s.secret("discovery commitment", in.Commitment)
					s.secret("discovery iv", in.Iv)
					for _, v := range in.Envelopes {
						s.secret("discovery envelope iv", v.Iv)
						s.secret("discovery query key (encrypted)", v.Data)
					}
				}
			}
		case "session":
			peers++
			p := newPeer(fmt.Sprintf("22222222-aaaa-4bbb-8ccc-%012d", peers), 1)
			w.peers[p.uuid] = p
			base := map[[32]byte]bool{}
			for i := 0; i < 3; i++ {
				if _, err := SendMessage(p.uuid, "hello", 0); err != nil {
					c.Bad("sending: %v", err)
				}
				for _, a := range w.takeAcc() {
					for _, m := range a.msgs {
						b, _ := base64.StdEncoding.DecodeString(m.Content)
						wm, err := (*ref.WM)(nil), error(nil)
						if m.Type == 3 {
							pk, err := ref.ParsePKWM(b)
							if err != nil {
								c.Bad("message: %v", err)
							}
							if !base[pk.Base] {
								base[pk.Base] = true
								s.secret("base key", pk.Base[:])
							}
							wm = pk.Msg
						} else if wm, err = ref.ParseWM(b); err != nil {
							c.Bad("message: %v", err)
						}
						if !base[wm.Ratchet] {
							base[wm.Ratchet] = true
							s.secret("ratchet key", wm.Ratchet[:])
						}
						if _, err := p.devs[1].receive(m.Type, b); err != nil {
							c.Bad("message: %v", err)
						}
					}
				}
				typ, b := p.devs[1].send(w.ourBundle(true), padded37())
				if err := w.deliver(p, 1, typ, b, uint64(1000+i)); err != nil {
					c.Bad("receiving: %v", err)
				}
			}
			if len(base) != 4 {
				c.Bad("three messages and their answers lead to %d base and ratchet keys instead of four", len(base))
			}
		}
	}
	if len(w.problems) > 0 {
		c.Bad("%s", w.problems[0])
	}
}

func padded37() []byte {
	b, err := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: proto.String("hi"), Timestamp: proto.Uint64(1)}})
	if err != nil {
		panic(err)
	}
	return append(b, 0x80)
}

// ops37 draws what is generated.
func ops37(c *kit.Case, max int) (plain, world []string) {
	for n := c.Int("values", 1, max); n > 0; n-- {
		plain = append(plain, kit.Pick(c.T, "value", plainOps37))
	}
	for n := c.Int("actions", 0, 4); n > 0; n-- {
		world = append(world, kit.Pick(c.T, "action", worldOps37))
	}
	return
}

// seen37 are the windows of eight bytes of all values of this process.
var seen37 = map[uint64]string{}

func fresh37(c *kit.Case, kind, from string, b []byte) {
	if len(b) < 8 {
		c.Bad("%s of %d bytes", kind, len(b))
	}
	for i := 0; i+8 <= len(b); i++ {
		k := binary.LittleEndian.Uint64(b[i:])
		if o, ok := seen37[k]; ok {
			c.Bad("%s (%s) holds the bytes %x, which were there before: %s", kind, from, b[i:i+8], o)
		}
		seen37[k] = kind + " (" + from + ")"
	}
}

// TestC37Process: what one process generates.
func TestC37Process(t *testing.T) {
	kit.Check(t, "values were generated, are of their form, and repeat nothing the process generated before", func(c *kit.Case) {
		plain, world := ops37(c, 30)
		if c.Chance("many of a kind", 1, 2) {
			// enough to look at every bit of a value
			op := kit.Pick(c.T, "kind", append(append([]string{}, plainOps37...), worldOps37...))
			if slow := plainOps37[8:]; slices.Contains(slow, op) || slices.Contains(worldOps37, op) {
				n := 16
				vals := map[string][][]byte{}
				s := &sink37{c: c, secret: func(kind string, b []byte) {
					fresh37(c, kind, "same process", b)
					vals[kind] = append(vals[kind], b)
				}, small: func(string, uint32, int) {}}
				c.Step("%d of %s", n, op)
				c.NonTrivial()
				c.Sig(op, c.Int("round", 0, 1<<30))
				if slices.Contains(slow, op) {
					for i := 0; i < n; i++ {
						plain37(c, s, op)
					}
				} else {
					ops := []string{}
					for i := 0; i < n; i++ {
						ops = append(ops, op)
					}
					world37(c, s, ops)
				}
				for kind, v := range vals {
					varying37(c, kind, v)
				}
				return
			}
			var vals [][]byte
			s := &sink37{c: c, secret: func(kind string, b []byte) {
				fresh37(c, kind, "same process", b)
				if kind == op {
					vals = append(vals, b)
				}
			}, small: func(kind string, v uint32, bits int) {
				b := make([]byte, bits)
				for i := range b {
					b[i] = byte(v >> i & 1)
				}
				vals = append(vals, b)
			}}
			for i := 0; i < 256; i++ {
				plain37(c, s, op)
			}
			c.Step("256 of %s", op)
			c.NonTrivial()
			c.Sig(op, c.Int("round", 0, 1<<30))
			if op == "registration id" {
				for bit := range vals[0] {
					n := 0
					for _, v := range vals {
						n += int(v[bit])
					}
					balanced37(c, op, bit, n)
				}
				return
			}
			for bit := 0; bit < 8*len(vals[0]); bit++ {
				n := 0
				for _, v := range vals {
					n += int(v[bit/8] >> (bit % 8) & 1)
				}
				balanced37(c, op, bit, n)
			}
			return
		}
		c.Step("%s; %s", strings.Join(plain, ", "), strings.Join(world, ", "))
		c.NonTrivial()
		s := &sink37{c: c, secret: func(kind string, b []byte) { fresh37(c, kind, "same process", b) }, small: func(string, uint32, int) {}}
		for _, op := range plain {
			c.Class(op)
			plain37(c, s, op)
		}
		if len(world) > 0 {
			for _, op := range world {
				c.Class(op)
			}
			world37(c, s, world)
		}
	})
}

// varying37: that a byte is the same in sixteen independent values has a
// probability of 2^-120.
func varying37(c *kit.Case, what string, vals [][]byte) {
	if len(vals) < 16 {
		return
	}
	for i := range vals[0] {
		if len(vals[0]) == 33 && i == 0 {
			continue // the type of a public key
		}
		same := true
		for _, v := range vals {
			same = same && i < len(v) && v[i] == vals[0][i]
		}
		if same {
			c.Bad("byte %d of %d values of %s is always %02x", i, len(vals), what, vals[0][i])
		}
	}
}

// balanced37: of 256 independent fair bits fewer than 48 or more than 208 are
// set with a probability below 10^-24.
func balanced37(c *kit.Case, what string, bit, n int) {
	if n < 48 || n > 208 {
		c.Bad("bit %d of 256 values of %s is set %d times", bit, what, n)
	}
}

// TestC37Child runs in a process whose clock stands still; it reports what it
// generates on the descriptor 3.
func TestC37Child(t *testing.T) {
	if os.Getenv("VERIF_CHILD_KIND") != "c37" {
		t.Skip()
	}
	out := os.NewFile(3, "out")
	go func() {
		for { // the clock of this process moves only when all of it waits
			runtime.Gosched()
		}
	}()
	kit.Check(t, "", func(c *kit.Case) {
		plain, world := ops37(c, 30)
		// small numbers come in lists, which do not repeat by chance
		for i := 0; i < 8; i++ {
			plain = append(plain, "registration id")
		}
		var b strings.Builder
		s := &sink37{c: c, secret: func(kind string, v []byte) { fmt.Fprintf(&b, "secret|%s|%x\n", kind, v) },
			small: func(kind string, v uint32, bits int) { fmt.Fprintf(&b, "small|%s|%d|%d\n", kind, v, bits) }}
		for _, op := range plain {
			plain37(c, s, op)
		}
		if len(world) > 0 {
			world37(c, s, world)
		}
		fmt.Fprintf(&b, "done|%d|%s; %s\n", time.Now().UnixNano(), strings.Join(plain, ", "), strings.Join(world, ", "))
		io.WriteString(out, b.String())
	})
}

type child37 struct {
	lines [][]string
	done  []string
	log   string
}

func start37(c *kit.Case, bin, seed string) chan child37 {
	ch := make(chan child37, 1)
	d := c.Scratch()
	go func() {
		var res child37
		defer func() { ch <- res }()
		r, w, err := os.Pipe()
		if err != nil {
			return
		}
		var log bytes.Buffer
		cmd := exec.Command(bin, "-test.run", "^TestC37Child$", "-test.timeout", "0", "-rapid.checks=1", "-rapid.seed="+seed, "-rapid.nofailfile", "-rapid.shrinktime=0s")
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "VERIF_CHILD_KIND=c37", "VERIF_SCRATCH="+d, "TMPDIR="+d, "VERIF_EV_OUT=", "GODEBUG=randautoseed=0")
		cmd.ExtraFiles = []*os.File{w}
		cmd.Stdout, cmd.Stderr = &log, &log
		cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWPID,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}, GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
		if err = cmd.Start(); err != nil {
			// without a namespace of its own the process differs by its id
			old := cmd
			cmd = exec.Command(bin, old.Args[1:]...)
			cmd.Dir, cmd.Env, cmd.ExtraFiles, cmd.Stdout, cmd.Stderr = old.Dir, old.Env, old.ExtraFiles, &log, &log
			err = cmd.Start()
		}
		w.Close()
		if err != nil {
			res.log = err.Error()
			return
		}
		kill := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		b, _ := io.ReadAll(r)
		r.Close()
		cmd.Wait()
		kill.Stop()
		res.log = log.String()
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Split(l, "|")
			if f[0] == "done" {
				res.done = f
			} else {
				res.lines = append(res.lines, f)
			}
		}
	}()
	return ch
}

// TestC37Alike: what processes generate that are started alike: at the same
// time, under the same process id, with the same environment, and that do the same.
func TestC37Alike(t *testing.T) {
	bin := os.Getenv("VERIF_BIN_rootft")
	kit.Check(t, "processes that start alike and do the same generated values, which differ", func(c *kit.Case) {
		if bin == "" {
			c.Broken("no binary for the child processes")
		}
		seed := fmt.Sprint(1 + c.Int("history", 0, 1<<40))
		n := c.Int("processes", 2, 3)
		var chs []chan child37
		for i := 0; i < n; i++ {
			chs = append(chs, start37(c, bin, seed))
		}
		var clock string
		lists := map[string]int{}
		bits := map[string]int{}
		for i, ch := range chs {
			r := <-ch
			for try := 0; try < 3 && r.done == nil && !strings.Contains(r.log, "VERIF-VIOLATION: "); try++ {
				c.Class("child process started again")
				r = <-start37(c, bin, seed)
			}
			if r.done == nil {
				if j := strings.Index(r.log, "VERIF-VIOLATION: "); j >= 0 {
					c.Bad("process %d: %.400s", i, r.log[j+len("VERIF-VIOLATION: "):])
				}
				c.Broken("process %d: %.2000s", i, r.log)
			}
			if i == 0 {
				clock = r.done[1]
				c.Step("at %s: %s", clock, r.done[2])
			} else if clock != r.done[1] {
				c.Class("clocks differ")
			} else {
				c.Class("same clock")
			}
			small := map[string]string{}
			for _, l := range r.lines {
				switch l[0] {
				case "secret":
					b, err := hex.DecodeString(l[2])
					if err != nil {
						c.Broken("%v", err)
					}
					fresh37(c, l[1], fmt.Sprintf("process %d of %d", i, n), b)
				case "small":
					small[l[1]] += l[2] + " "
					if i == 0 {
						var k int
						fmt.Sscan(l[3], &k)
						bits[l[1]] += k
					}
				}
			}
			for k, v := range small {
				lists[k+": "+v]++
				// fewer bits may be the same by chance
				if lists[k+": "+v] > 1 && bits[k] >= 60 {
					c.Bad("two processes started alike both generate %s: %s", k, v)
				}
			}
		}
		c.NonTrivial()
	})
}
