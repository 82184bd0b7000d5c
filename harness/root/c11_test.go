//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// write11 overwrites one kind of record with a value made from seed.
func write11(s *store, kind int, seed byte) {
	k := bytes.Repeat([]byte{seed}, 32)
	switch kind {
	case 0:
		s.SetLocalRegistrationID(uint32(seed) * 37)
	case 1:
		s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(k, k))
	case 2:
		s.SaveIdentity(uuids[0], axolotl.NewIdentityKey(k))
	case 3:
		s.StorePreKey(1, axolotl.NewPreKeyRecord(1, axolotl.MakeECKeyPair(k, k)))
	case 4:
		s.StoreSignedPreKey(2, axolotl.NewSignedPreKeyRecord(2, 3, axolotl.MakeECKeyPair(k, k), append(k, k...)))
	case 5:
		s.storeHTTPPassword(fmt.Sprintf("password %d with some length %d", seed, seed))
	case 6:
		s.storeHTTPSignalingKey(append(k, k[:20]...))
	case 7:
		rec := axolotl.NewSessionRecord()
		blob, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_BLOBS"), fmt.Sprintf("blob%d", seed)))
		if err == nil {
			rec, err = axolotl.LoadSessionRecord(blob)
		}
		if err != nil {
			panic(err)
		}
		s.StoreSession(uuids[0], 1, rec)
	}
}

var kinds11 = []string{"identity/regid", "identity/identity_key", "identity/remote_" + uuids[0], "prekeys/000000001", "signed_prekeys/000000002", "identity/http_password", "identity/http_signaling_key", "sessions/" + uuids[0] + "_1"}

// childMain runs in a child process that is killed on the way.
func childMain() {
	if h := childHook; h != nil && os.Getenv("VERIF_CHILD_KIND") != "" {
		h()
		os.Exit(0)
	}
	var job struct {
		Pw, Dir string
		Kind    int
		Seed    byte
		Limit   uint64
	}
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD")), &job); err != nil {
		os.Exit(3)
	}
	config.ConfigFile = &config.Config{}
	s, err := newStore(job.Pw, job.Dir)
	if err != nil {
		os.Exit(4)
	}
	textSecureStore = s
	if job.Limit > 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: job.Limit, Max: job.Limit})
	}
	write11(s, job.Kind, job.Seed)
	os.Exit(0)
}

func TestC11Interrupted(t *testing.T) {
	_, straceErr := exec.LookPath("strace")
	kit.Check(t, "overwriting each kind of record with the write failing after n bytes, or with the process killed after n bytes or at the n-th file system call; "+
		"non-trivial: the write was really cut short",
		func(c *kit.Case) {
			c.SeedRand()
			dir := c.Scratch()
			pw := kit.Pick(c.T, "pw", []string{"", "p"})
			blobs := c.Scratch()
			os.Setenv("VERIF_BLOBS", blobs)
			for _, seed := range []byte{1, 2} {
				n := int(seed) * 3
				if c.Chance("long", 1, 3) {
					n = 300 + c.Int("keys", 0, 900)
				}
				_, b := sessionRecord(c, n)
				if seed == 2 && c.Chance("longer", 1, 2) {
					_, b = sessionRecord(c, 4)
				}
				os.WriteFile(filepath.Join(blobs, fmt.Sprintf("blob%d", seed)), b, 0600)
			}
			s := openStore(c, pw, dir)
			kind := kit.Pick(c.T, "kind", []int{0, 1, 2, 3, 4, 5, 6, 7, 7, 7})
			firstWrite := c.Chance("first", 1, 6)
			for k := range kinds11 {
				if k != kind || !firstWrite {
					write11(s, k, 1)
				}
			}
			m := &storeModel{}
			read := func() map[string]string {
				out := map[string]string{}
				st := openStore(c, pw, dir)
				for name, f := range m.readers(st) {
					name, f := name, f
					c.NoPanic("reading "+name, func() {
						v, err := f()
						if err != nil {
							v = "error " + err.Error()
						}
						out[name] = v
					})
				}
				return out
			}
			before := read()
			// the new value, as an uninterrupted write gives it
			other := c.Scratch()
			if out, err := exec.Command("cp", "-a", dir+"/.", other).CombinedOutput(); err != nil {
				c.Broken("%v %s", err, out)
			}
			so := openStore(c, pw, other)
			write11(so, kind, 2)
			v, err := m.readers(so)[kinds11[kind]]()
			if err != nil {
				c.Bad("the new value cannot be read: %v", err)
			}
			complete := v
			fi, err := os.Stat(filepath.Join(other, kinds11[kind]))
			size := 1
			if err == nil {
				size = int(fi.Size())
			}
			textSecureStore = s
			mode := c.Int("mode", 0, 3)
			if mode == 3 && !kit.Thorough() && !c.Chance("strace", 2, 3) {
				mode = 0
			}
			n := c.Int("n", 0, size-1)
			cut := ""
			switch mode {
			case 0, 1: // the write fails
				var old syscall.Rlimit
				syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
				lim := old
				lim.Cur = uint64(n)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
				p := func() (p any) {
					defer func() { p = recover() }()
					write11(s, kind, 2)
					return nil
				}()
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				if p != nil {
					c.Bad("writing %s with a full disk: panic %v", kinds11[kind], p)
				}
				cut = fmt.Sprintf("write failed after %d of %d bytes", n, size)
				c.NonTrivial()
			case 2:
				job, _ := json.Marshal(map[string]any{"Pw": pw, "Dir": dir, "Kind": kind, "Seed": 2, "Limit": max(n, 1)})
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(job))
				err := cmd.Run()
				cut = fmt.Sprintf("killed after %d of %d bytes (%v)", n, size, err)
				c.NonTrivial()
			case 3:
				if straceErr != nil {
					return
				}
				job, _ := json.Marshal(map[string]any{"Pw": pw, "Dir": dir, "Kind": kind, "Seed": 2})
				// strace counts the calls of each kind by themselves
				call := kit.Pick(c.T, "syscall", []string{"rename.*", "rename.*", "rename.*", "unlink.*", "(f|fdata)sync", "(p?write(64)?)", "close", "f?truncate", "openat", "link.*"})
				k := 1
				if call[0] != 'r' {
					k = c.Int("call", 1, 6)
				}
				call = "/^" + call + "$"
				cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, k), os.Args[0])
				cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(job))
				err := cmd.Run()
				cut = fmt.Sprintf("killed at call %d of %s (%v)", k, call, err)
				if err != nil {
					c.NonTrivial()
					c.Class("killed at a system call")
				} else {
					c.Class("finished before the kill")
				}
			}
			after := read()
			c.Step("%s first=%v pw=%v: %s", kinds11[kind], firstWrite, pw != "", cut)
			c.Class(fmt.Sprintf("mode %d", mode))
			for name := range before {
				if name == kinds11[kind] {
					if after[name] != before[name] && after[name] != complete {
						c.Bad("%s: after a write that was cut short (%s) reading gives %.200q", name, cut, after[name])
					}
				} else if after[name] != before[name] {
					c.Bad("%s changed when %s was written (%s)", name, kinds11[kind], cut)
				}
			}
			// and the record can be written afterwards
			s = openStore(c, pw, dir)
			write11(s, kind, 2)
			if v, err := m.readers(s)[kinds11[kind]](); err != nil || v != complete {
				c.Bad("%s cannot be written again: %v", kinds11[kind], err)
			}
			if s.GetSubDeviceSessions(uuids[0]) == nil && kind == 7 {
				c.Bad("sessions cannot be listed")
			}
		})
}

var _ = ref.DH
