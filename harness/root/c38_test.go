//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	"github.com/signal-golang/textsecure/profiles"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// job38 is one write of one file.
type job38 struct {
	Dir   string
	Kind  string
	Seed  int // the value written is made from it
	Size  int
	Limit uint64
}

var (
	kinds38 = []string{"configuration", "contacts list", "contact update", "group", "group update", "empty group", "avatar", "salt"}
	group38 = [][]byte{{1, 2, 3, 4}, {0xff, 0xfe}}
	uuid38  = []string{"8f1c1e5a-3b52-4b8e-9a53-0c77f4b1a001", "8f1c1e5a-3b52-4b8e-9a53-0c77f4b1a002"}
)

// open38 is what a process does at its start.
func open38(dir string) error {
	cfg, err := ReadConfig(filepath.Join(dir, "config.yml"))
	if err != nil {
		return fmt.Errorf("configuration: %v", err)
	}
	cfg.StorageDir = dir
	config.ConfigFile = cfg
	contacts.Contacts = map[string]contacts.Contact{}
	if _, err := contacts.ReadContacts(filepath.Join(dir, "contacts.yml")); err != nil {
		return fmt.Errorf("contacts: %v", err)
	}
	groups = map[string]*Group{}
	if err := setupGroups(); err != nil {
		return fmt.Errorf("groups: %v", err)
	}
	return nil
}

// dump38 is what a process that was started anew finds.
func dump38(dir string) (map[string]string, error) {
	if err := open38(dir); err != nil {
		return nil, err
	}
	out := map[string]string{}
	put := func(k string, v any) {
		b, err := json.Marshal(v)
		if err != nil {
			b = []byte(err.Error())
		}
		out[k] = string(b)
	}
	put("configuration", config.ConfigFile)
	cs := contacts.Contacts
	put("contacts", cs)
	var ids []string
	for id, g := range groups {
		ids = append(ids, id)
		put("group "+id, g)
	}
	sort.Strings(ids)
	for _, u := range uuid38 {
		v := "none"
		// the package keeps where the avatars are: read the file it names
		if p, err := profiles.GetLocalAvatarPath(u); err == nil {
			if f, err := os.Open(filepath.Join(dir, "avatars", filepath.Base(p))); err == nil {
				b, _ := io.ReadAll(f)
				f.Close()
				v = hex.EncodeToString(b)
			}
		}
		out["avatar "+u] = v
	}
	if b, err := os.ReadFile(filepath.Join(dir, "salt")); err == nil {
		out["salt"] = fmt.Sprint(len(b))
	}
	return out, nil
}

// write38 writes one file through the library.
func write38(j *job38) error {
	fill := strings.Repeat(string(rune('a'+j.Seed)), j.Size)
	key := bytes.Repeat([]byte{byte(j.Seed)}, 32)
	switch j.Kind {
	case "configuration":
		config.ConfigFile.Tel = fmt.Sprint("+49", j.Seed)
		config.ConfigFile.Name = fill
		config.ConfigFile.ProfileKey = key
		return saveConfig(config.ConfigFile)
	case "contacts list":
		var l []contacts.Contact
		for i := 0; i < 1+j.Seed%3; i++ {
			l = append(l, contacts.Contact{UUID: uuid38[i%2], Tel: fmt.Sprint("+49", i), Name: fill, ProfileKey: key})
		}
		return contacts.WriteContacts(filepath.Join(j.Dir, "contacts.yml"), l)
	case "contact update":
		return contacts.UpdateProfileKey(uuid38[j.Seed%2], append(key, fill...))
	case "group":
		id := group38[0]
		if groups[idToHex(id)] == nil {
			if _, err := newPartlyGroup(id); err != nil {
				return err
			}
		}
		_, err := changeGroup(idToHex(id), fill, []string{"+491", "+492", "+493"}[:1+j.Seed%3])
		return err
	case "group update":
		return updateGroup(&signalservice.GroupContext{Id: group38[1], Name: &fill, MembersE164: []string{"+495", fmt.Sprint("+49", j.Seed)}})
	case "empty group":
		_, err := newPartlyGroup(group38[1])
		return err
	case "avatar":
		return profiles.SaveAvatar(uuid38[0], []byte(fill+"x"))
	case "salt":
		s, err := newStore("pw", j.Dir)
		if err != nil {
			return err
		}
		return s.SetIdentityKeyPair(axolotl.NewIdentityKeyPairFromKeys(key, key))
	}
	panic(j.Kind)
}

func init() {
	next := childHook
	childHook = func() {
		if os.Getenv("VERIF_CHILD_KIND") != "files" {
			if next != nil {
				next()
			}
			return
		}
		j := &job38{}
		if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD")), j); err != nil {
			os.Exit(3)
		}
		if err := open38(j.Dir); err != nil {
			os.Exit(4)
		}
		if j.Limit > 0 {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Limit, Max: j.Limit})
		}
		if err := write38(j); err != nil {
			os.Exit(6)
		}
	}
}

// limited runs f while files can not grow beyond n bytes.
func limited(n int, f func()) (p any) {
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = uint64(n)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	defer func() {
		p = recover()
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	}()
	f()
	return nil
}

func TestC38Files(t *testing.T) {
	_, straceErr := exec.LookPath("strace")
	kit.Check(t, "the write of a file was really cut short, by a full disk or by the end of the process", func(c *kit.Case) {
		kept, keptC := config.ConfigFile, contacts.Contacts
		defer func() { config.ConfigFile, contacts.Contacts, groups = kept, keptC, map[string]*Group{} }()
		dir := c.Scratch()
		os.MkdirAll(filepath.Join(dir, "avatars"), 0700)
		kind := kit.Pick(c.T, "kind", kinds38)
		first := c.Chance("first", 1, 4)
		config.ConfigFile = &config.Config{}
		if c.Chance("config link", 1, 12) {
			// the file is somewhere else
			os.Symlink(filepath.Join(c.Scratch(), "file"), filepath.Join(dir, "config.yml"))
		}
		if err := WriteConfig(filepath.Join(dir, "config.yml"), config.ConfigFile); err != nil {
			c.Bad("%v", err)
		}
		for i, k := range kinds38[:7] {
			if k == kind && first {
				continue
			}
			j := &job38{Dir: dir, Kind: k, Seed: c.Int("old", 0, 9), Size: c.Int("old size", 0, 40) * c.Int("old factor", 1, 20)}
			if k == kind || c.Chance("present", 3, 4) || i == 0 {
				if k == "contacts list" && c.Chance("link", 1, 12) {
					os.Symlink(filepath.Join(c.Scratch(), "file"), filepath.Join(dir, "contacts.yml"))
				}
				if err := open38(dir); err != nil {
					c.Bad("before: %v", err)
				}
				// the avatars of earlier cases are elsewhere
				if k == "avatar" {
					os.WriteFile(filepath.Join(dir, "avatars", uuid38[0]), bytes.Repeat([]byte("old"), j.Size), 0600)
					continue
				}
				if err := write38(j); err != nil {
					c.Bad("writing %s: %v", k, err)
				}
			}
		}
		before, err := dump38(dir)
		if err != nil {
			c.Bad("%v", err)
		}
		j := &job38{Dir: dir, Kind: kind, Seed: c.Int("seed", 0, 9), Size: c.Int("size", 0, 40) * c.Int("factor", 1, 20)}
		// the complete new content
		other := c.Scratch()
		if out, err := exec.Command("cp", "-aL", dir+"/.", other).CombinedOutput(); err != nil {
			c.Broken("%v %s", err, out)
		}
		child := func(j job38, prefix ...string) error {
			b, _ := json.Marshal(j)
			args := append(append([]string{}, prefix...), os.Args[0])
			cmd := exec.Command(args[0], args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(b), "VERIF_CHILD_KIND=files")
			return cmd.Run()
		}
		jo := *j
		jo.Dir = other
		if err := child(jo); err != nil {
			c.Bad("a process can not write the %s: %v", kind, err)
		}
		after, err := dump38(other)
		if err != nil {
			c.Bad("after a complete write: %v", err)
		}
		delete(after, "configuration")
		complete := after
		if cfg, err := ReadConfig(filepath.Join(other, "config.yml")); err == nil {
			cfg.StorageDir = dir
			b, _ := json.Marshal(cfg)
			complete["configuration"] = string(b)
		} else {
			complete["configuration"] = before["configuration"]
		}
		size := 1
		filepath.Walk(other, func(p string, fi os.FileInfo, err error) error {
			old, e := os.ReadFile(strings.Replace(p, other, dir, 1))
			now, _ := os.ReadFile(p)
			if err == nil && fi.Mode().IsRegular() && (e != nil || !bytes.Equal(old, now)) && len(now) > size {
				size = len(now)
			}
			return nil
		})
		mode := kit.Pick(c.T, "mode", []string{"full disk", "full disk", "killed while writing", "killed at a call"})
		if mode == "killed at a call" && (straceErr != nil || (!kit.Thorough() && c.Chance("no strace", 1, 2))) || mode == "full disk" && kind == "avatar" {
			// an avatar goes where the process put the first one
			mode = "killed while writing"
		}
		n := c.Int("n", 0, size-1)
		cut := true
		switch mode {
		case "full disk":
			if err := open38(dir); err != nil {
				c.Bad("%v", err)
			}
			var werr error
			if p := limited(n, func() { werr = write38(j) }); p != nil {
				c.Bad("writing the %s with a full disk: %v", kind, p)
			}
			if werr == nil {
				// then it must be there all the same
				cut = false
				now, err := dump38(dir)
				for k, v := range complete {
					if err == nil && k != "salt" && now[k] != v {
						c.Bad("writing the %s failed after %d of %d bytes without an error: %s is not the new one", kind, n, size, k)
					}
				}
			}
		case "killed while writing":
			k := *j
			k.Limit = uint64(max(n, 1))
			cut = child(k) != nil
		case "killed at a call":
			// strace counts the calls of each kind by themselves
			call := kit.Pick(c.T, "syscall", []string{"rename.*", "rename.*", "rename.*", "unlink.*", "(f|fdata)sync", "p?write(64)?", "close", "f?truncate", "openat", "fchmod(at)?", "link.*"})
			at := 1
			if call[0] != 'r' {
				at = c.Int("call", 1, 6)
			}
			call = "/^" + call + "$"
			cut = child(*j, "strace", "-f", "-o", "/dev/null", "-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, at)) != nil
		}
		c.Step("%s (first %v): %s at %d of %d, cut short %v", kind, first, mode, n, size, cut)
		c.Class(mode)
		c.Class(kind)
		if cut {
			c.NonTrivial()
		}
		now, err := dump38(dir)
		if err != nil {
			c.Bad("after %s while writing the %s (%d of %d bytes): %v", mode, kind, n, size, err)
		}
		names := map[string]bool{}
		for _, m := range []map[string]string{before, now, complete} {
			for k := range m {
				names[k] = true
			}
		}
		for k := range names {
			if k == "salt" {
				if s, ok := now[k]; ok && s != "8" {
					c.Bad("after %s while making the salt of the store it has %s bytes", mode, s)
				}
				continue
			}
			partly := kind == "group" && k == "group "+idToHex(group38[0]) // made first, then filled
			if now[k] != before[k] && now[k] != complete[k] && !(partly && first) {
				c.Bad("after %s while writing the %s (%d of %d bytes): %s is %.300q, it was %.300q and was to be %.300q", mode, kind, n, size, k, now[k], before[k], complete[k])
			}
		}
		// and it can be written afterwards
		if err := child(*j); err != nil {
			c.Bad("the %s can not be written after %s: %v", kind, mode, err)
		}
		now, err = dump38(dir)
		if err != nil {
			c.Bad("%v", err)
		}
		for k, v := range complete {
			if now[k] != v {
				c.Bad("written again after %s, %s is %.300q instead of %.300q", mode, k, now[k], v)
			}
		}
		for k := range now {
			if _, ok := complete[k]; !ok {
				c.Bad("written again after %s, there is %s", mode, k)
			}
		}
		if kind == "salt" {
			s, err := newStore("pw", dir)
			if err != nil {
				c.Bad("the store can not be opened again: %v", err)
			}
			if kp, err := s.GetIdentityKeyPair(); err != nil || kp.PrivateKey.Key()[0] != byte(j.Seed) {
				c.Bad("the identity key can not be read again: %v", err)
			}
		}
	})
}

func TestC38Groups(t *testing.T) {
	kit.Check(t, "storing the new state of a modern group was cut short by a full disk", func(c *kit.Case) {
		w := newWorld(c, "")
		zs := w.withGroups()
		zkCases++
		var ids []string
		for i := 0; i < 2; i++ {
			key := bytes.Repeat([]byte{byte(i + 1)}, 32)
			for j := 0; j < 8; j++ {
				key[j] = byte(zkCases >> (8 * j))
			}
			g := newZkGroup(c, key)
			g.title = drawText(c.T, "title")
			g.rev = uint32(c.Int("rev", 1, 3))
			g.setMembers(c)
			g.publish(c)
			zs.groups = append(zs.groups, g)
			id := hex.EncodeToString(key)
			ids = append(ids, id)
			if _, err := groupsv2.HandleGroupsV2("", &signalservice.DataMessage{GroupV2: &signalservice.GroupContextV2{MasterKey: key, Revision: &g.rev}}); err != nil {
				c.Broken("%v", err)
			}
		}
		before := restarted(c, config.ConfigFile.StorageDir, ids)
		for _, id := range ids {
			if before[id] == nil || !before[id].Has {
				c.Bad("the state of group %s is not stored", id)
			}
		}
		g := zs.groups[0]
		g.mutate(c)
		g.publish(c)
		gr := groupsv2.FindGroup(ids[0])
		path := filepath.Join(config.ConfigFile.StorageDir, "groupsv2", ids[0])
		size := 500
		if fi, err := os.Stat(path); err == nil {
			size = int(fi.Size())
		}
		n := c.Int("n", 0, size+50)
		var err error
		if p := limited(n, func() { err = gr.UpdateGroupFromServer() }); p != nil {
			c.Bad("updating a group with a full disk: %v", p)
		}
		c.Step("update of a group whose file may have %d bytes (it had %d): %v", n, size, err)
		if err != nil {
			c.NonTrivial()
		}
		after := restarted(c, config.ConfigFile.StorageDir, ids)
		same := func(a, b *stored32) bool {
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			return bytes.Equal(x, y)
		}
		if !same(after[ids[1]], before[ids[1]]) {
			c.Bad("another group changed")
		}
		if after[ids[0]] == nil || !after[ids[0]].Has {
			c.Bad("the group is lost after an update with a full disk (%d bytes, error %v)", n, err)
		}
		d := &signalservice.DecryptedGroup{}
		if e := proto.Unmarshal(after[ids[0]].State, d); e != nil {
			c.Broken("%v", e)
		}
		if isNew := g.diff(d) == ""; !isNew && (err == nil || !same(after[ids[0]], before[ids[0]])) {
			c.Bad("after an update with a full disk (%d bytes, error %v) the stored group is neither the old nor the new one: %s", n, err, g.diff(d))
		}
		if err := gr.UpdateGroupFromServer(); err != nil {
			c.Bad("the group can not be updated afterwards: %v", err)
		}
		after = restarted(c, config.ConfigFile.StorageDir, ids)
		if after[ids[0]] == nil {
			c.Bad("the group is lost")
		}
		d.Reset()
		proto.Unmarshal(after[ids[0]].State, d)
		if s := g.diff(d); s != "" {
			c.Bad("written again after a full disk: %s", s)
		}
	})
}
