//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"google.golang.org/protobuf/proto"
)

type group25 struct {
	id      []byte
	name    string
	members []string
	avatar  []byte
}

var tels25 = []string{"+491510000001", "+491510000002", "+491510000003", "+491510000004", ourTel}

// sameMembers compares member lists; our own number, which is added by itself, counts once.
func sameMembers(got, want []string) bool {
	f := func(l []string) string {
		var out []string
		own := false
		for _, m := range l {
			if m == ourTel {
				own = true
				continue
			}
			out = append(out, m)
		}
		return fmt.Sprintf("%q %v", out, own)
	}
	return f(got) == f(want)
}

func (g *group25) differs(o *Group) string {
	switch {
	case o == nil:
		return "is not there"
	case !bytes.Equal(o.ID, g.id) || o.Hexid != hex.EncodeToString(g.id):
		return fmt.Sprintf("has the id %x and %q, it is %x", o.ID, o.Hexid, g.id)
	case o.Name != g.name:
		return fmt.Sprintf("is called %q, its name is %q", o.Name, g.name)
	case !sameMembers(o.Members, g.members):
		return fmt.Sprintf("has the members %q, they are %q", o.Members, g.members)
	case !bytes.Equal(o.Avatar, g.avatar):
		return fmt.Sprintf("has an avatar of %d bytes, it has %d", len(o.Avatar), len(g.avatar))
	}
	return ""
}

func TestC25Groups(t *testing.T) {
	kit.Check(t, "at least two successful operations on groups, compared in memory and after a restart", func(c *kit.Case) {
		w := newWorld(c, "")
		if c.Chance("odd directory", 1, 3) {
			config.ConfigFile.StorageDir = filepath.Join(w.dir, kit.Pick(c.T, "dir", []string{"avatar collection", "groups", "a b", "ä"}))
			os.MkdirAll(config.ConfigFile.StorageDir, 0700)
			if err := setupGroups(); err != nil {
				c.Broken("%v", err)
			}
		}
		dir := filepath.Join(config.ConfigFile.StorageDir, "groups")
		for _, tel := range tels25[:4] {
			w.peers[tel] = newPeer(tel, 1)
		}
		failing := ""
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			if failing != "" && strings.HasSuffix(r.URL.Path, failing) && r.Method == "PUT" {
				rw.WriteHeader(500)
				return true
			}
			return false
		}
		model := map[string]*group25{}
		var order []string
		done := 0
		compare := func(when string) {
			for h, g := range model {
				o, err := GetGroupById(h)
				if err != nil {
					c.Bad("%s: group %q: %v", when, g.name, err)
				}
				if d := g.differs(o); d != "" {
					c.Bad("%s: group %q %s", when, g.name, d)
				}
			}
			for h, o := range groups {
				if model[h] == nil {
					c.Bad("%s: group %q (%q) is known, no operation left such a group", when, h, o.Name)
				}
			}
		}
		restart := func() {
			groups = map[string]*Group{}
			if err := setupGroups(); err != nil {
				c.Bad("restart: %v", err)
			}
		}
		// the files alone must tell the same
		checkFiles := func(when string) {
			kept := groups
			restart()
			compare(when + ", after a restart")
			groups = kept
		}
		backing := append([]string{}, tels25...)
		members := func() []string {
			// a part of a longer list of the caller's
			for i := range backing {
				backing[i] = tels25[i]
			}
			off := c.Int("offset", 0, 3)
			for i := 0; i < off; i++ {
				backing = append(backing[1:], backing[0])
			}
			backing = append([]string{}, backing...)
			return backing[:c.Int("n", 0, len(backing))]
		}
		sends := func(to []string) {
			// every other member is told, and nobody else
			got := []string{}
			for _, a := range w.takeAcc() {
				got = append(got, a.dest)
			}
			want := []string{}
			for _, m := range to {
				if m != ourTel {
					want = append(want, m)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Bad("told %q, the other members are %q", got, want)
			}
		}
		pick := func() string {
			if len(order) == 0 || c.Chance("unknown", 1, 8) {
				return kit.Pick(c.T, "id", []string{"", "00", "00112233445566778899aabbccddeeff"})
			}
			return order[c.Int("which", 0, len(order)-1)]
		}
		drop := func(h string) {
			delete(model, h)
			for i, o := range order {
				if o == h {
					order = append(append([]string{}, order[:i]...), order[i+1:]...)
				}
			}
		}
		for n := c.Int("steps", 1, 12); n > 0; n-- {
			failing = ""
			w.takeAcc()
			op := c.Int("op", 0, 7)
			if c.Chance("a member can not be told", 1, 8) {
				failing = tels25[c.Int("member", 0, 3)]
			}
			refusing := op < 4 && c.Chance("disk fault", 1, 8)
			switch op {
			case 0, 1:
				m := members()
				name := drawText(c.T, "name")
				whole := append([]string{}, backing...)
				if refusing {
					os.Rename(dir, dir+".away")
					os.WriteFile(dir, nil, 0600)
				}
				var g *Group
				var err error
				c.NoPanic("NewGroup", func() { g, err = NewGroup(name, m) })
				c.Step("new group %q with %q, failing %q, disk fault %v: %v", name, m, failing, refusing, err)
				if refusing {
					os.Remove(dir)
					os.Rename(dir+".away", dir)
					if err == nil {
						c.Bad("a group that could not be stored is reported as created")
					}
					break
				}
				told := true
				for _, x := range m {
					told = told && x != failing
				}
				if told != (err == nil) || g == nil {
					c.Bad("creating the group: %v, %v", g, err)
				}
				if strings.Join(backing, " ") != strings.Join(whole, " ") {
					c.Bad("creating a group changes the caller's list %q to %q", whole, backing)
				}
				if len(g.ID) != 16 || model[g.Hexid] != nil {
					c.Bad("the new group has the id %x", g.ID)
				}
				x := &group25{id: append([]byte{}, g.ID...), name: name, members: append(append([]string{}, m...), ourTel)}
				if d := x.differs(g); d != "" {
					c.Bad("the new group %q %s", name, d)
				}
				model[g.Hexid] = x
				order = append(order, g.Hexid)
				if told {
					sends(m)
				}
				done++
			case 2:
				h := pick()
				m := members()
				name := drawText(c.T, "name")
				whole := append([]string{}, backing...)
				known := model[h]
				p := filepath.Join(dir, h)
				if refusing = refusing && known != nil; refusing {
					os.Rename(p, dir+".away")
					os.Mkdir(p, 0700)
				}
				var g *Group
				var err error
				c.NoPanic("UpdateGroup", func() { g, err = UpdateGroup(h, name, m) })
				c.Step("update group %q to %q with %q, failing %q, disk fault %v: %v", h, name, m, failing, refusing, err)
				if refusing {
					os.Remove(p)
					os.Rename(dir+".away", p)
					if err == nil {
						c.Bad("a change that could not be stored is reported as made")
					}
					break
				}
				if known == nil {
					if err == nil {
						c.Bad("an unknown group is updated")
					}
					break
				}
				told := true
				for _, x := range m {
					told = told && x != failing
				}
				if told != (err == nil) {
					c.Bad("updating the group: %v", err)
				}
				if strings.Join(backing, " ") != strings.Join(whole, " ") {
					c.Bad("updating a group changes the caller's list %q to %q", whole, backing)
				}
				known.name, known.members = name, append(append([]string{}, m...), ourTel)
				if g != nil {
					if d := known.differs(g); d != "" {
						c.Bad("the updated group %q %s", name, d)
					}
				}
				if told {
					sends(m)
				}
				done++
			case 3:
				h := pick()
				known := model[h]
				var err error
				c.NoPanic("LeaveGroup", func() { err = LeaveGroup(h) })
				c.Step("leave group %q, failing %q: %v", h, failing, err)
				if known == nil {
					if err == nil {
						c.Bad("an unknown group is left")
					}
					break
				}
				told := true
				for _, x := range known.members {
					told = told && x != failing
				}
				if told != (err == nil) {
					c.Bad("leaving the group: %v", err)
				}
				if told {
					sends(known.members)
					drop(h)
					done++
				}
			case 4:
				h := pick()
				if model[h] == nil {
					h = fmt.Sprintf("%032x", c.Int("id", 1, 1000))
				}
				id, _ := hex.DecodeString(h)
				m := members()
				gc := &signalservice.GroupContext{Id: id, Type: signalservice.GroupContext_UPDATE.Enum(), Name: proto.String(drawText(c.T, "name")), MembersE164: m}
				whole := append([]string{}, backing...)
				var avatar []byte
				damaged := false
				if c.Chance("avatar", 1, 3) {
					k, iv := kit.Fill(c.T, 64), kit.Fill(c.T, 16)
					avatar = kit.Bytes(200).Draw(c.T, "avatar")
					blob, digest := makeBlob(k, iv, avatar)
					w.nextBlob++
					name := fmt.Sprintf("avatar%d", w.nextBlob)
					if damaged = c.Chance("damaged", 1, 4); damaged {
						blob[c.Int("at", 0, len(blob)-1)] ^= 1
					}
					w.blobs[name] = blob
					gc.Avatar = &signalservice.AttachmentPointer{AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: name}, Key: k, Digest: digest,
						Size: proto.Uint32(uint32(len(avatar))), ContentType: proto.String("image/jpeg")}
				}
				var err error
				c.NoPanic("updateGroup", func() { err = updateGroup(gc) })
				c.Step("group %q becomes %q with %q, an avatar of %d bytes (damaged %v): %v", h, gc.GetName(), m, len(avatar), damaged, err)
				if damaged {
					if err == nil {
						c.Bad("an update with a damaged avatar is taken")
					}
					break
				}
				if err != nil {
					c.Bad("the update of a group is refused: %v", err)
				}
				if model[h] == nil {
					order = append(order, h)
				}
				model[h] = &group25{id: append([]byte{}, id...), name: gc.GetName(), members: append([]string{}, m...), avatar: avatar}
				if c.Chance("then someone leaves", 1, 2) {
					who := kit.Pick(c.T, "who", tels25[:4])
					c.Step("%s quits", who)
					c.NoPanic("quitGroup", func() { err = quitGroup(who, h) })
					if err != nil {
						c.Bad("a member can not quit: %v", err)
					}
					model[h].members = without(model[h].members, who)
				}
				if strings.Join(backing, " ") != strings.Join(whole, " ") {
					c.Bad("applying an update changes the list of the message from %q to %q", whole, backing)
				}
				done++
			case 5:
				h := pick()
				who := kit.Pick(c.T, "who", tels25[:4])
				var err error
				c.NoPanic("quitGroup", func() { err = quitGroup(who, h) })
				c.Step("%s quits group %q: %v", who, h, err)
				if (model[h] == nil) != (err != nil) {
					c.Bad("quitting: %v", err)
				}
				if g := model[h]; g != nil {
					g.members = without(g.members, who)
					done++
				}
			case 6:
				c.Step("restart")
				restart()
			case 7:
				h := pick()
				g, err := GetGroupById(h)
				c.Step("look up %q: %v", h, err)
				if (model[h] == nil) != (err != nil) || (g == nil) != (err != nil) {
					c.Bad("group %q is known: %v; its lookup gives %v, %v", h, model[h] != nil, g, err)
				}
			}
			compare("now")
			checkFiles("now")
		}
		if done > 1 {
			c.NonTrivial()
		}
	})
}

// without removes one member.
func without(l []string, who string) []string {
	for i, m := range l {
		if m == who {
			return append(append([]string{}, l[:i]...), l[i+1:]...)
		}
	}
	return l
}
