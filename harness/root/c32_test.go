//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"pgregory.net/rapid"
)

var zkCases uint64

var zkUsers = []string{ourUUID, "22222222-aaaa-4bbb-8ccc-000000000003", "33333333-0000-4000-8000-000000000001",
	"33333333-0000-4000-8000-000000000002", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"}

func userKey(uuid string, n int) []byte {
	k := bytes.Repeat([]byte{uuid[7] ^ uuid[35]<<2}, 32)
	k[0], k[31] = byte(n), uuid[0]
	return k
}

func drawText(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 4).Draw(t, name+" kind") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "Family 👨‍👩‍👧", "tab\there", "line\nbreak", " padded ", "((((", "---", "a: b", "null", "~", "0x1", "1e3", "\u200fمرحبا", "é", "é",
			"# no comment", "'quoted'", "\"q\"", "{}", "[]", "!!binary", "yes", "2001-01-01", "\u0085\u2028", "\ufeffbom", "\x7f", "a\r\nb", "|", ">", "%", "@", "`", "*a", "&a", "?", "-", "<<"}).Draw(t, name)
	case 1:
		return rapid.StringN(0, 80, 200).Draw(t, name)
	case 2:
		n := rapid.IntRange(0, 140).Draw(t, name+" len")
		b := bytes.Repeat([]byte("x"), n)
		return string(b)
	case 3:
		return rapid.StringMatching(`[A-Za-z ]{1,40}`).Draw(t, name)
	default:
		return rapid.SampledFrom([]string{"Group", "Holiday"}).Draw(t, name)
	}
}

func (g *zkGroup) mutate(c *kit.Case) {
	g.rev++
	for n := c.Int("changes", 1, 3); n > 0; n-- {
		switch c.Int("change", 0, 9) {
		case 0:
			g.title = drawText(c.T, "title")
		case 1:
			g.desc = drawText(c.T, "description")
		case 2:
			g.hasTimer = true
			g.timer = kit.Pick(c.T, "timer", []uint32{0, 1, 60, 604800, 1<<32 - 1})
		case 3:
			g.avatar = drawText(c.T, "avatar")
		case 4:
			g.access = &signalservice.AccessControl{Attributes: signalservice.AccessControl_AccessRequired(c.Int("a", 0, 4)),
				Members: signalservice.AccessControl_AccessRequired(c.Int("m", 0, 4)), AddFromInviteLink: signalservice.AccessControl_AccessRequired(c.Int("l", 0, 4))}
		case 5:
			g.link = kit.Pick(c.T, "link", [][]byte{nil, {1}, bytes.Repeat([]byte{0}, 16), bytes.Repeat([]byte{0xfe}, 16)})
		case 6, 9:
			g.announce = !g.announce
		case 7:
			g.setMembers(c)
		case 8:
			if len(g.members) > 0 {
				i := c.Int("which", 0, len(g.members)-1)
				g.members[i].role = signalservice.Member_Role(c.Int("role", 0, 2))
				g.members[i].key = userKey(g.members[i].uuid, c.Int("key", 0, 1))
			}
		}
	}
}

func (g *zkGroup) setMembers(c *kit.Case) {
	g.members = nil
	off := c.Int("offset", 0, len(zkUsers)-1)
	n := c.Int("members", 0, len(zkUsers))
	for i := 0; i < n; i++ {
		u := zkUsers[(off+i)%len(zkUsers)]
		g.members = append(g.members, zkMember{u, signalservice.Member_Role(c.Int("role", 0, 2)), userKey(u, c.Int("key", 0, 1)), uint32(c.Int("joined", 0, int(g.rev)))})
	}
}

func (g *zkGroup) clone() *zkGroup {
	n := *g
	n.members = append([]zkMember{}, g.members...)
	return &n
}

func init() {
	childHook = func() {
		if os.Getenv("VERIF_CHILD_KIND") != "groups" {
			os.Exit(5)
		}
		var job struct {
			Dir string
			IDs []string
		}
		if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD")), &job); err != nil {
			os.Exit(3)
		}
		config.ConfigFile = &config.Config{StorageDir: job.Dir, UUID: ourUUID}
		if err := setupGroups(); err != nil {
			os.Exit(4)
		}
		out := map[string][]byte{}
		for _, id := range job.IDs {
			g := groupsv2.FindGroup(id)
			if g == nil {
				continue
			}
			r := stored32{Key: g.MasterKey, Hexid: g.Hexid, Join: g.JoinStatus}
			if g.DecryptedGroup != nil {
				r.State, _ = proto.Marshal(g.DecryptedGroup)
				r.Has = true
			}
			out[id], _ = json.Marshal(r)
		}
		b, _ := json.Marshal(out)
		os.Stdout.Write(b)
	}
}

type stored32 struct {
	Key   []byte
	Hexid string
	Join  int
	Has   bool
	State []byte
}

// restarted is what a new process finds.
func restarted(c *kit.Case, dir string, ids []string) map[string]*stored32 {
	job, _ := json.Marshal(map[string]any{"Dir": dir, "IDs": ids})
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(job), "VERIF_CHILD_KIND=groups")
	out, err := cmd.Output()
	if err != nil {
		c.Bad("a new process cannot read the stored groups: %v %s", err, out)
	}
	m := map[string][]byte{}
	if err := json.Unmarshal(out, &m); err != nil {
		c.Broken("%v %s", err, out)
	}
	r := map[string]*stored32{}
	for k, v := range m {
		r[k] = &stored32{}
		if err := json.Unmarshal(v, r[k]); err != nil {
			c.Broken("%v", err)
		}
	}
	return r
}

func TestC32Groups(t *testing.T) {
	kit.Check(t, "a state of a group was fetched and shown", func(c *kit.Case) {
		w := newWorld(c, "")
		zs := w.withGroups()
		if c.Chance("credentials in another order", 1, 3) {
			zs.turn = c.Int("turn", 1, 10)
		}
		bob := newPeer(zkUsers[1], 1)
		w.peers[bob.uuid] = bob
		config.ConfigFile.ProfileKeyCredential = nil
		// the client keeps groups in memory: every case has its own
		zkCases++
		salt := zkCases
		n := c.Int("groups", 1, 3)
		known := map[string]*zkGroup{} // what the client has
		exists := map[string]bool{}    // the client knows of the group
		var ids []string
		for i := 0; i < n; i++ {
			key := bytes.Repeat([]byte{byte(i + 1)}, 32)
			for j := 0; j < 8; j++ {
				key[j] = byte(salt >> (8 * j))
			}
			g := newZkGroup(c, key)
			g.title = drawText(c.T, "title")
			g.rev = uint32(c.Int("rev", 1, 3))
			g.announce = c.Chance("announcements only", 1, 2)
			g.setMembers(c)
			if c.Chance("on the server", 7, 8) {
				g.publish(c)
			}
			zs.groups = append(zs.groups, g)
			ids = append(ids, hex.EncodeToString(key))
		}
		pub := make([]*zkGroup, n) // the group as published
		for i, g := range zs.groups {
			if g.published != nil {
				pub[i] = g.clone()
			}
		}
		isMember := func(g *zkGroup) bool {
			for _, m := range g.members {
				if m.uuid == ourUUID {
					return true
				}
			}
			return false
		}
		compare := func(what string) {
			for i, id := range ids {
				g := groupsv2.FindGroup(id)
				if g == nil {
					if exists[id] {
						c.Bad("%s: group %d is not found", what, i)
					}
					continue
				}
				if !exists[id] {
					c.Bad("%s: group %d is found although nobody told of it", what, i)
				}
				if hex.EncodeToString(g.MasterKey) != id {
					c.Bad("%s: group %d has master key %x", what, i, g.MasterKey)
				}
				k := known[id]
				if k == nil {
					if g.DecryptedGroup != nil {
						c.Bad("%s: group %d has a state that was never fetched", what, i)
					}
					continue
				}
				if d := k.diff(g.DecryptedGroup); d != "" {
					c.Bad("%s: group %d: %s", what, i, d)
				}
				if g.AnnouncementsOnly != k.announce {
					c.Bad("%s: group %d: announcements only %v instead of %v", what, i, g.AnnouncementsOnly, k.announce)
				}
				if g.JoinStatus == groupsv2.GroupV2JoinsStatusMember && !isMember(k) {
					c.Bad("%s: group %d: it is told joined, we are not a member", what, i)
				}
				if err := g.CheckJoinStatus(); err != nil || (g.JoinStatus == groupsv2.GroupV2JoinsStatusMember) != isMember(k) {
					c.Bad("%s: group %d: join status %d, member %v (%v)", what, i, g.JoinStatus, isMember(k), err)
				}
			}
		}
		ts := uint64(100)
		for steps := c.Int("steps", 1, 8); steps > 0; steps-- {
			i := c.Int("group", 0, n-1)
			g, id := zs.groups[i], ids[i]
			at, kind := "", ""
			if c.Chance("fault", 1, 4) {
				at = kit.Pick(c.T, "at", []string{"credentials", "group"})
				kind = kit.Pick(c.T, "kind", []string{"403", "404", "500", "dropped", "garbage", "cut"})
				if kind == "500" {
					kind = fmt.Sprint(kit.Refusal(c.T, "status", []int{400, 401, 500}))
				}
				if at == "credentials" {
					groupsv2.Credentials = nil
				}
			}
			if cr := groupsv2.Credentials; cr != nil && c.Chance("other day", 1, 5) {
				// none is for today then
				off := kit.Pick(c.T, "days", []int64{-8, -40, 1, 9})
				first := cr.Credentials[0].RedemptionTime
				for _, x := range cr.Credentials {
					if x.RedemptionTime < first {
						first = x.RedemptionTime
					}
				}
				by := time.Now().Unix()/86400 + off - first
				for i := range cr.Credentials {
					cr.Credentials[i].RedemptionTime += by
				}
				c.Step("the kept credentials begin %+d days from now", off)
				c.Class("credentials of other days")
			}
			hit := false
			zs.fault = func(where string, rw http.ResponseWriter) bool {
				if where != at {
					return false
				}
				hit = true
				switch kind {
				default:
					var s int
					fmt.Sscan(kind, &s)
					rw.WriteHeader(s)
				case "dropped":
					if cn, _, err := rw.(http.Hijacker).Hijack(); err == nil {
						cn.Close()
					}
				case "garbage":
					rw.Write([]byte("<html>error page</html>"))
				case "cut":
					b := []byte(`{"credentials":[{"credential":"AAAA"`)
					if at == "group" && g.published != nil {
						b, _ = proto.Marshal(g.published)
						b = b[:len(b)-1]
					}
					rw.Write(b)
				}
				return true
			}
			op := c.Int("op", 0, 6)
			switch op {
			case 0: // the group changes on the server
				g.mutate(c)
				g.publish(c)
				pub[i] = g.clone()
				c.Step("group %d changes to revision %d", i, g.rev)
			case 1, 2, 3: // a message in the group
				ts++
				gc := &signalservice.GroupContextV2{MasterKey: g.key, Revision: proto.Uint32(g.rev)}
				var want *signalservice.GroupChange_Actions
				badSig := false
				if c.Chance("change", 1, 3) {
					want = &signalservice.GroupChange_Actions{Revision: g.rev}
					if c.Chance("by", 1, 2) {
						want.SourceUuid = g.encUUID(c, bob.uuid)
					}
					gc.GroupChange = nil
				}
				var adds []zkMember
				var dels []string
				var roles, invites []zkMember
				if want != nil {
					most := kit.Pick(c.T, "at most", []int{2, 2, 0}) // of a kind
					for k := c.Int("adds", 0, most); k > 0; k-- {
						m := zkMember{kit.Pick(c.T, "user", zkUsers), signalservice.Member_Role(c.Int("role", 1, 2)), nil, g.rev}
						m.key = userKey(m.uuid, c.Int("key", 0, 1))
						adds = append(adds, m)
						want.AddMembers = append(want.AddMembers, &signalservice.GroupChange_Actions_AddMemberAction{Added: g.encMember(c, m, c.Chance("presentation", 1, 3))})
					}
					for k := c.Int("deletes", 0, most); k > 0; k-- {
						u := kit.Pick(c.T, "user", zkUsers)
						dels = append(dels, u)
						want.DeleteMembers = append(want.DeleteMembers, &signalservice.GroupChange_Actions_DeleteMemberAction{DeletedUserId: g.encUUID(c, u)})
					}
					for k := c.Int("roles", 0, most); k > 0; k-- {
						m := zkMember{uuid: kit.Pick(c.T, "user", zkUsers), role: signalservice.Member_Role(c.Int("role", 1, 2))}
						roles = append(roles, m)
						want.ModifyMemberRoles = append(want.ModifyMemberRoles, &signalservice.GroupChange_Actions_ModifyMemberRoleAction{UserId: g.encUUID(c, m.uuid), Role: m.role})
					}
					for k := c.Int("invited", 0, most); k > 0; k-- {
						m := zkMember{uuid: kit.Pick(c.T, "user", zkUsers), role: signalservice.Member_Role(c.Int("role", 1, 2)), joined: uint32(c.Int("time", 0, 1<<31-1))}
						invites = append(invites, m)
						want.AddPendingMembers = append(want.AddPendingMembers, &signalservice.GroupChange_Actions_AddPendingMemberAction{Added: &signalservice.PendingMember{
							Member: &signalservice.Member{UserId: g.encUUID(c, m.uuid), Role: m.role}, AddedByUserId: g.encUUID(c, bob.uuid), Timestamp: uint64(m.joined)}})
					}
					gc.GroupChange = g.change(c, want)
					if c.Chance("bad signature", 1, 4) {
						var gch signalservice.GroupChange
						if err := proto.Unmarshal(gc.GroupChange, &gch); err != nil {
							c.Broken("%v", err)
						}
						if c.Chance("actions altered", 1, 2) {
							gch.Actions = append(append([]byte{}, gch.Actions...), 0x10, 0x07)
						} else {
							gch.ServerSignature, _ = kit.Mutate(c.T, gch.ServerSignature)
						}
						none := c.Chance("no signature", 1, 4)
						if none {
							gch.ServerSignature = nil
						}
						gc.GroupChange, _ = proto.Marshal(&gch)
						if none && c.Chance("an empty one", 1, 2) {
							gc.GroupChange = append(gc.GroupChange, 2<<3|2, 0)
						}
						badSig = len(gch.Actions) > 0
					}
				}
				dm := &signalservice.DataMessage{Body: proto.String(fmt.Sprint("text ", ts)), Timestamp: proto.Uint64(ts), GroupV2: gc}
				b, err := proto.Marshal(&signalservice.Content{DataMessage: dm})
				if err != nil {
					c.Broken("%v", err)
				}
				typ, m := bob.devs[1].send(w.ourBundle(true), padTo160(b))
				c.Step("message in group %d at revision %d, change %v, bad signature %v, fault %s %s", i, g.rev, want != nil, badSig, at, kind)
				w.take()
				c.NoPanic("receiving a group message", func() { err = w.deliver(bob, 1, typ, m, ts) })
				calls := w.take()
				fetched := !hit && g.published != nil
				fetch := !exists[id] || known[id] == nil || (want != nil && !badSig) || (want == nil && known[id].rev != g.rev)
				if known[id] == nil && exists[id] && want == nil && g.rev == 0 && !badSig {
					fetch = true
				}
				exists[id] = true
				if badSig {
					if err == nil || len(calls) != 0 {
						c.Bad("a group change with a wrong signature is accepted (%v, %d calls)", err, len(calls))
					}
					// the state may have been fetched before the change was looked at
					if k := groupsv2.FindGroup(id); fetched && fetch && k != nil && k.DecryptedGroup != nil {
						known[id] = pub[i].clone()
					}
					break
				}
				if err != nil || len(calls) != 1 || calls[0].kind != "message" || calls[0].msg.message != *dm.Body {
					c.Bad("a group message leads to %d calls (%v)", len(calls), err)
				}
				if fetched && fetch {
					known[id] = pub[i].clone()
					c.NonTrivial()
					c.Class("fetched by message")
				}
				gr := calls[0].msg.GroupV2()
				if gr == nil || hex.EncodeToString(gr.MasterKey) != id || gr.Hexid != id {
					c.Bad("the message is not shown in its group: %v", gr)
				}
				if k := known[id]; k != nil {
					if d := k.diff(gr.DecryptedGroup); d != "" {
						c.Bad("the message's group: %s", d)
					}
				}
				if a := gr.GroupAction; (a != nil) != (want != nil) {
					c.Bad("group change shown: %v, received: %v", a, want)
				} else if a != nil {
					if a.Revision != want.Revision || len(a.NewMembers) != len(adds) || len(a.DeleteMembers) != len(dels) || len(a.ModifyMemberRoles) != len(roles) || len(a.NewPendingMembers) != len(invites) {
						c.Bad("shown change %v instead of %v", a, want)
					}
					for k, m := range adds {
						o := a.NewMembers[k]
						if !bytes.Equal(o.Uuid, uuidBytes(m.uuid)) || o.Role != m.role || !bytes.Equal(o.ProfileKey, m.key) || o.JoinedAtRevision != m.joined {
							c.Bad("added member %v instead of %v", o, m)
						}
					}
					for k, u := range dels {
						if !bytes.Equal(a.DeleteMembers[k], uuidBytes(u)) {
							c.Bad("removed member %x instead of %s", a.DeleteMembers[k], u)
						}
					}
					for k, m := range roles {
						if o := a.ModifyMemberRoles[k]; !bytes.Equal(o.Uuid, uuidBytes(m.uuid)) || o.Role != m.role {
							c.Bad("role change %v instead of %v", o, m)
						}
					}
					for k, m := range invites {
						if o := a.NewPendingMembers[k]; !bytes.Equal(o.Uuid, uuidBytes(m.uuid)) || o.Role != m.role || !bytes.Equal(o.AddedByUuid, uuidBytes(bob.uuid)) || o.Timestamp != uint64(m.joined) {
							c.Bad("invitation %v instead of %v", o, m)
						}
					}
					c.Class("change shown")
				}
			case 4, 5: // the application asks for the state
				gr := groupsv2.FindGroup(id)
				if gr == nil {
					continue
				}
				c.Step("update of group %d, fault %s %s", i, at, kind)
				var err error
				if op == 4 {
					c.NoPanic("updating", func() { err = gr.UpdateGroupFromServer() })
					if (err == nil) != (!hit && g.published != nil) {
						c.Bad("update of the group: fault %v on the server %v, error %v", hit, g.published != nil, err)
					}
				} else {
					var ms []*signalservice.DecryptedMember
					c.NoPanic("asking for the members", func() { ms, err = GetGroupV2MembersForGroup(id) })
					k := known[id]
					if !hit && g.published != nil {
						k = pub[i]
					}
					if err == nil && k != nil && len(ms) != len(k.members) {
						c.Bad("%d members instead of %d", len(ms), len(k.members))
					}
					if err != nil && !hit && g.published != nil {
						c.Bad("asking for the members fails: %v", err)
					}
				}
				if !hit && g.published != nil {
					known[id] = pub[i].clone()
					c.NonTrivial()
					c.Class("fetched by update")
				}
			case 6: // we are invited and join
				if !exists[id] {
					continue
				}
				g.rev++
				var rest []zkMember
				for _, m := range g.members {
					if m.uuid != ourUUID {
						rest = append(rest, m)
					}
				}
				g.members = rest
				if len(rest) == 0 {
					g.members = []zkMember{{zkUsers[1], 2, userKey(zkUsers[1], 0), 0}}
				}
				invited := c.Chance("invited", 3, 4)
				g.pending = nil
				if c.Chance("another one", 1, 2) {
					g.pending = append(g.pending, zkMember{uuid: zkUsers[3], role: 1})
				}
				if invited {
					g.pending = append(g.pending, zkMember{uuid: ourUUID, role: 1})
				}
				g.publish(c)
				g.pending = nil
				pub[i] = g.clone()
				withCred := c.Chance("credential", 3, 4)
				config.ConfigFile.ProfileKeyCredential = nil
				if withCred {
					config.ConfigFile.ProfileKeyCredential = ourProfileCredential(c)
				}
				refused, status := c.Chance("refused", 1, 4), kit.Refusal(c.T, "status", []int{400, 403, 409, 500})
				zs.patch = nil
				inner := zs.fault
				gets := 0
				zs.fault = func(where string, rw http.ResponseWriter) bool {
					if inner(where, rw) {
						return true
					}
					if where == "group" {
						gets++
						if refused && gets == 2 {
							hit = true
							rw.WriteHeader(status)
							return true
						}
					}
					return false
				}
				c.Step("join group %d, invited %v, credential %v, refused %v, fault %s %s", i, invited, withCred, refused, at, kind)
				var err error
				c.NoPanic("joining", func() { _, err = JoinGroup(id) })
				if ok := invited && withCred && !hit; ok != (err == nil) {
					c.Bad("joining: error %v", err)
				}
				if err == nil {
					if len(zs.patch) != 1 {
						c.Bad("joining sent %d changes", len(zs.patch))
					}
					a := &signalservice.GroupChange_Actions{}
					if err := proto.Unmarshal(zs.patch[0], a); err != nil {
						c.Bad("%v", err)
					}
					if len(a.PromotePendingMembers) != 1 || a.Revision != g.rev+1 || len(a.AddMembers)+len(a.DeleteMembers)+len(a.ModifyMemberRoles) > 0 {
						c.Bad("joining sent the change %v", a)
					}
					p, err := zkgroup.NewProfileKeyCredentialPresentation(a.PromotePendingMembers[0].Presentation)
					if err != nil {
						c.Bad("the presentation is malformed: %v", err)
					}
					if err := zkgroup.NewServerZkProfileOperations(zkSecret).VerifyProfileKeyCredentialPresentation(g.pub, p); err != nil {
						c.Bad("the server does not accept the presentation: %v", err)
					}
					uc, _ := p.UUIDCiphertext()
					if u, err := g.cipher.DecryptUUID(uc); err != nil || !bytes.Equal(u, uuidBytes(ourUUID)) {
						c.Bad("the presentation is not ours")
					}
					c.Class("joined")
				} else if len(zs.patch) > 0 {
					c.Bad("joining fails (%v) but the server got the change", err)
				}
				if at == "" {
					known[id] = pub[i].clone()
				} else if k := groupsv2.FindGroup(id); k != nil && k.DecryptedGroup.GetRevision() == g.rev {
					known[id] = pub[i].clone()
				}
			}
			zs.fault = nil
			compare("after the step")
		}
		found := restarted(c, w.dir, ids)
		for i, id := range ids {
			s := found[id]
			if s == nil {
				if exists[id] {
					c.Bad("group %d is not found after a restart", i)
				}
				continue
			}
			if hex.EncodeToString(s.Key) != id {
				c.Bad("group %d has master key %x after a restart", i, s.Key)
			}
			if k := known[id]; k != nil {
				d := &signalservice.DecryptedGroup{}
				if err := proto.Unmarshal(s.State, d); err != nil || !s.Has {
					c.Bad("group %d has no state after a restart (%v)", i, err)
				}
				if x := k.diff(d); x != "" {
					c.Bad("group %d after a restart: %s", i, x)
				}
			} else if s.Has {
				c.Bad("group %d has a state after a restart that was never fetched", i)
			}
		}
	})
}

var ourCred []byte

// ourProfileCredential is the credential for our profile key.
func ourProfileCredential(c *kit.Case) []byte {
	if ourCred != nil {
		return ourCred
	}
	pub, _ := zkSecret.PublicParams()
	key := []byte("0123456789abcdef0123456789abcdef")
	comm, err := zkgroup.ProfileKeyGetCommitment(key, uuidBytes(ourUUID))
	if err != nil {
		c.Broken("%v", err)
	}
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(pub, uuidBytes(ourUUID), key)
	if err != nil {
		c.Broken("%v", err)
	}
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	if err != nil {
		c.Broken("%v", err)
	}
	resp, err := zkgroup.NewServerZkProfileOperations(zkSecret).IssueProfileKeyCredential(req, uuidBytes(ourUUID), comm)
	if err != nil {
		c.Broken("%v", err)
	}
	cred, err := pub.ReceiveProfileKeyCredential(ctx, resp)
	if err != nil {
		c.Broken("%v", err)
	}
	ourCred = cred
	return cred
}
