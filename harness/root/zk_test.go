//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/groupsv2"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// The model of the group server. Its public parameters stand in for the real
// server's in the build of the harness (see run.py).

var zkSecret zkgroup.ServerSecretParams

func zkInit(c *kit.Case) {
	if zkSecret == nil {
		s, err := zkgroup.GenerateServerSecretParamsDeterministic([]byte("verif zkgroup server seed 000001"))
		if err != nil {
			c.Broken("%v", err)
		}
		zkSecret = s
	}
	pub, _ := zkSecret.PublicParams()
	if base64.StdEncoding.EncodeToString(pub) != config.ZKGROUP_SERVER_PUBLIC_PARAMS {
		c.Broken("the build does not use the model server's parameters")
	}
}

type zkMember struct {
	uuid   string
	role   signalservice.Member_Role
	key    []byte
	joined uint32
}

// zkGroup is a group as its members see it.
type zkGroup struct {
	key       []byte
	params    zkgroup.GroupSecretParams
	pub       []byte
	cipher    *zkgroup.ClientZkGroupCipher
	title     string
	desc      string
	timer     uint32
	hasTimer  bool
	avatar    string
	access    *signalservice.AccessControl
	rev       uint32
	members   []zkMember
	pending   []zkMember
	link      []byte
	announce  bool
	published *signalservice.Group // what the server has, nil: nothing
}

func newZkGroup(c *kit.Case, key []byte) *zkGroup {
	p, err := zkgroup.NewGroupSecretParams(key)
	if err != nil {
		c.Broken("%v", err)
	}
	pub, err := p.PublicParams()
	if err != nil {
		c.Broken("%v", err)
	}
	return &zkGroup{key: key, params: p, pub: pub, cipher: zkgroup.NewClientZkGroupCipher(p), title: "title",
		access: &signalservice.AccessControl{Attributes: 2, Members: 2, AddFromInviteLink: 4}}
}

func uuidBytes(u string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(u, "-", ""))
	if err != nil || len(b) != 16 {
		panic("uuid " + u)
	}
	return b
}

var presCache = map[string][]byte{}

// presentation is a member's proof of the profile key, as the member makes it.
func (g *zkGroup) presentation(c *kit.Case, uuid string, key []byte) []byte {
	id := string(g.key) + uuid + string(key)
	if p, ok := presCache[id]; ok {
		return p
	}
	pub, _ := zkSecret.PublicParams()
	ub := uuidBytes(uuid)
	comm, err := zkgroup.ProfileKeyGetCommitment(key, ub)
	if err != nil {
		c.Broken("%v", err)
	}
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(pub, ub, key)
	if err != nil {
		c.Broken("%v", err)
	}
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	if err != nil {
		c.Broken("%v", err)
	}
	resp, err := zkgroup.NewServerZkProfileOperations(zkSecret).IssueProfileKeyCredential(req, ub, comm)
	if err != nil {
		c.Broken("%v", err)
	}
	cred, err := pub.ReceiveProfileKeyCredential(ctx, resp)
	if err != nil {
		c.Broken("%v", err)
	}
	p, err := pub.CreateProfileKeyCredentialPresentation(g.params, cred)
	if err != nil {
		c.Broken("%v", err)
	}
	if len(presCache) > 5000 {
		presCache = map[string][]byte{}
	}
	presCache[id] = p
	return p
}

func (g *zkGroup) encUUID(c *kit.Case, uuid string) []byte {
	b, err := g.cipher.EncryptUUID(uuidBytes(uuid))
	if err != nil {
		c.Broken("%v", err)
	}
	return b
}

func (g *zkGroup) encKey(c *kit.Case, uuid string, key []byte) []byte {
	p, err := zkgroup.NewProfileKeyCredentialPresentation(g.presentation(c, uuid, key))
	if err != nil {
		c.Broken("%v", err)
	}
	k, err := p.ProfileKeyCiphertext()
	if err != nil {
		c.Broken("%v", err)
	}
	return k
}

func (g *zkGroup) encBlob(c *kit.Case, b *signalservice.GroupAttributeBlob) []byte {
	x, err := proto.Marshal(b)
	if err != nil {
		c.Broken("%v", err)
	}
	e, err := g.cipher.EncryptBlob(x)
	if err != nil {
		c.Broken("%v", err)
	}
	return e
}

func (g *zkGroup) encMember(c *kit.Case, m zkMember, asPresentation bool) *signalservice.Member {
	if asPresentation {
		return &signalservice.Member{Presentation: g.presentation(c, m.uuid, m.key), Role: m.role, JoinedAtRevision: m.joined}
	}
	return &signalservice.Member{UserId: g.encUUID(c, m.uuid), ProfileKey: g.encKey(c, m.uuid, m.key), Role: m.role, JoinedAtRevision: m.joined}
}

// state is the encrypted state, as the server keeps it.
func (g *zkGroup) state(c *kit.Case) *signalservice.Group {
	s := &signalservice.Group{PublicKey: g.pub, Avatar: g.avatar, AccessControl: proto.Clone(g.access).(*signalservice.AccessControl), Revision: g.rev,
		InviteLinkPassword: g.link, AnnouncementsOnly: g.announce}
	s.Title = g.encBlob(c, &signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_Title{Title: g.title}})
	if g.desc != "" {
		s.Description = g.encBlob(c, &signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_Description{Description: g.desc}})
	}
	if g.hasTimer {
		s.DisappearingMessagesTimer = g.encBlob(c, &signalservice.GroupAttributeBlob{Content: &signalservice.GroupAttributeBlob_DisappearingMessagesDuration{DisappearingMessagesDuration: g.timer}})
	}
	for _, m := range g.members {
		s.Members = append(s.Members, g.encMember(c, m, false))
	}
	for _, m := range g.pending {
		s.PendingMembers = append(s.PendingMembers, &signalservice.PendingMember{Member: &signalservice.Member{UserId: g.encUUID(c, m.uuid), Role: m.role},
			AddedByUserId: g.encUUID(c, g.members[0].uuid), Timestamp: 5})
	}
	return s
}

func (g *zkGroup) publish(c *kit.Case) { g.published = g.state(c) }

// diff compares what the code under test shows with the group.
func (g *zkGroup) diff(d *signalservice.DecryptedGroup) string {
	if d == nil {
		return "no state"
	}
	if d.Title != g.title {
		return fmt.Sprintf("title %q instead of %q", d.Title, g.title)
	}
	if d.Description != g.desc {
		return fmt.Sprintf("description %q instead of %q", d.Description, g.desc)
	}
	if d.DisappearingMessagesTimer.GetDuration() != g.timer {
		return fmt.Sprintf("timer %d instead of %d", d.DisappearingMessagesTimer.GetDuration(), g.timer)
	}
	if d.Avatar != g.avatar {
		return fmt.Sprintf("avatar %q instead of %q", d.Avatar, g.avatar)
	}
	if d.Revision != g.rev {
		return fmt.Sprintf("revision %d instead of %d", d.Revision, g.rev)
	}
	if a := d.AccessControl; a.GetAttributes() != g.access.Attributes || a.GetMembers() != g.access.Members || a.GetAddFromInviteLink() != g.access.AddFromInviteLink {
		return fmt.Sprintf("access %v instead of %v", a, g.access)
	}
	if !bytes.Equal(d.InviteLinkPassword, g.link) {
		return "invite link password"
	}
	if (d.IsAnnouncementGroup == signalservice.EnabledState_ENABLED) != g.announce {
		return fmt.Sprintf("announcement setting %v instead of %v", d.IsAnnouncementGroup, g.announce)
	}
	if len(d.Members) != len(g.members) {
		return fmt.Sprintf("%d members instead of %d", len(d.Members), len(g.members))
	}
	for i, m := range g.members {
		o := d.Members[i]
		if !bytes.Equal(o.Uuid, uuidBytes(m.uuid)) || o.Role != m.role || !bytes.Equal(o.ProfileKey, m.key) || o.JoinedAtRevision != m.joined {
			return fmt.Sprintf("member %d is %x role %v joined %d key %x instead of %s %v %d %x", i, o.Uuid, o.Role, o.JoinedAtRevision, o.ProfileKey, m.uuid, m.role, m.joined, m.key)
		}
	}
	return ""
}

// change makes the signed form of a group change.
func (g *zkGroup) change(c *kit.Case, a *signalservice.GroupChange_Actions) []byte {
	b, err := proto.Marshal(a)
	if err != nil {
		c.Broken("%v", err)
	}
	if len(b) == 0 { // nothing to sign
		b = []byte{0x7a, 0} // an unknown field
	}
	sig, err := zkSecret.Sign(b)
	if err != nil {
		c.Broken("%v", err)
	}
	x, err := proto.Marshal(&signalservice.GroupChange{Actions: b, ServerSignature: sig, ChangeEpoch: uint32(c.Int("epoch", 0, 5))})
	if err != nil {
		c.Broken("%v", err)
	}
	return x
}

// zkServer is the group server's part of the model server.
type zkServer struct {
	c      *kit.Case
	groups []*zkGroup
	patch  [][]byte
	fault  func(at string, w http.ResponseWriter) bool
	gets   int
	turn   int // by how much the list of credentials is rotated
}

func (w *world) withGroups() *zkServer {
	zkInit(w.c)
	s := &zkServer{c: w.c}
	groupsv2.Credentials = nil
	w.extra = s.serve
	return s
}

var credCache = map[string][]byte{}

func (s *zkServer) serve(w http.ResponseWriter, r *http.Request, body []byte) bool {
	p := r.URL.Path
	switch {
	case strings.HasPrefix(p, "/v1/certificate/group/"):
		if s.fault != nil && s.fault("credentials", w) {
			return true
		}
		f := strings.Split(strings.TrimPrefix(p, "/v1/certificate/group/"), "/")
		from, _ := strconv.Atoi(f[0])
		to, _ := strconv.Atoi(f[len(f)-1])
		if len(f) != 2 || to < from || to-from > 10 {
			w.WriteHeader(400)
			return true
		}
		var cs []any
		for d := from; d <= to; d++ {
			k := fmt.Sprint(config.ConfigFile.UUID, d)
			if credCache[k] == nil {
				cr, err := zkgroup.NewServerZkAuthOperations(zkSecret).IssueAuthCredential(uuidBytes(config.ConfigFile.UUID), uint32(d))
				if err != nil {
					w.WriteHeader(500)
					return true
				}
				credCache[k] = cr
			}
			cs = append(cs, map[string]any{"credential": credCache[k], "redemptionTime": d})
		}
		k := s.turn % len(cs)
		cs = append(append([]any{}, cs[k:]...), cs[:k]...)
		jsonReply(w, 200, map[string]any{"credentials": cs})
		return true
	case p == "/v1/groups/":
		user, pass, ok := r.BasicAuth()
		pub, err1 := hex.DecodeString(user)
		pres, err2 := hex.DecodeString(pass)
		if !ok || err1 != nil || err2 != nil || len(pub) == 0 || len(pres) == 0 {
			w.WriteHeader(401)
			return true
		}
		if err := zkgroup.NewServerZkAuthOperations(zkSecret).VerifyAuthCredentialPresentation(pub, pres); err != nil {
			w.WriteHeader(401)
			return true
		}
		ap, err := zkgroup.NewAuthCredentialPresentation(pres)
		if err != nil {
			w.WriteHeader(401)
			return true
		}
		if day, err := ap.RedemptionTime(); err != nil || int64(day) != time.Now().Unix()/86400 {
			w.WriteHeader(401)
			return true
		}
		if s.fault != nil && s.fault("group", w) {
			return true
		}
		s.gets++
		for _, g := range s.groups {
			if bytes.Equal(g.pub, pub) && g.published != nil {
				if r.Method == "PATCH" {
					s.patch = append(s.patch, body)
					w.WriteHeader(200)
					return true
				}
				b, _ := proto.Marshal(g.published)
				w.Write(b)
				return true
			}
		}
		w.WriteHeader(404)
		return true
	}
	return false
}
