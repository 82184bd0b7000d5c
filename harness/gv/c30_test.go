//go:build go1.22

package groupsv2

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/entities"
	pb "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"google.golang.org/protobuf/proto"
)

type (
	grp  = pb.DecryptedGroup
	act  = pb.GroupChange_Actions
	req  = pb.AccessControl_AccessRequired
	role = pb.Member_Role
)

const (
	rDefault = pb.Member_DEFAULT
	rAdmin   = pb.Member_ADMINISTRATOR
)

// verdict of the rules
type verdict int

const (
	refuse verdict = iota
	accept
	unsure
)

func (v verdict) String() string { return [...]string{"refused", "accepted", "either"}[v] }

// model30 is a group with the rules for changing it, as described in the
// documentation of modern groups.
type model30 struct {
	d    *grp
	ann  bool
	orig *grp // what permissions are judged by
	pk   []byte
	me   *entities.GroupUser
	pw   []byte
}

func (m *model30) who() *pb.DecryptedMember {
	if !bytes.Equal(m.me.GroupPublicKey, m.pk) {
		return nil
	}
	for _, x := range m.orig.Members {
		if bytes.Equal(x.Uuid, m.me.UserCiphertext) {
			return x
		}
	}
	return nil
}
func (m *model30) admin() bool { w := m.who(); return w != nil && w.Role == rAdmin }
func (m *model30) self(id []byte) bool {
	return bytes.Equal(m.me.GroupPublicKey, m.pk) && bytes.Equal(m.me.UserCiphertext, id)
}
func (m *model30) attributes() bool {
	w := m.who()
	if w == nil {
		return false
	}
	switch m.orig.GetAccessControl().GetAttributes() {
	case pb.AccessControl_ANY, pb.AccessControl_MEMBER:
		return true
	case pb.AccessControl_ADMINISTRATOR:
		return w.Role == rAdmin
	}
	return false
}
func (m *model30) open() bool {
	a := m.orig.GetAccessControl().GetMembers()
	return a == pb.AccessControl_ANY || a == pb.AccessControl_MEMBER
}
func (m *model30) ok(b bool) verdict {
	if b {
		return accept
	}
	return refuse
}
func has[T interface{ GetUuid() []byte }](xs []T, id []byte) int {
	for i, x := range xs {
		if bytes.Equal(x.GetUuid(), id) {
			return i
		}
	}
	return -1
}
func without[T interface{ GetUuid() []byte }](xs []T, id []byte) []T {
	var out []T
	for _, x := range xs {
		if !bytes.Equal(x.GetUuid(), id) {
			out = append(out, x)
		}
	}
	return out
}
func dup(ids [][]byte) bool {
	m := map[string]bool{}
	for _, id := range ids {
		if m[string(id)] {
			return true
		}
		m[string(id)] = true
	}
	return false
}

func (m *model30) addMembers(xs []*pb.GroupChange_Actions_AddMemberAction, rev uint32) verdict {
	if len(xs) == 0 {
		return accept
	}
	w := m.who()
	link := m.orig.GetAccessControl().GetAddFromInviteLink() == pb.AccessControl_ANY && bytes.Equal(m.pw, m.orig.InviteLinkPassword)
	if w == nil {
		if !link && m.orig.GetAccessControl().GetMembers() != pb.AccessControl_ANY {
			return refuse
		}
		if len(xs) != 1 || !m.self(xs[0].GetAdded().GetUserId()) {
			return refuse
		}
	} else if w.Role != rAdmin && !m.open() {
		return refuse
	}
	var ids [][]byte
	for _, x := range xs {
		a := x.GetAdded()
		if a == nil || len(a.UserId) == 0 || len(a.ProfileKey) == 0 || a.Role == pb.Member_UNKNOWN || a.Role == rAdmin && !m.admin() || has(m.orig.Members, a.UserId) >= 0 {
			return refuse
		}
		ids = append(ids, a.UserId)
	}
	if dup(ids) {
		return refuse
	}
	for _, x := range xs {
		a := x.Added
		m.d.Members = append(m.d.Members, &pb.DecryptedMember{Uuid: a.UserId, Role: a.Role, ProfileKey: a.ProfileKey, JoinedAtRevision: rev + 1})
		m.d.PendingMembers = without(m.d.PendingMembers, a.UserId)
		m.d.RequestingMembers = without(m.d.RequestingMembers, a.UserId)
	}
	return accept
}
func (m *model30) deleteMembers(xs []*pb.GroupChange_Actions_DeleteMemberAction) verdict {
	if len(xs) == 0 {
		return accept
	}
	var ids [][]byte
	for _, x := range xs {
		ids = append(ids, x.DeletedUserId)
	}
	if !m.admin() && !(len(ids) == 1 && m.self(ids[0])) || dup(ids) {
		return refuse
	}
	for _, id := range ids {
		if has(m.d.Members, id) < 0 {
			return refuse
		}
	}
	for _, id := range ids {
		m.d.Members = without(m.d.Members, id)
	}
	return accept
}
func (m *model30) roles(xs []*pb.GroupChange_Actions_ModifyMemberRoleAction) verdict {
	if len(xs) == 0 {
		return accept
	}
	if !m.admin() {
		return refuse
	}
	var ids [][]byte
	for _, x := range xs {
		if x.Role == pb.Member_UNKNOWN || has(m.d.Members, x.UserId) < 0 {
			return refuse
		}
		ids = append(ids, x.UserId)
	}
	if dup(ids) {
		return refuse
	}
	for _, x := range xs {
		m.d.Members[has(m.d.Members, x.UserId)].Role = x.Role
	}
	return accept
}
func (m *model30) invite(xs []*pb.GroupChange_Actions_AddPendingMemberAction) verdict {
	if len(xs) == 0 {
		return accept
	}
	if !m.admin() && !(m.who() != nil && m.open()) {
		return refuse
	}
	var ids [][]byte
	v := accept
	for _, x := range xs {
		a := x.GetAdded().GetMember()
		if a == nil || len(a.UserId) == 0 || len(a.ProfileKey) != 0 || len(a.Presentation) != 0 || a.Role == pb.Member_UNKNOWN || a.Role == rAdmin && !m.admin() {
			return refuse
		}
		if has(m.d.Members, a.UserId) >= 0 || has(m.d.PendingMembers, a.UserId) >= 0 {
			return refuse
		}
		if has(m.d.RequestingMembers, a.UserId) >= 0 {
			v = unsure // refused for what the group would become
		}
		ids = append(ids, a.UserId)
	}
	if dup(ids) {
		return refuse
	}
	for _, x := range xs {
		a := x.Added.Member
		m.d.PendingMembers = append(m.d.PendingMembers, &pb.DecryptedPendingMember{Uuid: a.UserId, Role: a.Role, AddedByUuid: m.me.UserCiphertext, Timestamp: 1 << 40})
	}
	return v
}
func (m *model30) deletePending(xs []*pb.GroupChange_Actions_DeletePendingMemberAction) verdict {
	if len(xs) == 0 {
		return accept
	}
	var ids [][]byte
	for _, x := range xs {
		ids = append(ids, x.DeletedUserId)
	}
	if !m.admin() && !(len(ids) == 1 && m.self(ids[0])) || dup(ids) {
		return refuse
	}
	for _, id := range ids {
		if has(m.d.PendingMembers, id) < 0 {
			return refuse
		}
	}
	for _, id := range ids {
		m.d.PendingMembers = without(m.d.PendingMembers, id)
	}
	return accept
}
func (m *model30) deleteRequests(xs []*pb.GroupChange_Actions_DeleteRequestingMemberAction) verdict {
	var ids [][]byte
	for _, x := range xs {
		ids = append(ids, x.DeletedUserId)
	}
	if !m.admin() && !(len(ids) == 1 && m.self(ids[0])) || dup(ids) {
		return refuse
	}
	for _, id := range ids {
		if has(m.d.RequestingMembers, id) < 0 {
			return refuse
		}
	}
	for _, id := range ids {
		m.d.RequestingMembers = without(m.d.RequestingMembers, id)
	}
	return accept
}
func (m *model30) approve(xs []*pb.GroupChange_Actions_PromoteRequestingMemberAction, rev uint32) verdict {
	if !m.admin() {
		return refuse
	}
	var ids [][]byte
	for _, x := range xs {
		if has(m.d.RequestingMembers, x.UserId) < 0 || has(m.d.Members, x.UserId) >= 0 {
			return refuse
		}
		ids = append(ids, x.UserId)
	}
	if dup(ids) {
		return refuse
	}
	for _, x := range xs {
		m.d.Members = append(m.d.Members, &pb.DecryptedMember{Uuid: x.UserId, Role: x.Role, ProfileKey: m.d.RequestingMembers[has(m.d.RequestingMembers, x.UserId)].ProfileKey, JoinedAtRevision: rev + 1})
		m.d.RequestingMembers = without(m.d.RequestingMembers, x.UserId)
	}
	return accept
}
func (m *model30) ask(xs []*pb.GroupChange_Actions_AddRequestingMemberAction) verdict {
	if len(xs) != 1 || xs[0].GetAdded() == nil {
		return refuse
	}
	a := xs[0].Added
	if m.orig.GetAccessControl().GetAddFromInviteLink() != pb.AccessControl_ADMINISTRATOR || !bytes.Equal(m.pw, m.orig.InviteLinkPassword) || !m.self(a.UserId) ||
		has(m.d.Members, a.UserId) >= 0 || has(m.d.PendingMembers, a.UserId) >= 0 || has(m.d.RequestingMembers, a.UserId) >= 0 {
		return refuse
	}
	m.d.RequestingMembers = append(m.d.RequestingMembers, &pb.DecryptedRequestingMember{Uuid: a.UserId, ProfileKey: a.ProfileKey, Timestamp: a.Timestamp})
	return accept
}
func (m *model30) ac() *pb.AccessControl {
	if m.d.AccessControl == nil {
		m.d.AccessControl = &pb.AccessControl{}
	}
	return m.d.AccessControl
}

// ---- generation

var ids30 = func() (ids [][]byte) {
	for i := 0; i < 9; i++ {
		ids = append(ids, []byte(fmt.Sprintf("member-%d-%s", i%5, strings.Repeat("x", i/5))))
	}
	return
}()

func bad30(c *kit.Case) bool { return c.Chance("defect", 1, 12) }

// state30 draws a well formed group; in odd, one that need not be.
func state30(c *kit.Case, odd bool) *grp {
	d := &grp{Title: kit.Pick(c.T, "title", []string{"g", "Group", "Family"}), Description: kit.Pick(c.T, "desc", []string{"", "d", "something"}), Avatar: "", Revision: uint32(c.Int("rev", 0, 9))}
	d.AccessControl = &pb.AccessControl{Attributes: req(c.Int("attributes", 2, 3)), Members: req(c.Int("members", 2, 3)), AddFromInviteLink: req(kit.Pick(c.T, "link", []int{0, 1, 3, 4}))}
	if odd && c.Chance("odd access", 1, 2) {
		d.AccessControl = &pb.AccessControl{Attributes: req(c.Int("attributes", 0, 4)), Members: req(c.Int("members", 0, 4)), AddFromInviteLink: req(c.Int("link", 0, 4))}
	}
	if odd && c.Chance("no access control", 1, 12) {
		d.AccessControl = nil
	}
	if l := d.GetAccessControl().GetAddFromInviteLink(); odd || l == 1 || l == 3 || c.Chance("password", 1, 2) {
		d.InviteLinkPassword = append([]byte{1}, kit.Fill(c.T, c.Int("password length", 0, 16))...)
	}
	for _, id := range ids30 {
		switch k := c.Int("list", 0, 5); {
		case k < 2:
			d.Members = append(d.Members, &pb.DecryptedMember{Uuid: id, Role: kit.Pick(c.T, "role", []role{rDefault, rAdmin}), ProfileKey: append([]byte{9}, id...), JoinedAtRevision: uint32(c.Int("joined", 0, 5))})
		case k == 2:
			d.PendingMembers = append(d.PendingMembers, &pb.DecryptedPendingMember{Uuid: id, Role: kit.Pick(c.T, "role", []role{rDefault, rAdmin}), AddedByUuid: ids30[0], Timestamp: 5})
		case k == 3:
			d.RequestingMembers = append(d.RequestingMembers, &pb.DecryptedRequestingMember{Uuid: id, ProfileKey: append([]byte{8}, id...), Timestamp: 6})
		}
	}
	return d
}

// id30 draws an id, mostly of the list the change is about.
func id30(c *kit.Case, me []byte, from [][]byte) []byte {
	switch k := c.Int("id", 0, 9); {
	case k < 2:
		return me
	case k < 8 && len(from) > 0:
		return kit.Pick(c.T, "from", from)
	default:
		return kit.Pick(c.T, "any", ids30)
	}
}
func members30(d *grp) (out [][]byte) {
	for _, x := range d.Members {
		out = append(out, x.Uuid)
	}
	return
}
func pending30(d *grp) (out [][]byte) {
	for _, x := range d.PendingMembers {
		out = append(out, x.Uuid)
	}
	return
}
func asking30(d *grp) (out [][]byte) {
	for _, x := range d.RequestingMembers {
		out = append(out, x.Uuid)
	}
	return
}
func strangers30(d *grp) (out [][]byte) {
	for _, id := range ids30 {
		if has(d.Members, id) < 0 && has(d.PendingMembers, id) < 0 && has(d.RequestingMembers, id) < 0 {
			out = append(out, id)
		}
	}
	return
}
func role30(c *kit.Case) role {
	if bad30(c) {
		return pb.Member_UNKNOWN
	}
	return kit.Pick(c.T, "role", []role{rDefault, rDefault, rAdmin})
}

const avatar30 = "groups/Z3JvdXA=/AAECAwQFBgcICQoLDA0ODw=="

// distinct30 mostly draws different ids for the items of one change.
func distinct30(c *kit.Case, n int, draw func() []byte) (out [][]byte) {
	for i := 0; i < n; i++ {
		id := draw()
		for try := 0; try < 4 && dup(append(out, id)) && !bad30(c); try++ {
			id = draw()
		}
		out = append(out, append([]byte{}, id...))
	}
	return
}

// change30 adds one kind of change to the actions.
func change30(c *kit.Case, kind string, me []byte, d *grp, a *act) {
	n := kit.Pick(c.T, "items", []int{1, 1, 1, 2, 3})
	if (kind == "ask" || kind == "add members" && has(d.Members, me) < 0) && !bad30(c) {
		n = 1
	}
	ids := func(from [][]byte) [][]byte {
		if n == 1 && (kind == "ask" || kind == "add members" && has(d.Members, me) < 0) && !bad30(c) {
			return [][]byte{append([]byte{}, me...)}
		}
		return distinct30(c, n, func() []byte { return id30(c, me, from) })
	}
	switch kind {
	case "add members":
		a.AddMembers = nil
		for _, id := range ids(append(strangers30(d), pending30(d)...)) {
			m := &pb.Member{UserId: id, ProfileKey: []byte("key of " + string(id)), Role: role30(c)}
			if bad30(c) {
				m.ProfileKey = nil
			}
			if bad30(c) {
				m.UserId = nil
			}
			if bad30(c) {
				m = nil
			}
			a.AddMembers = append(a.AddMembers, &pb.GroupChange_Actions_AddMemberAction{Added: m})
		}
	case "delete members":
		a.DeleteMembers = nil
		for _, id := range ids(members30(d)) {
			a.DeleteMembers = append(a.DeleteMembers, &pb.GroupChange_Actions_DeleteMemberAction{DeletedUserId: id})
		}
	case "roles":
		a.ModifyMemberRoles = nil
		for _, id := range ids(members30(d)) {
			a.ModifyMemberRoles = append(a.ModifyMemberRoles, &pb.GroupChange_Actions_ModifyMemberRoleAction{UserId: id, Role: role30(c)})
		}
	case "invite":
		a.AddPendingMembers = nil
		for _, id := range ids(strangers30(d)) {
			m := &pb.PendingMember{Member: &pb.Member{UserId: id, Role: role30(c)}}
			if bad30(c) {
				m.Member.ProfileKey = []byte("key")
			}
			if bad30(c) {
				m.Member.Presentation = []byte("presentation")
			}
			if bad30(c) {
				m.Member.UserId = nil
			}
			if bad30(c) {
				m.Member = nil
			}
			if bad30(c) {
				m = nil
			}
			a.AddPendingMembers = append(a.AddPendingMembers, &pb.GroupChange_Actions_AddPendingMemberAction{Added: m})
		}
	case "withdraw":
		a.DeletePendingMembers = nil
		for _, id := range ids(pending30(d)) {
			a.DeletePendingMembers = append(a.DeletePendingMembers, &pb.GroupChange_Actions_DeletePendingMemberAction{DeletedUserId: id})
		}
	case "title":
		a.ModifyTitle = &pb.GroupChange_Actions_ModifyTitleAction{Title: []byte(kit.Pick(c.T, "new title", []string{"New", "title", "", "a title that is a bit longer"}))}
	case "avatar":
		a.ModifyAvatar = &pb.GroupChange_Actions_ModifyAvatarAction{Avatar: kit.Pick(c.T, "new avatar", []string{avatar30, ""})}
	case "timer":
		a.ModifyDisappearingMessagesTimer = &pb.GroupChange_Actions_ModifyDisappearingMessagesTimerAction{Timer: kit.Fill(c.T, 8)}
	case "attributes access":
		a.ModifyAttributesAccess = &pb.GroupChange_Actions_ModifyAttributesAccessControlAction{AttributesAccess: req(kit.Pick(c.T, "new access", []int{2, 3, 2, 3, 0, 1, 4, 9}))}
	case "members access":
		a.ModifyMemberAccess = &pb.GroupChange_Actions_ModifyMembersAccessControlAction{MembersAccess: req(kit.Pick(c.T, "new access", []int{2, 3, 2, 3, 0, 1, 4, 9}))}
	case "link access":
		a.ModifyAddFromInviteLinkAccess = &pb.GroupChange_Actions_ModifyAddFromInviteLinkAccessControlAction{AddFromInviteLinkAccess: req(kit.Pick(c.T, "new access", []int{1, 3, 4, 1, 3, 0, 2, 9}))}
	case "ask":
		a.AddRequestingMembers = nil
		for _, id := range ids(append(strangers30(d), me, me)) {
			m := &pb.RequestingMember{UserId: id, ProfileKey: []byte("key of " + string(id)), Timestamp: 7}
			if bad30(c) {
				m = nil
			}
			a.AddRequestingMembers = append(a.AddRequestingMembers, &pb.GroupChange_Actions_AddRequestingMemberAction{Added: m})
		}
	case "turn down":
		a.DeleteRequestingMembers = nil
		for _, id := range ids(asking30(d)) {
			a.DeleteRequestingMembers = append(a.DeleteRequestingMembers, &pb.GroupChange_Actions_DeleteRequestingMemberAction{DeletedUserId: id})
		}
	case "approve":
		a.PromoteRequestingMembers = nil
		for _, id := range ids(asking30(d)) {
			a.PromoteRequestingMembers = append(a.PromoteRequestingMembers, &pb.GroupChange_Actions_PromoteRequestingMemberAction{UserId: id, Role: kit.Pick(c.T, "role", []role{rDefault, rAdmin})})
		}
	case "password":
		a.ModifyInviteLinkPassword = &pb.GroupChange_Actions_ModifyInviteLinkPasswordAction{InviteLinkPassword: kit.Fill(c.T, kit.Pick(c.T, "new password", []int{16, 16, 1, 0}))}
	case "description":
		a.ModifyDescription = &pb.GroupChange_Actions_ModifyDescriptionAction{Description: []byte(kit.Pick(c.T, "new description", []string{"New", "", "a description that is rather longer than that"}))}
	case "announcements":
		a.ModifyAnnouncementsOnly = &pb.GroupChange_Actions_ModifyAnnouncementsOnlyAction{AnnouncementsOnly: c.Chance("announcements", 1, 2)}
	}
}

var kinds30 = []string{"add members", "delete members", "roles", "invite", "withdraw", "title", "avatar", "timer", "attributes access", "members access", "link access", "ask", "turn down", "approve",
	"password", "description", "announcements"}

// judge30 applies the rules for one kind of change.
func (m *model30) judge(kind string, a *act, rev uint32) verdict {
	switch kind {
	case "add members":
		return m.addMembers(a.AddMembers, rev)
	case "delete members":
		return m.deleteMembers(a.DeleteMembers)
	case "roles":
		return m.roles(a.ModifyMemberRoles)
	case "invite":
		return m.invite(a.AddPendingMembers)
	case "withdraw":
		return m.deletePending(a.DeletePendingMembers)
	case "turn down":
		return m.deleteRequests(a.DeleteRequestingMembers)
	case "approve":
		return m.approve(a.PromoteRequestingMembers, rev)
	case "ask":
		return m.ask(a.AddRequestingMembers)
	case "title":
		if m.attributes() && len(a.ModifyTitle.Title) > 0 {
			m.d.Title = string(a.ModifyTitle.Title)
			return accept
		}
	case "description":
		if m.attributes() {
			m.d.Description = string(a.ModifyDescription.Description)
			return accept
		}
	case "avatar":
		if m.attributes() {
			m.d.Avatar = a.ModifyAvatar.Avatar
			return accept
		}
	case "timer":
		return m.ok(m.attributes())
	case "attributes access":
		if x := a.ModifyAttributesAccess.AttributesAccess; m.admin() && (x == 2 || x == 3) {
			m.ac().Attributes = x
			return accept
		}
	case "members access":
		if x := a.ModifyMemberAccess.MembersAccess; m.admin() && (x == 2 || x == 3) {
			m.ac().Members = x
			return accept
		}
	case "link access":
		if x := a.ModifyAddFromInviteLinkAccess.AddFromInviteLinkAccess; m.admin() && (x == 1 || x == 3 || x == 4) {
			m.ac().AddFromInviteLink = x
			return accept
		}
	case "password":
		if m.admin() {
			m.d.InviteLinkPassword = a.ModifyInviteLinkPassword.InviteLinkPassword
			return accept
		}
	case "announcements":
		if m.admin() {
			m.ann = a.ModifyAnnouncementsOnly.AnnouncementsOnly
			return accept
		}
	}
	return refuse
}

// call30 has the code under test apply one kind of change.
func call30(k *GroupChangeApplicator, kind string, u *entities.GroupUser, pw []byte, g *GroupV2, a *act, im *GroupV2) error {
	switch kind {
	case "add members":
		return k.ApplyAddMembers(u, pw, g, a.AddMembers, im)
	case "delete members":
		return k.ApplyDeleteMembers(u, pw, g, a.DeleteMembers, im)
	case "roles":
		return k.ApplyModifyMemberRoles(u, pw, g, a.ModifyMemberRoles, im)
	case "invite":
		return k.ApplyAddMembersPendingProfileKeys(u, pw, g, a.AddPendingMembers, im)
	case "withdraw":
		return k.ApplyDeleteMembersPendingProfileKey(u, pw, g, a.DeletePendingMembers, im)
	case "title":
		return k.ApplyModifyTitle(u, pw, g, a.ModifyTitle, im)
	case "avatar":
		return k.ApplyModifyAvatar(u, pw, g, a.ModifyAvatar, im)
	case "timer":
		return k.ApplyModifyDisappearingMessageTimer(u, pw, g, a.ModifyDisappearingMessagesTimer, im)
	case "attributes access":
		return k.ApplyModifyAttributesAccess(u, pw, g, a.ModifyAttributesAccess, im)
	case "members access":
		return k.ApplyModifyMembersAccess(u, pw, g, a.ModifyMemberAccess, im)
	case "link access":
		return k.ApplyModifyAddFromInviteLinkAccess(u, pw, g, a.ModifyAddFromInviteLinkAccess, im)
	case "ask":
		return k.ApplyAddMembersPendingAdminApproval(u, pw, g, a.AddRequestingMembers, im)
	case "turn down":
		return k.ApplyDeleteMembersPendingAdminApproval(u, pw, g, a.DeleteRequestingMembers, im)
	case "approve":
		return k.ApplyPromotePendingAdminApproval(u, pw, g, a.PromoteRequestingMembers, im)
	case "password":
		return k.ApplyModifyInviteLinkPassword(u, pw, g, a.ModifyInviteLinkPassword, im)
	case "description":
		return k.ApplyModifyDescription(u, pw, g, a.ModifyDescription, im)
	default:
		return k.ApplyModifyAnnouncementsOnly(u, pw, g, a.ModifyAnnouncementsOnly, im)
	}
}

func clone30(d *grp) *grp { return proto.Clone(d).(*grp) }

// show30 is the group without what depends on the time of the change; the
// order of the lists does not matter.
func show30(d *grp) string {
	x := clone30(d)
	x.DisappearingMessagesTimer = nil
	var l []string
	for _, m := range x.Members {
		l = append(l, fmt.Sprintf("member %q %v %q since %d", m.Uuid, m.Role, m.ProfileKey, m.JoinedAtRevision))
	}
	for _, m := range x.PendingMembers {
		l = append(l, fmt.Sprintf("pending %q %v by %q %s", m.Uuid, m.Role, m.AddedByUuid, when30(m.Timestamp)))
	}
	for _, m := range x.RequestingMembers {
		l = append(l, fmt.Sprintf("asking %q %q %s", m.Uuid, m.ProfileKey, when30(m.Timestamp)))
	}
	sort.Strings(l)
	return fmt.Sprintf("%q %q %q %v access %d %d %d password %x\n  %s", x.Title, x.Description, x.Avatar, x.Revision, x.GetAccessControl().GetAttributes(), x.GetAccessControl().GetMembers(), x.GetAccessControl().GetAddFromInviteLink(),
		x.InviteLinkPassword, strings.Join(l, "\n  "))
}

// when30 tells the time of a change, which is now, from others
func when30(ts uint64) string {
	if ts > 1e9 {
		return "now"
	}
	return fmt.Sprint("at ", ts)
}

func actor30(c *kit.Case, d *grp, pk []byte) *entities.GroupUser {
	var id []byte
	switch k := c.Int("actor", 0, 9); {
	case k < 6 && len(d.Members) > 0:
		id = kit.Pick(c.T, "member", members30(d))
	case k == 6 && len(d.PendingMembers) > 0:
		id = kit.Pick(c.T, "pending", pending30(d))
	case k == 7 && len(d.RequestingMembers) > 0:
		id = kit.Pick(c.T, "asking", asking30(d))
	default:
		id = kit.Pick(c.T, "anybody", ids30)
	}
	u := &entities.GroupUser{UserCiphertext: id, GroupPublicKey: pk, GroupId: []byte("group"), StrGroupId: "group", StrUserUUId: "u"}
	if bad30(c) {
		u.GroupPublicKey = []byte("the key of another group")
	}
	return u
}

func limits30(size, title, desc int) *config.Config {
	cf := &config.Config{}
	cf.Group.MaxGroupSize, cf.Group.MaxGroupTitleLengthBytes, cf.Group.MaxGroupDescriptionLengthBytes = size, title, desc
	return cf
}

func kindOf(u *entities.GroupUser, m *model30) string {
	switch w := m.who(); {
	case w == nil && has(m.orig.PendingMembers, u.UserCiphertext) >= 0:
		return "an invited"
	case w == nil && has(m.orig.RequestingMembers, u.UserCiphertext) >= 0:
		return "an asking"
	case w == nil:
		return "a stranger"
	case w.Role == rAdmin:
		return "an admin"
	}
	return "a member"
}

func TestC30Actions(t *testing.T) {
	kit.Check(t, "a change was applied to a group, or refused for one reason", func(c *kit.Case) {
		pk := []byte("public key of the group")
		d := state30(c, c.Chance("odd", 1, 3))
		kind := kit.Pick(c.T, "kind", kinds30)
		u := actor30(c, d, pk)
		if link := map[string]req{"ask": pb.AccessControl_ADMINISTRATOR, "add members": pb.AccessControl_ANY}[kind]; link != 0 && d.AccessControl != nil && c.Chance("by link", 2, 3) {
			d.AccessControl.AddFromInviteLink = link
			if len(d.InviteLinkPassword) == 0 {
				d.InviteLinkPassword = []byte("password")
			}
			if from := strangers30(d); len(from) > 0 {
				u.UserCiphertext = kit.Pick(c.T, "stranger", from)
			}
		}
		pw := d.InviteLinkPassword
		if bad30(c) {
			pw = append([]byte{0}, pw...)
		} else if bad30(c) {
			pw = nil
		}
		a := &act{}
		change30(c, kind, u.UserCiphertext, d, a)
		rev := uint32(c.Int("revision", 0, 5))
		g := &GroupV2{MasterKey: pk, Hexid: "aa", DecryptedGroup: clone30(d), Revision: rev, AnnouncementsOnly: c.Chance("announcement group", 1, 2)}
		im := &GroupV2{MasterKey: pk, Hexid: "aa", DecryptedGroup: clone30(d), Revision: rev, AnnouncementsOnly: g.AnnouncementsOnly}
		m := &model30{d: clone30(d), orig: d, ann: g.AnnouncementsOnly, pk: pk, me: u, pw: pw}
		want := m.judge(kind, a, rev)
		asked := proto.Clone(a)
		k := NewGroupChangeApplicator(NewGroupValidator(nil, limits30(100, 100, 100)))
		var err error
		c.NoPanic(kind, func() { err = call30(k, kind, u, append([]byte{}, pw...), g, a, im) })
		who := kindOf(u, m)
		c.Step("%s %q, group %s\nasks for %s: %v", who, u.UserCiphertext, show30(d), asked, err)
		if want != unsure && (want == accept) != (err == nil) {
			c.Bad("%s: %s by %s should be %v: %v", kind, who, u.UserCiphertext, want, err)
		}
		if err != nil && (show30(g.DecryptedGroup) != show30(d) || g.AnnouncementsOnly != im.AnnouncementsOnly) {
			c.Bad("%s: refused, but the group becomes\n%s", kind, show30(g.DecryptedGroup))
		}
		if err == nil && (show30(g.DecryptedGroup) != show30(m.d) || g.AnnouncementsOnly != m.ann) {
			c.Bad("%s: the group becomes\n%s\ninstead of\n%s", kind, show30(g.DecryptedGroup), show30(m.d))
		}
		if !proto.Equal(im.DecryptedGroup, d) {
			c.Bad("%s: the original group becomes\n%s", kind, show30(im.DecryptedGroup))
		}
		c.Class(fmt.Sprintf("%s %v", kind, want))
		c.NonTrivial()
	})
}

// well31 says what a well formed group lacks.
func well31(d *grp, size, title, desc int) string {
	if len(d.Title) == 0 || len(d.Title) > title {
		return "title"
	}
	if len(d.Description) > desc {
		return "description"
	}
	l := d.GetAccessControl().GetAddFromInviteLink()
	if len(d.InviteLinkPassword) == 0 && l != pb.AccessControl_UNSATISFIABLE && l != pb.AccessControl_UNKNOWN {
		return "no password"
	}
	if len(d.Members)+len(d.PendingMembers) > size || len(d.RequestingMembers) > size {
		return "size"
	}
	if dup(append(append(members30(d), pending30(d)...), asking30(d)...)) {
		return "listed twice"
	}
	for _, m := range d.Members {
		if m.Role != rDefault && m.Role != rAdmin {
			return "role"
		}
	}
	for _, m := range d.PendingMembers {
		if m.Role != rDefault && m.Role != rAdmin {
			return "role"
		}
	}
	for _, a := range []req{d.GetAccessControl().GetAttributes(), d.GetAccessControl().GetMembers()} {
		if a != pb.AccessControl_MEMBER && a != pb.AccessControl_ADMINISTRATOR {
			return "access"
		}
	}
	switch l {
	case pb.AccessControl_UNKNOWN, pb.AccessControl_ANY, pb.AccessControl_ADMINISTRATOR, pb.AccessControl_UNSATISFIABLE:
	case pb.AccessControl_MEMBER:
		return "?"
	default:
		return "link access"
	}
	return ""
}

func TestC31WellFormed(t *testing.T) {
	kit.Check(t, "a well formed group was accepted or one with a defect was refused", func(c *kit.Case) {
		d := state30(c, false)
		size, title, desc := c.Int("size", 5, 12), c.Int("title limit", 6, 40), c.Int("description limit", 8, 60)
		if size > len(d.Members)+len(d.PendingMembers)+3 {
			size = max(len(d.Members)+len(d.PendingMembers)+c.Int("room", 0, 2), 1)
		}
		for n := kit.Pick(c.T, "changes", []int{0, 1, 1, 1, 1, 2}); n > 0; n-- {
			if d.AccessControl == nil {
				break
			}
			switch c.Int("change", 0, 12) {
			case 0:
				d.Title = strings.Repeat("t", kit.Pick(c.T, "len", []int{0, 1, title - 1, title, title + 1, desc, desc + 1}))
			case 1:
				d.Title = strings.Repeat("é", (title+c.Int("off", -1, 1))/2)
			case 2:
				d.Description = strings.Repeat("é", (desc+c.Int("off", -1, 1))/2)
				if c.Chance("plain", 1, 2) {
					d.Description = strings.Repeat("d", kit.Pick(c.T, "len", []int{0, 1, desc - 1, desc, desc + 1, title, title + 1}))
				}
			case 3:
				d.InviteLinkPassword = kit.Pick(c.T, "no password", [][]byte{nil, {}})
			case 4:
				d.AccessControl.AddFromInviteLink = req(c.Int("link", 0, 5))
			case 5:
				d.AccessControl.Attributes = req(c.Int("access", 0, 5))
			case 6:
				d.AccessControl.Members = req(c.Int("access", 0, 5))
			case 7:
				d.AccessControl = nil
			case 8, 9: // somebody once more
				all := append(append(members30(d), pending30(d)...), asking30(d)...)
				if len(all) == 0 {
					break
				}
				id := append([]byte{}, kit.Pick(c.T, "again", all)...)
				switch c.Int("list", 0, 2) {
				case 0:
					d.Members = append(d.Members, &pb.DecryptedMember{Uuid: id, Role: rDefault})
				case 1:
					d.PendingMembers = append(d.PendingMembers, &pb.DecryptedPendingMember{Uuid: id, Role: rDefault})
				case 2:
					d.RequestingMembers = append(d.RequestingMembers, &pb.DecryptedRequestingMember{Uuid: id})
				}
			case 10:
				if r := role(kit.Pick(c.T, "role", []int{0, 3, -1})); len(d.Members) > 0 && (len(d.PendingMembers) == 0 || c.Chance("member", 1, 2)) {
					d.Members[c.Int("which", 0, len(d.Members)-1)].Role = r
				} else if len(d.PendingMembers) > 0 {
					d.PendingMembers[c.Int("which", 0, len(d.PendingMembers)-1)].Role = r
				}
			case 11: // as many as fit, and one more or less
				for i := len(d.Members) + len(d.PendingMembers); i < size+c.Int("over", -1, 1); i++ {
					id := []byte(fmt.Sprint("more ", i, d.Title))
					if c.Chance("pending", 1, 2) {
						d.PendingMembers = append(d.PendingMembers, &pb.DecryptedPendingMember{Uuid: id, Role: rDefault})
					} else {
						d.Members = append(d.Members, &pb.DecryptedMember{Uuid: id, Role: rDefault})
					}
				}
			case 12:
				for i := len(d.RequestingMembers); i < size+c.Int("over", -1, 1); i++ {
					d.RequestingMembers = append(d.RequestingMembers, &pb.DecryptedRequestingMember{Uuid: []byte(fmt.Sprint("asking ", i))})
				}
			}
		}
		before := clone30(d)
		v := NewGroupValidator(nil, limits30(size, title, desc))
		var err error
		c.NoPanic("ValidateFinalGroupState", func() { err = v.ValidateFinalGroupState(d) })
		lacks := well31(d, size, title, desc)
		c.Step("limits %d %d %d, group %s\n: %v", size, title, desc, show30(d), err)
		if lacks != "?" && (lacks == "") != (err == nil) {
			c.Bad("the group with the defect %q is judged %v", lacks, err)
		}
		if !proto.Equal(before, d) {
			c.Bad("judging the group changes it")
		}
		c.Class("defect " + lacks)
		c.NonTrivial()
	})
}

func TestC30Modify(t *testing.T) {
	kit.Check(t, "a change of several parts was applied as a whole or refused as a whole", func(c *kit.Case) {
		pk := []byte("public key of the group")
		dir := c.Scratch()
		if err := SetupGroups(dir); err != nil {
			c.Broken("%v", err)
		}
		d := state30(c, false)
		size := max(len(d.Members)+len(d.PendingMembers)+c.Int("room", 0, 3), 1)
		old := config.ConfigFile
		config.ConfigFile = limits30(size, 20, 30)
		c.T.Cleanup(func() { config.ConfigFile = old })
		g := &GroupV2{MasterKey: pk, Hexid: "aa", DecryptedGroup: clone30(d), Revision: uint32(c.Int("revision", 0, 5))}
		groupsV2["aa"] = g
		for n := c.Int("changes", 1, 3); n > 0; n-- {
			d = clone30(g.DecryptedGroup)
			rev, ann := g.Revision, g.AnnouncementsOnly
			u := actor30(c, d, pk)
			pw := d.InviteLinkPassword
			if bad30(c) {
				pw = nil
			}
			params := ModifyGroupParams{InviteLinkPassword: base64.StdEncoding.EncodeToString(pw)}
			broken := bad30(c)
			if broken {
				params.InviteLinkPassword = "%%%"
			}
			a := &act{Revision: rev + 1}
			m := &model30{d: clone30(d), orig: d, ann: ann, pk: pk, me: u, pw: pw}
			parts := map[string]bool{}
			for k := c.Int("parts", 0, 3); k > 0; k-- {
				kind := kit.Pick(c.T, "kind", kinds30)
				if (kind == "add members" || kind == "ask") && !c.Chance("unproven", 1, 4) {
					kind = "title"
				}
				parts[kind] = true
				change30(c, kind, u.UserCiphertext, d, a)
			}
			want := accept
			var order []string
			for _, kind := range kinds30 {
				if !parts[kind] {
					continue
				}
				order = append(order, kind)
				if kind == "add members" || kind == "ask" { // there is no proof of the profile key
					want = refuse
				}
				if v := m.judge(kind, a, rev); v == refuse || want == accept {
					want = v
				}
				if want == refuse {
					break
				}
			}
			if broken {
				want = refuse
			}
			if m.who() == nil && (!bytes.Equal(u.GroupPublicKey, pk) || has(d.PendingMembers, u.UserCiphertext) < 0 && has(d.RequestingMembers, u.UserCiphertext) < 0) {
				want = refuse // nobody to record as the author
			}
			lacks := well31(m.d, size, 20, 30)
			if want == accept && lacks == "?" {
				want = unsure
			} else if want != refuse && lacks != "" {
				want = refuse
			}
			asked := a.String()
			var resp *entities.Resp
			var err error
			c.NoPanic("ModifyGroup", func() { resp, err = g.ModifyGroup(u, params, a) })
			c.Step("%s %q, group %s\nasks for %v %s: %v", kindOf(u, m), u.UserCiphertext, show30(d), order, asked, err)
			if want != unsure && (want == accept) != (err == nil) {
				c.Bad("%v by %s should be %v (defect %q): %v", order, kindOf(u, m), want, lacks, err)
			}
			if err != nil {
				if show30(g.DecryptedGroup) != show30(d) || g.Revision != rev || g.AnnouncementsOnly != ann {
					c.Bad("%v is refused, but the group becomes\n%s", order, show30(g.DecryptedGroup))
				}
				c.Class("refused")
			} else {
				if show30(g.DecryptedGroup) != show30(m.d) || g.AnnouncementsOnly != m.ann || g.Revision != rev+1 {
					c.Bad("%v: the group becomes\n%s\ninstead of\n%s", order, show30(g.DecryptedGroup), show30(m.d))
				}
				signed, _ := resp.Obj.(*pb.GroupChange)
				got := &act{}
				if signed == nil || proto.Unmarshal(signed.Actions, got) != nil || !bytes.Equal(got.SourceUuid, u.UserCiphertext) {
					c.Bad("the change is published as %v", signed)
				}
				epoch := uint32(0) // what a client has to know to apply the change
				for _, kind := range order {
					switch kind {
					case "link access", "ask", "turn down", "approve", "password":
						epoch = max(epoch, 1)
					case "description":
						epoch = max(epoch, 2)
					case "announcements":
						epoch = max(epoch, 3)
					}
				}
				if signed.ChangeEpoch != epoch {
					c.Bad("the change %v is published with the epoch %d instead of %d", order, signed.ChangeEpoch, epoch)
				}
				c.Class("accepted")
				if len(order) > 1 {
					c.Class("accepted, several parts")
				}
			}
			c.NonTrivial()
		}
	})
}

// ---- changes that need a proof of the profile key

type person30 struct {
	uuid, key []byte
	cred      zkgroup.ProfileKeyCredential
	ct, keyCt map[int][]byte // per group
	pres      map[int][]byte
}

var zk30 struct {
	secret zkgroup.ServerSecretParams
	ops    *zkgroup.ServerZkProfileOperations
	pub    [2][]byte
	people []*person30
}

func setup30(c *kit.Case) {
	if zk30.people != nil {
		return
	}
	must := func(err error) {
		if err != nil {
			c.Broken("%v", err)
		}
	}
	sec, err := zkgroup.GenerateServerSecretParamsDeterministic([]byte("verif zkgroup server seed 000001"))
	must(err)
	spub, err := sec.PublicParams()
	must(err)
	zk30.secret, zk30.ops = sec, zkgroup.NewServerZkProfileOperations(sec)
	var params [2]zkgroup.GroupSecretParams
	for i := range params {
		params[i], err = zkgroup.NewGroupSecretParams(bytes.Repeat([]byte{byte(i + 1)}, 32))
		must(err)
		p, err := params[i].PublicParams()
		must(err)
		zk30.pub[i] = p
	}
	for i := 0; i < 4; i++ {
		p := &person30{uuid: bytes.Repeat([]byte{byte(0x10 + i)}, 16), key: bytes.Repeat([]byte{byte(0x20 + i)}, 32), ct: map[int][]byte{}, keyCt: map[int][]byte{}, pres: map[int][]byte{}}
		comm, err := zkgroup.ProfileKeyGetCommitment(p.key, p.uuid)
		must(err)
		ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(spub, p.uuid, p.key)
		must(err)
		rq, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
		must(err)
		resp, err := zk30.ops.IssueProfileKeyCredential(rq, p.uuid, comm)
		must(err)
		p.cred, err = spub.ReceiveProfileKeyCredential(ctx, resp)
		must(err)
		for j := range params {
			p.ct[j], err = zkgroup.NewClientZkGroupCipher(params[j]).EncryptUUID(p.uuid)
			must(err)
			pr, err := spub.CreateProfileKeyCredentialPresentation(params[j], p.cred)
			must(err)
			p.pres[j] = pr
			q, err := zkgroup.NewProfileKeyCredentialPresentation(pr)
			must(err)
			p.keyCt[j], err = q.ProfileKeyCiphertext()
			must(err)
		}
		zk30.people = append(zk30.people, p)
	}
}

func TestC30Proofs(t *testing.T) {
	kit.Check(t, "a change with a proof of the profile key was applied, or refused for one reason", func(c *kit.Case) {
		setup30(c)
		pk := zk30.pub[0]
		d := &grp{Title: "g", AccessControl: &pb.AccessControl{Attributes: 2, Members: req(c.Int("members", 2, 3)), AddFromInviteLink: req(kit.Pick(c.T, "link", []int{1, 3, 4}))}, InviteLinkPassword: []byte("password")}
		lists := map[string][]int{}
		for i, p := range zk30.people {
			id := p.ct[0]
			l := kit.Pick(c.T, "list", []string{"member", "admin", "pending", "asking", "none"})
			lists[l] = append(lists[l], i)
			switch l {
			case "member", "admin":
				d.Members = append(d.Members, &pb.DecryptedMember{Uuid: id, Role: map[string]role{"member": rDefault, "admin": rAdmin}[l], ProfileKey: []byte("old key"), JoinedAtRevision: 1})
			case "pending":
				d.PendingMembers = append(d.PendingMembers, &pb.DecryptedPendingMember{Uuid: id, Role: kit.Pick(c.T, "role", []role{rDefault, rAdmin}), AddedByUuid: []byte("somebody")})
			case "asking":
				d.RequestingMembers = append(d.RequestingMembers, &pb.DecryptedRequestingMember{Uuid: id, ProfileKey: []byte("old key")})
			}
		}
		mi := c.Int("me", 0, len(zk30.people)-1)
		u := &entities.GroupUser{UserCiphertext: zk30.people[mi].ct[0], GroupPublicKey: pk, GroupId: []byte("group"), StrGroupId: "group"}
		pw := d.InviteLinkPassword
		if bad30(c) {
			pw = []byte("other")
		}
		g := &GroupV2{MasterKey: pk, Hexid: "aa", DecryptedGroup: clone30(d), Revision: 7}
		im := &GroupV2{MasterKey: pk, Hexid: "aa", DecryptedGroup: clone30(d), Revision: 7}
		m := &model30{d: clone30(d), orig: d, pk: pk, me: u, pw: pw}
		v := NewGroupValidator(zk30.ops, limits30(20, 20, 20))
		k := NewGroupChangeApplicator(v)
		kind := kit.Pick(c.T, "kind", []string{"add members", "promote", "keys", "ask"})
		// the proofs, and whose they are
		type proof struct {
			who int
			b   []byte
			ok  bool
		}
		draw := func() proof {
			p := proof{who: mi, ok: true}
			if kind == "add members" && c.Chance("other", 2, 3) || bad30(c) {
				p.who = c.Int("whose", 0, len(zk30.people)-1)
			}
			p.b = append([]byte{}, zk30.people[p.who].pres[0]...)
			switch {
			case c.Chance("altered", 1, 8):
				p.b[1+c.Int("flip", 0, len(p.b)-2)] ^= 1 << c.Int("bit", 0, 7)
				p.ok = false
			case c.Chance("cut", 1, 16):
				p.b = p.b[:c.Int("cut", 0, len(p.b)-1)]
				p.ok = false
			case c.Chance("of another group", 1, 10):
				p.b = append([]byte{}, zk30.people[p.who].pres[1]...)
				p.ok = false
			}
			return p
		}
		n := kit.Pick(c.T, "items", []int{1, 1, 1, 2})
		if kind == "ask" && c.Chance("by link", 2, 3) {
			n = 1
			for _, x := range []*grp{d, im.DecryptedGroup, g.DecryptedGroup, m.d} {
				x.AccessControl.AddFromInviteLink = pb.AccessControl_ADMINISTRATOR
			}
		}
		want := accept
		var ids [][]byte
		var err error
		var ps []proof
		for i := 0; i < n; i++ {
			ps = append(ps, draw())
			ids = append(ids, zk30.people[ps[i].who].ct[0])
			if !ps[i].ok {
				want = refuse
			}
		}
		switch kind {
		case "add members":
			a := &act{}
			model := &act{}
			for i := range ps {
				r := role30(c)
				link := bad30(c)
				x := &pb.GroupChange_Actions_AddMemberAction{Added: &pb.Member{Presentation: ps[i].b, Role: r}, JoinFromInviteLink: link}
				if link {
					want = refuse
				}
				a.AddMembers = append(a.AddMembers, x)
				model.AddMembers = append(model.AddMembers, &pb.GroupChange_Actions_AddMemberAction{Added: &pb.Member{UserId: ids[i], ProfileKey: zk30.people[ps[i].who].keyCt[0], Role: r}})
			}
			if j := m.addMembers(model.AddMembers, 7); want == accept {
				want = j
			}
			c.NoPanic("adding members", func() {
				if err = v.ValidateAddMember(u, pw, g, a.AddMembers, pk); err == nil {
					err = k.ApplyAddMembers(u, pw, g, a.AddMembers, im)
				}
			})
		case "ask":
			a := &act{}
			model := &act{}
			for i := range ps {
				x := &pb.RequestingMember{Presentation: ps[i].b}
				if bad30(c) {
					x.UserId, want = ids[i], refuse
				}
				if bad30(c) {
					x.ProfileKey, want = []byte("key"), refuse
				}
				if bad30(c) {
					x.Timestamp, want = 5, refuse
				}
				a.AddRequestingMembers = append(a.AddRequestingMembers, &pb.GroupChange_Actions_AddRequestingMemberAction{Added: x})
				model.AddRequestingMembers = append(model.AddRequestingMembers, &pb.GroupChange_Actions_AddRequestingMemberAction{Added: &pb.RequestingMember{UserId: ids[i], ProfileKey: zk30.people[ps[i].who].keyCt[0], Timestamp: 1 << 40}})
			}
			if j := m.ask(model.AddRequestingMembers); want == accept {
				want = j
			}
			c.NoPanic("asking to join", func() {
				if err = v.ValidateAddMembersPendingAdminApproval(u, pw, g, a.AddRequestingMembers); err == nil {
					err = k.ApplyAddMembersPendingAdminApproval(u, pw, g, a.AddRequestingMembers, im)
				}
			})
		case "promote":
			var a []*pb.GroupChange_Actions_PromotePendingMemberAction
			for i := range ps {
				a = append(a, &pb.GroupChange_Actions_PromotePendingMemberAction{Presentation: ps[i].b})
				if ps[i].who != mi || has(d.PendingMembers, ids[i]) < 0 {
					want = refuse
				}
			}
			if dup(ids) {
				want = refuse
			}
			if want == accept {
				p := d.PendingMembers[has(d.PendingMembers, ids[0])]
				m.d.PendingMembers = without(m.d.PendingMembers, ids[0])
				m.d.Members = append(m.d.Members, &pb.DecryptedMember{Uuid: ids[0], Role: p.Role, ProfileKey: zk30.people[mi].keyCt[0], JoinedAtRevision: 8})
			}
			c.NoPanic("accepting an invitation", func() { err = k.ApplyPromoteMembersPendingProfileKey(u, pw, g, a, im) })
		case "keys":
			var a []*pb.GroupChange_Actions_ModifyMemberProfileKeyAction
			for i := range ps {
				a = append(a, &pb.GroupChange_Actions_ModifyMemberProfileKeyAction{Presentation: ps[i].b})
				if ps[i].who != mi {
					want = refuse
				}
			}
			if dup(ids) {
				want = refuse
			}
			if want == accept {
				if i := has(m.d.Members, ids[0]); i >= 0 {
					m.d.Members[i].ProfileKey = zk30.people[mi].keyCt[0]
				} else {
					want = unsure // nothing to change
				}
			}
			c.NoPanic("changing a profile key", func() { err = k.ApplyModifyMemberProfileKeys(u, pw, g, a, im) })
		}
		c.Step("person %d of %v, access %v, %s, proofs of %+v: %v", mi, lists, d.AccessControl, kind, func() (s []string) {
			for _, p := range ps {
				s = append(s, fmt.Sprint(p.who, " ", p.ok))
			}
			return
		}(), err)
		if want != unsure && (want == accept) != (err == nil) {
			c.Bad("%s should be %v: %v", kind, want, err)
		}
		if err != nil && show30(g.DecryptedGroup) != show30(d) {
			c.Bad("%s: refused, but the group becomes\n%s", kind, show30(g.DecryptedGroup))
		}
		if err == nil && show30(g.DecryptedGroup) != show30(m.d) {
			c.Bad("%s: the group becomes\n%s\ninstead of\n%s", kind, show30(g.DecryptedGroup), show30(m.d))
		}
		if !proto.Equal(im.DecryptedGroup, d) {
			c.Bad("%s: the original group is changed", kind)
		}
		c.Class(fmt.Sprintf("%s %v", kind, want))
		c.NonTrivial()
	})
}
