//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/profiles"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// person is what somebody published about themselves.
type person struct {
	uuid              string
	key               []byte
	name, about, emoj string
	picture           []byte
	hasPicture        bool
	ident             ref.KeyPair
	caps              config.AccountCapabilities
}

func (p *person) enc(key []byte, text string, padded int, nonce []byte) string {
	if text == "" {
		return ""
	}
	pt := make([]byte, padded)
	copy(pt, text)
	ct, tag := seal(key, nonce, pt, nil)
	return base64.StdEncoding.EncodeToString(append(append(append([]byte{}, nonce...), ct...), tag...))
}

func noZeroEnd(s string, max int) string {
	if len(s) > max {
		s = s[:max]
	}
	return strings.TrimRight(s, "\x00")
}

func TestC27Profiles(t *testing.T) {
	kit.Check(t, "our profile was published and read by the key's holder, or a contact's profile was fetched or refused", func(c *kit.Case) {
		w := newWorld(c, "")
		zkInit(c)
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		config.ConfigFile.UUID = ourUUID
		own := config.ConfigFile.ProfileKey
		ids := []string{bobUUID, carolUUID}
		people := map[string]*person{}
		for _, u := range ids {
			p := &person{uuid: u, key: kit.Fill(c.T, 32), name: noZeroEnd(drawText(c.T, "name"), 53), about: noZeroEnd(drawText(c.T, "about"), 128),
				emoj: kit.Pick(c.T, "emoji", []string{"", "🦊", "👨‍👩‍👧", "x"}), ident: ref.NewKeyPair(), hasPicture: c.Chance("picture", 1, 2)}
			p.picture = kit.Big(300).Draw(c.T, "picture")
			p.caps = config.AccountCapabilities{Gv2: c.Chance("gv2", 1, 2), SenderKey: c.Chance("sender key", 1, 2), Stories: c.Chance("stories", 1, 2)}
			people[u] = p
		}
		nonce := kit.Fill(c.T, 12)
		var published []map[string]any
		fault, kind, hit := "", "", false
		mut := kit.Mutator(c.T)
		alter, altered, flip := "", false, 0
		avatarPath, _ := profiles.GetLocalAvatarPath(bobUUID)
		avatarDir := filepath.Dir(avatarPath)
		os.MkdirAll(avatarDir, 0700)
		c.T.Cleanup(func() {
			for _, u := range ids {
				os.Remove(filepath.Join(avatarDir, u))
			}
		})
		oops := func(at string, rw http.ResponseWriter) bool {
			if fault != at {
				return false
			}
			hit = true
			switch kind {
			case "dropped":
				if h, _, err := rw.(http.Hijacker).Hijack(); err == nil {
					h.Close()
				}
			case "garbage":
				rw.WriteHeader(200)
				rw.Write([]byte("<html>"))
			case "[]", `"text"`, "null":
				rw.WriteHeader(200)
				rw.Write([]byte(kind))
			default:
				var n int
				fmt.Sscan(kind, &n)
				jsonReply(rw, n, map[string]any{"uuid": carolUUID, "name": "", "code": n})
			}
			return true
		}
		w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			p := r.URL.Path
			switch {
			case r.Method == "PUT" && p == "/v1/profile/":
				var in map[string]any
				if json.Unmarshal(body, &in) != nil {
					w.problem("the profile is published as %q", body)
				}
				if oops("publish", rw) {
					return true
				}
				published = append(published, in)
				rw.WriteHeader(200)
				return true
			case r.Method == "GET" && strings.HasPrefix(p, "/v1/profile/"):
				if oops("profile", rw) {
					return true
				}
				f := strings.Split(p[len("/v1/profile/"):], "/")
				if f[0] == ourUUID && len(f) == 1 {
					jsonReply(rw, 200, map[string]any{"uuid": ourUUID, "capabilities": map[string]any{"gv2": true, "stories": true},
						"identityKey": base64.StdEncoding.EncodeToString(append([]byte{5}, w.kp.Pub[:]...))})
					return true
				}
				pe := people[f[0]]
				if pe == nil {
					jsonReply(rw, 404, map[string]any{})
					return true
				}
				out := map[string]any{"uuid": pe.uuid, "name": pe.enc(pe.key, pe.name, 53, nonce), "about": pe.enc(pe.key, pe.about, 128, nonce), "aboutEmoji": pe.enc(pe.key, pe.emoj, 32, nonce),
					"identityKey": base64.StdEncoding.EncodeToString(append([]byte{5}, pe.ident.Pub[:]...)), "capabilities": pe.caps, "unidentifiedAccess": "YWNjZXNz", "badges": []string{}}
				if pe.hasPicture {
					out["avatar"] = "profiles/" + pe.uuid
				}
				if len(f) == 3 {
					ub := uuidBytes(pe.uuid)
					v, _ := zkgroup.ProfileKeyGetProfileKeyVersion(pe.key, ub)
					comm, _ := zkgroup.ProfileKeyGetCommitment(pe.key, ub)
					req, err := hex.DecodeString(f[2])
					if err != nil || f[1] != string(v[:]) {
						w.problem("a profile is asked for as %q", p)
						rw.WriteHeader(404)
						return true
					}
					resp, err := zkgroup.NewServerZkProfileOperations(zkSecret).IssueProfileKeyCredential(req, ub, comm)
					if err != nil {
						w.problem("the credential request: %v", err)
						rw.WriteHeader(400)
						return true
					}
					out["credential"] = base64.StdEncoding.EncodeToString(resp)
				}
				switch alter {
				case "name", "about", "aboutEmoji", "credential":
					if s, _ := out[alter].(string); s != "" {
						b, _ := base64.StdEncoding.DecodeString(s)
						x := mut(b)
						if alter == "credential" { // zkgroup ignores the first byte and what follows
							x = append([]byte{}, b...)
							x[1+flip%(len(b)-1)] ^= 1 << (flip % 8)
						}
						if len(x) > 0 {
							out[alter] = base64.StdEncoding.EncodeToString(x)
							altered = true
						}
					}
				case "plain name":
					out["name"] = "Mallory"
					altered = true
				case "uuid":
					out["uuid"] = carolUUID
					altered = pe.uuid != carolUUID
				case "path":
					out["uuid"] = "../" + pe.uuid
					altered = true
				case "no uuid":
					delete(out, "uuid")
				}
				jsonReply(rw, 200, out)
				return true
			case r.Method == "GET" && strings.HasPrefix(p, "/profiles/"):
				if oops("picture", rw) {
					return true
				}
				pe := people[p[len("/profiles/"):]]
				if pe == nil {
					w.problem("a picture is asked for as %q", p)
					rw.WriteHeader(404)
					return true
				}
				ct, tag := seal(pe.key, nonce, pe.picture, nil)
				b := append(append(append([]byte{}, nonce...), ct...), tag...)
				if alter == "picture" {
					b = mut(b)
					altered = true
				}
				rw.Write(b)
				return true
			}
			return false
		}
		for n := c.Int("steps", 1, 4); n > 0; n-- {
			fault, kind, hit, alter, altered = "", "", false, "", false
			published = nil
			if c.Chance("fault", 1, 4) {
				fault = kit.Pick(c.T, "at", []string{"publish", "profile", "picture"})
				kind = kit.Pick(c.T, "kind", []string{"400", "401", "403", "404", "429", "500", "dropped", "garbage", "[]", `"text"`, "null"})
				if kind == "400" {
					kind = fmt.Sprint(kit.Refusal(c.T, "status", []int{400, 409}))
				}
				if fault == "publish" && strings.Trim(kind, "0123456789") != "" && kind != "dropped" {
					kind = "500"
				}
			} else if c.Chance("alter", 1, 3) {
				alter = kit.Pick(c.T, "alter", []string{"name", "about", "aboutEmoji", "credential", "uuid", "path", "no uuid", "picture", "plain name"})
				mut = kit.Mutator(c.T)
				flip = c.Int("flip", 0, 100000)
			}
			before := map[string]contacts.Contact{}
			for k, v := range contacts.Contacts {
				before[k] = v
			}
			if c.Int("op", 0, 3) == 0 {
				name := drawText(c.T, "own name")
				if c.Chance("at the limit", 1, 4) {
					name = strings.Repeat("n", c.Int("len", 50, 56))
				}
				name = strings.TrimRight(name, "\x00")
				var err error
				c.NoPanic("UpdateProfile", func() { err = profiles.UpdateProfile(own, ourUUID, name) })
				c.Step("publish the name %q, fault %s %s: %v", name, fault, kind, err)
				if len(name) > 53 {
					if err == nil || len(published) > 0 {
						c.Bad("a name of %d bytes is published", len(name))
					}
					continue
				}
				if hit != (err != nil) && kind != "null" {
					c.Bad("publishing a profile with the fault %s %s: error %v", fault, kind, err)
				}
				if fault == "publish" {
					continue
				}
				if len(published) != 1 {
					c.Bad("the profile is published %d times", len(published))
				}
				in := published[0]
				s, _ := in["name"].(string)
				b, e := base64.StdEncoding.DecodeString(s)
				if e != nil || len(b) != 12+53+16 {
					c.Bad("the name %q is published as %q", name, s)
				}
				pt, e := gcm(own).Open(nil, b[:12], b[12:], nil)
				if e != nil || string(bytes.TrimRight(pt, "\x00")) != name {
					c.Bad("the holder of the key reads the name %q as %q, %v", name, pt, e)
				}
				ub := uuidBytes(ourUUID)
				v, _ := zkgroup.ProfileKeyGetProfileKeyVersion(own, ub)
				comm, _ := zkgroup.ProfileKeyGetCommitment(own, ub)
				if in["version"] != string(v[:]) || in["commitment"] != base64.StdEncoding.EncodeToString(comm) {
					c.Bad("the profile is published under the version %q with the commitment %q", in["version"], in["commitment"])
				}
				if err == nil && !hit && (!config.ConfigFile.AccountCapabilities.Gv2 || !config.ConfigFile.AccountCapabilities.Stories || config.ConfigFile.AccountCapabilities.SenderKey) {
					c.Bad("the capabilities of the account are taken over as %+v", config.ConfigFile.AccountCapabilities)
				}
				c.NonTrivial()
				continue
			}
			pe := people[kit.Pick(c.T, "who", ids)]
			if c.Chance("without the contact", 1, 5) {
				key, clear := pe.key, pe.name+pe.about+pe.emoj
				if c.Chance("wrong key", 1, 4) {
					key = own
				} else if c.Chance("no key", 1, 6) {
					key = nil
				}
				var got *profiles.Profile
				var err error
				c.NoPanic("GetProfile", func() { got, err = GetProfile(pe.uuid, append([]byte{}, key...)) })
				c.Step("profile of %s by its key, fault %s %s: %v", pe.uuid[:4], fault, kind, err)
				if fault == "profile" && kind != "null" && err == nil {
					c.Bad("the profile with the fault %s %s: error %v", fault, kind, err)
				}
				unread := len(key) == 0 || altered && (alter == "name" || alter == "about" || alter == "aboutEmoji" || alter == "plain name") || !bytes.Equal(key, pe.key) && clear != ""
				if err != nil && !unread && fault != "profile" {
					c.Bad("the profile can not be had: %v", err)
				}
				if err == nil && unread && !hit {
					if len(key) > 0 {
						c.Bad("the profile of which something can not be decrypted reads %+v", got)
					}
					if got.Name+got.About+got.AboutEmoji != "" {
						c.Bad("without the key the profile reads %q %q %q", got.Name, got.About, got.AboutEmoji)
					}
					c.NonTrivial()
				}
				if err == nil && !hit && alter == "" && bytes.Equal(key, pe.key) {
					if got.Name != pe.name || got.About != pe.about || got.AboutEmoji != pe.emoj || got.IdentityKey != string(append([]byte{5}, pe.ident.Pub[:]...)) || got.Capabilities != pe.caps {
						c.Bad("the profile reads %+v; published is %q %q %q", got, pe.name, pe.about, pe.emoj)
					}
					c.NonTrivial()
				}
				if !reflect.DeepEqual(contacts.Contacts, before) {
					c.Bad("looking at a profile changes the contacts")
				}
				continue
			}
			state := c.Int("known", 0, 3) // 0: not at all, 1: without the key, 2: with another key, 3: with the key
			had := contacts.Contact{}
			delete(contacts.Contacts, pe.uuid)
			if state > 0 {
				had = contacts.Contact{UUID: pe.uuid, Tel: "+4915100001", Name: kit.Pick(c.T, "address book", []string{"", "Somebody"}), Color: "red", About: kit.Pick(c.T, "old about", []string{"", "old"})}
				if state > 1 {
					had.ProfileKey = append([]byte{}, pe.key...)
				}
				if state == 2 {
					had.ProfileKey[c.Int("byte", 0, 31)] ^= 1
				}
				contacts.Contacts[pe.uuid] = had
			}
			before = map[string]contacts.Contact{}
			for k, v := range contacts.Contacts {
				before[k] = v
			}
			os.Remove(filepath.Join(avatarDir, pe.uuid))
			w.problems = nil
			var got *profiles.Profile
			var err error
			c.NoPanic("GetProfileUUID", func() { got, err = GetProfileByUUID(pe.uuid) })
			c.Step("profile of %s (known %d, name %q, about %q, emoji %q, picture %v), fault %s %s, altered %q %v: %v", pe.uuid[:4], state, pe.name, pe.about, pe.emoj, pe.hasPicture, fault, kind, alter, altered, err)
			if len(w.problems) > 0 && state != 2 {
				c.Bad("%s", w.problems[0])
			}
			now := contacts.GetContact(pe.uuid)
			for k, v := range contacts.Contacts {
				if k != pe.uuid && !reflect.DeepEqual(v, before[k]) {
					c.Bad("the profile of %s changes the contact %q to %+v", pe.uuid, k, v)
				}
			}
			pic, e := os.ReadFile(filepath.Join(avatarDir, pe.uuid))
			if e != nil {
				pic = nil
			}
			r, e := GetAvatar(pe.uuid)
			if e == nil {
				b, _ := io.ReadAll(r)
				r.Close()
				if !bytes.Equal(b, pic) {
					c.Bad("the picture is shown as %d bytes, %d are kept", len(b), len(pic))
				}
			} else if pic != nil {
				c.Bad("the picture can not be shown: %v", e)
			}
			if _, e := os.Stat(filepath.Join(avatarDir, "..", pe.uuid)); e == nil {
				os.Remove(filepath.Join(avatarDir, "..", pe.uuid))
				c.Bad("a picture is written outside the directory for them")
			}
			failed := hit && fault == "profile" || state == 2 || altered && state == 3 && alter != "picture" && alter != "uuid" && alter != "path"
			if failed && kind == "null" && state < 2 && err == nil {
				failed = false
			}
			if failed {
				if err == nil {
					c.Bad("the profile is reported as %+v", got)
				}
				c.NonTrivial()
			}
			if err != nil {
				if !failed && !altered {
					c.Bad("the profile can not be had: %v", err)
				}
				if !reflect.DeepEqual(contacts.Contacts, before) {
					c.Bad("a refused profile changes the contacts from %v to %v", before, contacts.Contacts)
				}
				continue
			}
			if state == 3 {
				if got.Name != pe.name || got.About != pe.about || got.AboutEmoji != pe.emoj {
					c.Bad("the profile reads %q %q %q; published is %q %q %q", got.Name, got.About, got.AboutEmoji, pe.name, pe.about, pe.emoj)
				}
				want := had
				want.Username = pe.name
				if want.Name == "" {
					want.Name = pe.name
				}
				if pe.about != "" {
					want.About = pe.about
				}
				if pe.emoj != "" {
					want.AboutEmoji = pe.emoj
				}
				goodPic := pe.hasPicture && len(pe.picture) > 0 && !(hit && fault == "picture") && !(altered && alter == "picture")
				if goodPic {
					if !bytes.Equal(pic, pe.picture) {
						c.Bad("the picture of %d bytes is kept as %d bytes", len(pe.picture), len(pic))
					}
					want.HasAvatar, want.AvatarImg = true, pe.picture
				} else if len(pic) > 0 {
					c.Bad("%d bytes are kept as a picture", len(pic))
				}
				if len(pe.picture) == 0 && pe.hasPicture {
					want.HasAvatar, want.AvatarImg = now.HasAvatar, now.AvatarImg
				}
				if !reflect.DeepEqual(now, want) {
					c.Bad("the contact is %+v, it should be %+v", now, want)
				}
				c.NonTrivial()
			} else {
				if len(pic) > 0 || len(now.AvatarImg) > 0 {
					c.Bad("a picture is kept without the key for it")
				}
				want := had
				want.UUID = pe.uuid
				if !reflect.DeepEqual(now, want) {
					c.Bad("without the key the contact is %+v, it was %+v", now, want)
				}
			}
		}
	})
}
