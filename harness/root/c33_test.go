//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"path/filepath"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// accessKey is the unidentified access key of a profile key.
func accessKey(profileKey []byte) []byte {
	ct, _ := seal(profileKey, make([]byte, 12), make([]byte, 16), nil)
	return ct
}

func TestC33Account(t *testing.T) {
	kit.Check(t, "an account request reached the model server or was reported as failed", func(c *kit.Case) {
		w := newWorld(c, "")
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		config.ConfigFile.Name = drawText(c.T, "account name")
		registration.Registration.SignalingKey = kit.Fill(c.T, 52)
		registration.Registration.RegistrationID = uint32(c.Int("registration id", 1, 16380))
		caps := func(name string) (a config.AccountCapabilities) {
			a.Gv2, a.SenderKey, a.AnnouncementGroup = c.Chance(name+" gv2", 1, 2), c.Chance(name+" sender key", 1, 2), c.Chance(name+" announcement", 1, 2)
			a.ChangeNumber, a.Stories, a.GiftBadges = c.Chance(name+" number", 1, 2), c.Chance(name+" stories", 1, 2), c.Chance(name+" badges", 1, 2)
			a.Storage, a.Gv1Migration = c.Chance(name+" storage", 1, 2), c.Chance(name+" migration", 1, 2)
			return
		}
		config.ConfigFile.AccountCapabilities = caps("old")
		config.ConfigFile.Certificate = kit.Bytes(60).Draw(c.T, "old certificate")
		var fault, kind string
		hit := false
		newCert := kit.Bytes(200).Draw(c.T, "new certificate")
		var got []request
		oops := func(at string, rw http.ResponseWriter) bool {
			if fault != at {
				return false
			}
			hit = true
			switch kind {
			case "dropped":
				drop(rw)
			case "garbage":
				rw.WriteHeader(200)
				rw.Write([]byte("<html>"))
			case "cut":
				rw.Header().Set("Content-Length", "50")
				rw.WriteHeader(200)
				rw.Write([]byte(`{"uuid":"`))
			default:
				var n int
				fmt.Sscan(kind, &n)
				jsonReply(rw, n, map[string]any{"uuid": carolUUID, "certificate": []byte("wrong")})
			}
			return true
		}
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			p := r.Method + " " + r.URL.Path
			got = append(got, request{r.Method, r.URL.RequestURI(), r.Header.Clone(), body})
			switch p {
			case "GET /v1/accounts/whoami":
				if !oops("whoami", rw) {
					jsonReply(rw, 200, map[string]any{"uuid": ourUUID, "number": ourTel})
				}
			case "PUT /v1/accounts/ups/":
				if !oops("ups", rw) {
					rw.WriteHeader(204)
				}
			case "PUT /v1/accounts/attributes/":
				if !oops("attributes", rw) {
					rw.WriteHeader(204)
				}
			case "GET /v1/profile/" + ourUUID:
				if !oops("profile", rw) {
					jsonReply(rw, 200, map[string]any{"uuid": ourUUID, "identityKey": base64.StdEncoding.EncodeToString(append([]byte{5}, w.kp.Pub[:]...))})
				}
			case "GET /v1/certificate/delivery":
				if !oops("certificate", rw) {
					jsonReply(rw, 200, map[string]any{"certificate": newCert})
				}
			case "PUT /v2/keys/":
				if !oops("keys", rw) {
					rw.WriteHeader(204)
				}
			default:
				return false
			}
			return true
		}
		for n := c.Int("steps", 1, 4); n > 0; n-- {
			fault, kind, hit = "", "", false
			got = nil
			op := kit.Pick(c.T, "op", []string{"whoami", "ups", "attributes", "attributes", "certificate", "keys"})
			if c.Chance("fault", 1, 2) {
				fault = op
				kinds := []string{"400", "401", "403", "404", "409", "411", "413", "422", "428", "429", "500", "502", "503", "508", "dropped"}
				if op == "whoami" || op == "certificate" {
					kinds = append(kinds, "garbage", "garbage", "cut")
				}
				if op == "attributes" && c.Chance("at the profile", 1, 3) {
					fault = "profile"
				}
				if kind = kit.Pick(c.T, "kind", kinds); kind == "400" {
					kind = fmt.Sprint(kit.Refusal(c.T, "status", []int{400, 451}))
				}
			}
			oldCaps, oldCert := config.ConfigFile.AccountCapabilities, append([]byte{}, config.ConfigFile.Certificate...)
			want := caps("wanted")
			token := drawText(c.T, "token")
			var err error
			uuid, path := "", ""
			c.NoPanic(op, func() {
				switch op {
				case "whoami":
					path = "GET /v1/accounts/whoami"
					uuid, err = GetMyUUID()
				case "ups":
					path = "PUT /v1/accounts/ups/"
					err = RegisterWithUPS(token)
				case "attributes":
					path = "PUT /v1/accounts/attributes/"
					err = SetAccountCapabilities(want)
				case "certificate":
					path = "GET /v1/certificate/delivery"
					err = renewSenderCertificate()
				case "keys":
					path = "PUT /v2/keys/"
					preKeys = &preKeyState{IdentityKey: "x"}
					err = registerPreKeys()
				}
			})
			c.Step("%s with the fault %s %s: %v", op, fault, kind, err)
			c.NonTrivial()
			c.Class(op + " " + fault)
			if fault != "" && !hit {
				c.Bad("%s did not ask for its %s", op, fault)
			}
			if hit != (err != nil) {
				c.Bad("%s when %s is answered with %q: error %v", op, fault, kind, err)
			}
			if len(got) == 0 || got[0].method+" "+got[0].path != path {
				c.Bad("%s made the requests %v", op, got)
			}
			user, pass, _ := (&http.Request{Header: got[0].header}).BasicAuth()
			if user != ourUUID || pass != ourPass {
				c.Bad("%s with the credentials %q, %q", op, user, pass)
			}
			if a := got[0].header.Get("X-Signal-Agent"); a != ourUA {
				c.Bad("%s with the user agent %q", op, a)
			}
			switch op {
			case "whoami":
				if err == nil && uuid != ourUUID {
					c.Bad("our uuid is %q", uuid)
				}
			case "ups":
				var in map[string]any
				if json.Unmarshal(got[0].body, &in) != nil || in["upsRegistrationId"] != any(bytesToValid(token)) || len(in) != 1 {
					c.Bad("the token %q is sent as %q", token, got[0].body)
				}
			case "attributes":
				var in struct {
					SignalingKey          []byte
					RegistrationID        uint32
					FetchesMessages       bool
					Name                  string
					UnidentifiedAccessKey []byte
					Capabilities          config.AccountCapabilities
				}
				if e := json.Unmarshal(got[0].body, &in); e != nil {
					c.Bad("the attributes %q: %v", got[0].body, e)
				}
				if !bytes.Equal(in.SignalingKey, registration.Registration.SignalingKey) || in.RegistrationID != registration.Registration.RegistrationID || !in.FetchesMessages || in.Capabilities != want {
					c.Bad("the attributes are sent as %q", got[0].body)
				}
				if !bytes.Equal(in.UnidentifiedAccessKey, accessKey(config.ConfigFile.ProfileKey)) {
					c.Bad("the unidentified access key %x is not the one of the profile key, %x", in.UnidentifiedAccessKey, accessKey(config.ConfigFile.ProfileKey))
				}
				if now := config.ConfigFile.AccountCapabilities; err == nil && now != want || err != nil && now != oldCaps {
					c.Bad("setting the capabilities %+v: error %v, now %+v", want, err, now)
				}
			}
			if err == nil && (op == "attributes" || op == "certificate") {
				// what was set is still there after a restart
				kept, e := ReadConfig(filepath.Join(w.dir, "config.yml"))
				if e != nil || kept.AccountCapabilities != config.ConfigFile.AccountCapabilities || !bytes.Equal(kept.Certificate, config.ConfigFile.Certificate) {
					c.Bad("after %s the configuration is kept as %+v, %v", op, kept, e)
				}
			}
			if now := config.ConfigFile.Certificate; op == "certificate" && err == nil && !bytes.Equal(now, newCert) || (op != "certificate" || err != nil) && !bytes.Equal(now, oldCert) {
				c.Bad("%s: error %v, the sender certificate was %x, is %x", op, err, oldCert, now)
			}
		}
	})
}

func bytesToValid(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}
