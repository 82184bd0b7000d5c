//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// openProvisioning is what a device that shows the code does with what arrives.
func openProvisioning(dev ref.KeyPair, envelope []byte) (map[int]ref.Field, [32]byte, error) {
	var eph [32]byte
	e, err := ref.Dec(envelope)
	if err != nil {
		return nil, eph, err
	}
	pub, body := e[1].Bytes, e[2].Bytes
	if len(pub) != 33 || pub[0] != 5 {
		return nil, eph, fmt.Errorf("ephemeral key of %d bytes", len(pub))
	}
	copy(eph[:], pub[1:])
	if len(body) < 1+16+16+32 || body[0] != 1 {
		return nil, eph, errors.New("version or length")
	}
	keys := ref.HKDF(ref.DH(dev.Priv, eph), nil, []byte("TextSecure Provisioning Message"), 64)
	n := len(body) - 32
	if !bytes.Equal(ref.HMAC(keys[32:], body[:n]), body[n:]) {
		return nil, eph, errors.New("authentication code")
	}
	pt, err := ref.CBCDecrypt(keys[:32], body[1:17], body[17:n])
	if err != nil {
		return nil, eph, err
	}
	m, err := ref.Dec(pt)
	return m, eph, err
}

// when a code was handed out, and when a device was last linked with it
var (
	codes24   int
	issued24  = map[string]bool{}
	lastCode  string
	lastLink  time.Time
	failedNow bool
)

func TestC24Linking(t *testing.T) {
	kit.Check(t, "a provisioning message reached the model server and was opened by the new device, or a link failed under a generated fault or malformed key", func(c *kit.Case) {
		w := newWorld(c, "")
		config.ConfigFile.Tel = kit.Pick(c.T, "tel", []string{ourTel, "+4915112345678", "+1"})
		config.ConfigFile.UUID = kit.Pick(c.T, "uuid", []string{ourUUID, "b0a3f7d2-58a5-4c5e-9d4e-0f6b1e7a9c31"})
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		var fault, kind string
		var codes []string
		var puts []request
		devs := []map[string]any{}
		var deleted []string
		hit := false
		oops := func(at string, rw http.ResponseWriter) bool {
			if fault != at {
				return false
			}
			hit = true
			switch kind {
			case "dropped":
				h, _, err := rw.(http.Hijacker).Hijack()
				if err == nil {
					h.Close()
				}
			case "garbage":
				rw.WriteHeader(200)
				rw.Write([]byte("<html>"))
			case "empty":
				jsonReply(rw, 200, map[string]any{})
			default:
				var n int
				fmt.Sscan(kind, &n)
				rw.WriteHeader(n)
				rw.Write([]byte(`{"verificationCode":"000000","devices":[{"id":9}]}`))
			}
			return true
		}
		w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			p := r.URL.EscapedPath()
			switch {
			case r.Method == "GET" && p == "/v1/devices/provisioning/code":
				if oops("code", rw) {
					return true
				}
				codes24++
				s := fmt.Sprintf("%06d", (codes24*7919)%1000000)
				issued24[s] = true
				codes = append(codes, s)
				jsonReply(rw, 200, map[string]any{"verificationCode": s})
			case r.Method == "PUT" && strings.HasPrefix(p, "/v1/provisioning/"):
				puts = append(puts, request{r.Method, r.URL.RequestURI(), r.Header.Clone(), body})
				if oops("message", rw) {
					return true
				}
				rw.WriteHeader(204)
			case r.Method == "GET" && p == "/v1/devices/":
				if oops("list", rw) {
					return true
				}
				jsonReply(rw, 200, map[string]any{"devices": devs})
			case r.Method == "DELETE" && strings.HasPrefix(p, "/v1/devices/"):
				if oops("unlink", rw) {
					return true
				}
				deleted = append(deleted, strings.TrimPrefix(p, "/v1/devices/"))
				rw.WriteHeader(204)
			default:
				return false
			}
			return true
		}
		ephs := map[[32]byte]bool{}
		for n := c.Int("steps", 1, 5); n > 0; n-- {
			fault, kind, hit = "", "", false
			codes, puts, deleted = nil, nil, nil
			op := c.Int("op", 0, 6)
			if c.Chance("fault", 1, 3) {
				fault = kit.Pick(c.T, "at", []string{"code", "message", "list", "unlink"})
				kind = kit.Pick(c.T, "kind", []string{"401", "403", "404", "411", "413", "429", "500", "503", "dropped", "garbage", "empty"})
				if kind == "401" {
					kind = fmt.Sprint(kit.Refusal(c.T, "status", []int{401, 400}))
				}
				if (fault == "message" || fault == "unlink") && (kind == "garbage" || kind == "empty") || fault == "list" && kind == "empty" {
					kind = "500"
				}
			}
			switch op {
			case 0, 1, 2, 3:
				dev, other := ref.NewKeyPair(), ref.NewKeyPair()
				raw := append([]byte{5}, dev.Pub[:]...)
				malformed := c.Chance("malformed key", 1, 4)
				if malformed {
					switch c.Int("how", 0, 3) {
					case 0:
						raw = raw[:c.Int("n", 0, 32)]
					case 1:
						raw = append(raw, kit.Fill(c.T, c.Int("n", 1, 40))...)
					case 2:
						raw[0] = kit.Pick(c.T, "type", []byte{0, 4, 6, 0x85})
					case 3:
						raw = dev.Pub[:]
					}
				}
				key := base64.RawStdEncoding.EncodeToString(raw)
				if malformed && c.Chance("not base64", 1, 4) {
					key = kit.Pick(c.T, "text", []string{"", "!", "BQ", "B", "key with spaces", "\x00\xff", strings.Repeat("=", 44)})
				} else if !malformed && c.Chance("padded", 1, 3) {
					key = base64.StdEncoding.EncodeToString(raw)
				}
				id := kit.Pick(c.T, "id", []string{"b5e0bf1e-0c33-4a0e-8f5a-2c3f2f7cbb01", "3lYzZ9pQ-_aA==", "a b", "../../v1/accounts/me", "x?y=z", "x#y", "50%2F", "ä"})
				byCaller := op == 3
				code := kit.Pick(c.T, "code", []string{"123456", "", "00ff"})
				var err error
				c.NoPanic("linking a device", func() {
					if byCaller {
						err = AddDevice(id, key, code)
					} else {
						err = AddNewLinkedDevice(id, key)
					}
				})
				c.Step("link %q, key %q (malformed %v), code by caller %v, fault %s %s: %v", id, key, malformed, byCaller, fault, kind, err)
				if len(puts) > 1 {
					c.Bad("%d provisioning messages for one device", len(puts))
				}
				if malformed && len(puts) > 0 {
					c.Bad("a provisioning message for the malformed key %q", key)
				}
				if ok := !malformed && !hit; ok != (err == nil) {
					c.Bad("linking with a key %q (malformed %v) and the fault %s %s: error %v", key, malformed, fault, kind, err)
				}
				if err != nil {
					c.NonTrivial()
				}
				if len(puts) == 1 {
					u, _ := url.ParseRequestURI(puts[0].path)
					if got := strings.TrimPrefix(u.Path, "/v1/provisioning/"); got != id || u.RawQuery != "" {
						c.Bad("the message for %q goes to %q", id, puts[0].path)
					}
					var in struct{ Body []byte }
					if e := json.Unmarshal(puts[0].body, &in); e != nil {
						c.Bad("the provisioning request %q: %v", puts[0].body, e)
					}
					m, eph, e := openProvisioning(dev, in.Body)
					if e != nil {
						c.Bad("the new device can not open the provisioning message: %v", e)
					}
					if ephs[eph] {
						c.Bad("two provisioning messages under the same ephemeral key")
					}
					ephs[eph] = true
					if _, _, e := openProvisioning(other, in.Body); e == nil {
						c.Bad("a key other than the new device's opens the provisioning message")
					}
					if x := kit.Mutator(c.T)(in.Body); !bytes.Equal(x, in.Body) {
						if got, _, e := openProvisioning(dev, x); e == nil && !reflect.DeepEqual(got, m) {
							c.Bad("an altered provisioning message is accepted")
						}
					}
					for _, secret := range [][]byte{w.kp.Priv[:], []byte(base64.StdEncoding.EncodeToString(w.kp.Priv[:]))[:40]} {
						if bytes.Contains(in.Body, secret) || bytes.Contains(puts[0].body, secret) {
							c.Bad("the private identity key is sent in clear")
						}
					}
					pub := append([]byte{5}, w.kp.Pub[:]...)
					if !bytes.Equal(m[1].Bytes, pub) || !bytes.Equal(m[2].Bytes, w.kp.Priv[:]) {
						c.Bad("the new device gets the identity %x %x, it is %x", m[1].Bytes, m[2].Bytes, pub)
					}
					if string(m[3].Bytes) != config.ConfigFile.Tel || string(m[8].Bytes) != config.ConfigFile.UUID {
						c.Bad("the new device gets number %q and identifier %q of the account %q %q", m[3].Bytes, m[8].Bytes, config.ConfigFile.Tel, config.ConfigFile.UUID)
					}
					if !bytes.Equal(m[6].Bytes, config.ConfigFile.ProfileKey) {
						c.Bad("the new device gets the profile key %x, it is %x", m[6].Bytes, config.ConfigFile.ProfileKey)
					}
					got := string(m[4].Bytes)
					if byCaller {
						if got != code {
							c.Bad("the new device gets the code %q instead of %q", got, code)
						}
					} else if len(codes) > 0 {
						if got != codes[len(codes)-1] {
							c.Bad("the new device gets the code %q, the server gave %q", got, codes)
						}
					} else if got != lastCode || failedNow || time.Since(lastLink) > 11*time.Second {
						c.Bad("the new device gets the old code %q (an attempt failed since: %v)", got, failedNow)
					}
					if err == nil {
						c.NonTrivial()
						if !byCaller {
							lastCode, lastLink = got, time.Now()
						}
					}
				}
				if !byCaller {
					failedNow = err != nil
				}
			case 4:
				var got string
				var err error
				c.NoPanic("NewDeviceVerificationCode", func() { got, err = NewDeviceVerificationCode() })
				c.Step("code, fault %s %s: %q %v", fault, kind, got, err)
				if hit && err == nil {
					c.Bad("the request for a code met %s and is reported as success with %q", kind, got)
				}
				if !hit && (err != nil || len(codes) != 1 || got != codes[0]) {
					c.Bad("the code is reported as %q, %v; the server gave %q", got, err, codes)
				}
			case 5:
				devs = devs[:0]
				for k := c.Int("devices", 0, 4); k > 0; k-- {
					devs = append(devs, map[string]any{"id": c.Int("id", 1, 200), "name": drawText(c.T, "name"), "created": 1600000000000 + c.Int("created", 0, 1<<40), "lastSeen": c.Int("seen", 0, 1<<40)})
				}
				var got []DeviceInfo
				var err error
				c.NoPanic("LinkedDevices", func() { got, err = LinkedDevices() })
				c.Step("list of %d devices, fault %s %s: %v", len(devs), fault, kind, err)
				if hit && err == nil {
					c.Bad("the request for the devices met %s and is reported as success with %v", kind, got)
				}
				if !hit && (err != nil || len(got) != len(devs)) {
					c.Bad("%d devices are listed, %v; the account has %d", len(got), err, len(devs))
				}
				if !hit {
					for i, d := range devs {
						b, _ := json.Marshal(d)
						var want DeviceInfo
						json.Unmarshal(b, &want)
						if got[i] != want {
							c.Bad("device %d is listed as %+v, it is %+v", i, got[i], want)
						}
					}
				}
			case 6:
				id := c.Int("id", 1, 300)
				var err error
				c.NoPanic("UnlinkDevice", func() { err = UnlinkDevice(id) })
				c.Step("unlink %d, fault %s %s: %v", id, fault, kind, err)
				if hit != (err != nil) {
					c.Bad("unlinking device %d with the fault %s %s: error %v", id, fault, kind, err)
				}
				if !hit && (len(deleted) != 1 || deleted[0] != fmt.Sprint(id)) {
					c.Bad("unlinking device %d deletes %v", id, deleted)
				}
			}
		}
	})
}
