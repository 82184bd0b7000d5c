//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

func TestC28Discovery(t *testing.T) {
	kit.Check(t, "numbers were looked up and the answer compared, or a bad attestation or answer was refused", func(c *kit.Case) {
		w := newWorld(c, "")
		e := w.withEnclave()
		e.user, e.pass = kit.Pick(c.T, "user", []string{"u", "123", ""}), kit.Pick(c.T, "pass", []string{"p", "a:b", "x=="})
		e.cookie = kit.Pick(c.T, "cookie", []string{"a=b", "IBMCLB-d9=084b; Path=/; HttpOnly"})
		for n := c.Int("lookups", 1, 3); n > 0; n-- {
			book := phoneBook(c, e)
			client.GetLocalContacts = func() ([]contacts.Contact, error) { return append([]contacts.Contact{}, book...), nil }
			e.n = c.Int("attestations", 1, 3)
			e.problems, e.queries, e.onAttest, e.onAnswer = nil, nil, nil, nil
			var nums []int64
			seen := map[string]bool{}
			want := append([]contacts.Contact{}, book...)
			for i, ct := range want {
				if num, ok := plainNumber(ct.Tel); ok && !seen[ct.Tel] {
					seen[ct.Tel] = true
					nums = append(nums, num)
					u := e.uuids[num]
					want[i].Registered = u != nil
					if u == nil {
						u = make([]byte, 16)
					}
					h := hex.EncodeToString(u)
					want[i].UUID = h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
				}
			}
			before := map[string]contacts.Contact{}
			for k, v := range contacts.Contacts {
				before[k] = v
			}
			hostile, refusedAll := "", true
			switch c.Int("hostile", 0, 3) {
			case 0: // attestations
				// what happens to each is drawn here: the server answers in another goroutine
				hows, fields, muts := map[string]int{}, map[string]string{}, map[string]func([]byte) []byte{}
				for i := 0; i < e.n; i++ {
					id := fmt.Sprintf("att-%d", i)
					hows[id] = -1
					if c.Chance("bad attestation", 2, 3) {
						hows[id] = c.Int("how", 0, 2)
						fields[id] = kit.Pick(c.T, "field", []string{"serverEphemeralPublic", "serverStaticPublic", "iv", "ciphertext", "tag"})
						muts[id] = kit.Mutator(c.T)
					}
				}
				e.onAttest = func(id string, a map[string]any) map[string]any {
					if hows[id] < 0 {
						refusedAll = false
						return a
					}
					hostile = "attestation"
					f := fields[id]
					switch hows[id] {
					case 0:
						return nil
					case 1:
						a[f] = muts[id](a[f].([]byte))
					case 2:
						delete(a, f)
					}
					a["refused"] = true
					return a
				}
			case 1: // the answer
				how, pos, mut, fill := c.Int("how", 0, 6), c.Int("n", 0, 1000), kit.Mutator(c.T), kit.Fill(c.T, 40)
				field := kit.Pick(c.T, "field", []string{"data", "mac", "iv", "requestId"})
				e.onAnswer = func(a map[string]any, s *enclaveSession, data []byte) map[string]any {
					hostile = "answer"
					iv := bytes.Repeat([]byte{9}, 12)
					seal2 := func(data []byte) {
						ct, tag := seal(s.server, iv, data, nil)
						a["data"], a["mac"], a["iv"] = ct, tag, iv
					}
					switch how {
					case 0:
						if len(a[field].([]byte)) == 0 {
							field = "mac"
						}
						a[field] = mut(a[field].([]byte))
					case 1:
						if field == "data" {
							field = "mac"
						}
						delete(a, field)
					case 2:
						hostile = "too short"
						seal2(data[:pos%max(1, len(data))])
					case 3:
						hostile = "too long"
						seal2(append(append([]byte{}, data...), fill[:1+pos%40]...))
					case 4:
						return nil
					case 5:
						return map[string]any{}
					case 6:
						ct, tag := seal(s.client, iv, data, nil)
						a["data"], a["mac"], a["iv"] = ct, tag, iv
					}
					return a
				}
			}
			fault := ""
			status, text := kit.Refusal(c.T, "status", []int{400, 401, 403, 404, 429, 500}), kit.Pick(c.T, "body", []string{"", "{}", "null", "<html>"})
			e.fault = func(at string, rw http.ResponseWriter) bool {
				if fault == at {
					rw.WriteHeader(status)
					rw.Write([]byte(text))
					return true
				}
				return false
			}
			if c.Chance("fault", 1, 6) {
				fault = kit.Pick(c.T, "at", []string{"auth", "attestation", "discovery"})
			}
			var got []contacts.Contact
			var err error
			c.NoPanic("GetRegisteredContacts", func() { got, err = GetRegisteredContacts() })
			c.Step("%d contacts, %d numbers, %d attestations, hostile %q, fault %q: %v", len(book), len(nums), e.n, hostile, fault, err)
			if hostile != "attestation" || fault == "auth" {
				refusedAll = false
			}
			if len(e.problems) > 0 {
				c.Bad("%s", e.problems[0])
			}
			if len(nums) > 0 && fault == "" && !refusedAll {
				if len(e.queries) != 1 || fmt.Sprint(e.queries[0]) != fmt.Sprint(nums) {
					c.Bad("asked for %v, the numbers of the address book are %v", e.queries, nums)
				}
			} else if len(e.queries) != 0 {
				c.Bad("the numbers are given away without a session")
			}
			bad := hostile == "answer" || hostile == "too short" || hostile == "too long"
			if len(nums) == 0 || fault != "" || bad || refusedAll {
				if err == nil && hostile != "too long" {
					c.Bad("%d numbers, hostile %q, fault %q: success", len(nums), hostile, fault)
				}
				if err != nil {
					if !reflect.DeepEqual(contacts.Contacts, before) {
						c.Bad("a failed lookup changes the known contacts from %v to %v", before, contacts.Contacts)
					}
					if bad || refusedAll || fault != "" {
						c.NonTrivial()
					}
					continue
				}
			}
			if err != nil {
				c.Bad("a lookup of %v fails: %v", nums, err)
			}
			if len(got) != len(want) {
				c.Bad("%d contacts, there are %d", len(got), len(want))
			}
			for i := range want {
				if !reflect.DeepEqual(got[i], want[i]) {
					c.Bad("contact %d is %+v, want %+v", i, got[i], want[i])
				}
			}
			c.NonTrivial()
			// what is found is still known after a restart
			known := map[string]contacts.Contact{}
			for k, ct := range contacts.Contacts {
				known[k] = ct
			}
			if b, e := os.ReadFile(filepath.Join(w.dir, "contacts.yml")); e != nil {
				c.Bad("after a lookup there is no file with the contacts: %v (%d contacts)", e, len(known))
			} else if _, e := contacts.ReadContacts(filepath.Join(w.dir, "contacts.yml")); e != nil || len(contacts.Contacts) != len(known) {
				c.Bad("after a lookup the contacts %v are kept as %q: %v", known, b, e)
			}
			for k, ct := range known {
				if now, ok := contacts.Contacts[k]; !ok || now.Name != ct.Name || now.Tel != ct.Tel || now.UUID != ct.UUID || now.Registered != ct.Registered {
					c.Bad("after a lookup the contact %+v is kept as %+v", ct, now)
				}
			}
			contacts.Contacts = known
			// what is known afterwards: every number that was looked up
			seen = map[string]bool{}
			for _, ct := range want {
				if _, ok := plainNumber(ct.Tel); !ok || seen[ct.Tel] {
					continue
				}
				seen[ct.Tel] = true
				k := ct.UUID
				if !ct.Registered {
					k = ct.Tel
				}
				same := 0
				for _, o := range want {
					if o.UUID == ct.UUID && o.Registered {
						same++
					}
				}
				if same <= 1 && !reflect.DeepEqual(contacts.GetContact(k), ct) {
					c.Bad("the contact %q is known as %+v, it is %+v", k, contacts.GetContact(k), ct)
				}
			}
		}
	})
}
