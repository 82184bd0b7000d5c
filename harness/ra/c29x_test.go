//go:build go1.22

package contactsDiscovery

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// The whole exchange: the client's own key, a server with several enclaves of which some cannot be trusted.
func TestC29Exchange(t *testing.T) {
	kit.Check(t, "the server gave one to three attestations, and those the client accepted were compared with the genuine ones", func(c *kit.Case) {
		type enclave struct {
			name      string
			eph, stat ref.KeyPair
			id, iv    []byte
			defect    string
			at        int
			keys      []byte
		}
		n := c.Int("attestations", 0, 5)
		if n == 0 || n > 3 {
			n = c.Int("attestations again", 0, 5)
		}
		var es []*enclave
		for i := 0; i < n; i++ {
			e := &enclave{name: fmt.Sprintf("enclave%d", i), eph: key29(c, "ephemeral key"), stat: key29(c, "static"), id: kit.Bytes(60).Draw(c.T, "request id"), iv: kit.Fill(c.T, 12)}
			if i > 0 && c.Chance("same static key", 1, 5) {
				e.stat = es[0].stat
			}
			if c.Chance("altered", 2, 5) {
				e.defect = kit.Pick(c.T, "defect", []string{"tag", "ciphertext", "iv", "ephemeral", "static", "wrong direction", "null", "tag missing", "short iv", "long key", "short key"})
			}
			e.at = c.Int("at", 0, 1000)
			es = append(es, e)
		}
		status := 200
		if c.Chance("refused", 1, 8) {
			status = kit.Refusal(c.T, "status", []int{400, 401, 403, 404, 429, 500, 503, 302, 199 + 105})
		}
		garbage := ""
		if c.Chance("garbage", 1, 10) {
			garbage = kit.Pick(c.T, "answer", []string{"", "{", "null", "[]", "{}", `{"attestations":null}`, `{"attestations":[]}`, `{"attestations":{"a":"b"}}`, `{"attestations":{"a":{"iv":"!"}}}`, `{"attestations":{"a":{}}}`})
		}
		token := kit.Pick(c.T, "authorization", []string{"Basic dTpw", "Basic eA=="})
		var wrong []string
		asked := 0
		srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			asked++
			b, _ := io.ReadAll(r.Body)
			var q struct{ ClientPublic []byte }
			if err := json.Unmarshal(b, &q); err != nil || len(q.ClientPublic) != 32 || r.Method != "PUT" || r.URL.Path != "/v1/attestation/"+enclaveName29 || r.Header.Get("Authorization") != token {
				wrong = append(wrong, fmt.Sprintf("%s %s %s %q", r.Method, r.URL.Path, b, r.Header.Get("Authorization")))
				rw.WriteHeader(400)
				return
			}
			rw.Header().Set("Set-Cookie", "session=1")
			if status != 200 {
				rw.WriteHeader(status)
			}
			if garbage != "" {
				io.WriteString(rw, garbage)
				return
			}
			atts := map[string]any{}
			for _, e := range es {
				var cl [32]byte
				copy(cl[:], q.ClientPublic)
				salt := append(append(append([]byte{}, cl[:]...), e.eph.Pub[:]...), e.stat.Pub[:]...)
				e.keys = ref.HKDF(append(ref.DH(e.eph.Priv, cl), ref.DH(e.stat.Priv, cl)...), salt, nil, 64)
				k := e.keys[32:]
				if e.defect == "wrong direction" {
					k = e.keys[:32]
				}
				sealed := gcm29(k).Seal(nil, e.iv, e.id, nil)
				f := map[string][]byte{"iv": e.iv, "ciphertext": sealed[:len(e.id)], "tag": sealed[len(e.id):], "ephemeral": e.eph.Pub[:], "static": e.stat.Pub[:]}
				quote := make([]byte, 436+40)
				quote[0], quote[96] = 2, 5
				copy(quote[112:], enclave29)
				copy(quote[368:], e.stat.Pub[:])
				quote[432] = 40
				switch e.defect {
				case "tag", "ciphertext", "iv", "ephemeral", "static":
					x := append([]byte{}, f[e.defect]...)
					if len(x) == 0 { // an empty request id
						x = []byte{1}
					} else {
						x[e.at%len(x)] ^= 1 << (e.at % 7)
					}
					f[e.defect] = x
				case "tag missing":
					delete(f, "tag")
				case "short iv":
					f["iv"] = e.iv[:11]
				case "long key":
					f["static"] = append(append([]byte{}, e.stat.Pub[:]...), 1)
				case "short key":
					f["ephemeral"] = e.eph.Pub[:31]
				case "null":
					atts[e.name] = nil
					continue
				}
				atts[e.name] = map[string]any{"serverEphemeralPublic": f["ephemeral"], "serverStaticPublic": f["static"], "quote": quote, "iv": f["iv"],
					"ciphertext": f["ciphertext"], "tag": f["tag"], "signature": "c2ln", "certificates": "", "signatureBody": "{}"}
			}
			json.NewEncoder(rw).Encode(map[string]any{"attestations": atts})
		}))
		defer srv.Close()
		transport.SetupDirectoryTransporter(srv.URL, "user", "pass", "agent", "")
		var got map[string]*RemoteAttestation
		var err error
		r := &RemoteAttestation{}
		c.NoPanic("asking for attestations", func() { got, err = r.GetAndVerifyMultiRemoteAttestation(enclaveName29, token) })
		genuine := 0
		desc := ""
		for _, e := range es {
			if e.defect == "" {
				genuine++
			}
			desc += fmt.Sprintf(" %d-%q", len(e.id), e.defect)
		}
		c.Step("status %d, garbage %q, attestations%s: %d accepted, %v", status, garbage, desc, len(got), err)
		if len(wrong) > 0 || asked != 1 {
			c.Bad("%d requests, wrong ones: %q", asked, wrong)
		}
		if status != 200 || garbage != "" || n < 1 || n > 3 || genuine == 0 {
			if err == nil {
				c.Bad("no error: status %d, answer %q, %d attestations, %d genuine; accepted: %d", status, garbage, n, genuine, len(got))
			}
			if n >= 1 && n <= 3 && status == 200 && garbage == "" {
				c.NonTrivial()
			}
			return
		}
		c.NonTrivial()
		if err != nil {
			c.Bad("%d genuine attestations of %d are refused: %v", genuine, n, err)
		}
		if len(got) != genuine {
			c.Bad("%d attestations are accepted, %d are genuine", len(got), genuine)
		}
		for _, e := range es {
			a := got[e.name]
			if e.defect != "" {
				if a != nil {
					c.Bad("an attestation with the defect %q is accepted", e.defect)
				}
				continue
			}
			if a == nil || !bytes.Equal(a.RequestId, e.id) || !bytes.Equal(a.Keys.ClientKey, e.keys[:32]) || !bytes.Equal(a.Keys.ServerKey, e.keys[32:]) {
				c.Bad("the attestation of %s is not the enclave's", e.name)
			}
		}
	})
}
