//go:build go1.22

package contactDiscoveryCrypto

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"github.com/signal-golang/textsecure/contactsDiscovery"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

func aead(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// spare gives a copy of b with more behind it that belongs to someone else.
func spare(b []byte) (slice, whole []byte) {
	whole = append(append([]byte{}, b...), bytes.Repeat([]byte{0xEE}, 64)...)
	return whole[:len(b)], whole
}

func untouched(whole, b []byte) bool {
	return bytes.Equal(whole[:len(b)], b) && bytes.Equal(whole[len(b):], bytes.Repeat([]byte{0xEE}, 64))
}

type session28 struct {
	id             string
	client, server []byte
	req, reqWhole  []byte
}

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

func TestC28Requests(t *testing.T) {
	ivs := map[string]bool{}
	kit.Check(t, "a request with numbers was made and opened with the key of each attestation, or an altered answer was refused", func(c *kit.Case) {
		n := c.Int("attestations", 1, 3)
		var ss []*session28
		atts := map[string]*contactsDiscovery.RemoteAttestation{}
		for i := 0; i < n; i++ {
			s := &session28{id: fmt.Sprint("attestation ", i), client: kit.Fill(c.T, 32), server: kit.Fill(c.T, 32)}
			s.client[0], s.server[0], s.server[1], s.client[1] = byte(i), byte(i), 1, 0
			s.req = append([]byte{byte(i)}, kit.Fill(c.T, c.Int("request id", 0, 48))...)
			a := &contactsDiscovery.RemoteAttestation{Keys: contactsDiscovery.RemoteAttestationKeys{ClientKey: append([]byte{}, s.client...), ServerKey: append([]byte{}, s.server...)}}
			a.RequestId, s.reqWhole = spare(s.req)
			atts[s.id] = a
			ss = append(ss, s)
		}
		check := func(what string) {
			for _, s := range ss {
				a := atts[s.id]
				if !untouched(s.reqWhole, s.req) || !bytes.Equal(a.Keys.ClientKey, s.client) || !bytes.Equal(a.Keys.ServerKey, s.server) || len(a.RequestId) != len(s.req) {
					c.Bad("%s changes the data of attestation %s", what, s.id)
				}
			}
		}
		for k := c.Int("requests", 1, 3); k > 0; k-- {
			var book []string
			var nums []int64
			for j := c.Int("numbers", 0, 40); j > 0; j-- {
				x := kit.Pick(c.T, "number", []int64{0, 1, 49, 4467060706060, 1<<31 - 1, 1 << 31, 1<<32 + 5, 31600000001, 999999999999999, 1<<63 - 1})
				if c.Chance("random", 1, 2) {
					x = int64(c.Int("n", 1000000, 1<<50))
				}
				nums = append(nums, x)
				s := fmt.Sprint(x)
				if c.Chance("plus", 1, 2) {
					s = "+" + s
				}
				book = append(book, s)
			}
			if c.Chance("large book", 1, 12) {
				c.Class("large book")
				first := int64(c.Int("first of the large book", 1000000, 1<<50))
				for j := int64(c.Int("numbers of the large book", 100, 3000)); j > 0; j-- {
					nums = append(nums, first+7*j)
					book = append(book, fmt.Sprint("+", first+7*j))
				}
			}
			odd := ""
			if c.Chance("odd number", 1, 10) {
				odd = kit.Pick(c.T, "odd", []string{"", "+", "12a", "1 2", "99999999999999999999", "0x12", "+49-1", "1.5", "١٢"})
				i := c.Int("at", 0, len(book))
				book = append(book[:i:i], append([]string{odd}, book[i:]...)...)
				c.Step("odd number %q among %d", odd, len(book))
			}
			before := strings.Join(book, "|")
			cp := append(make([]string, 0, len(book)+4), book...)
			var r *DiscoveryRequest
			var err error
			c.NoPanic("CreateDiscoveryRequest", func() { r, err = CreateDiscoveryRequest(cp, atts) })
			check("making a request")
			if strings.Join(cp, "|") != before {
				c.Bad("the address book is changed")
			}
			if strings.Contains("|"+before+"|", "|"+odd+"|") && len(book) != len(nums) {
				if err == nil {
					c.Bad("a request with the number %q is made", odd)
				}
				continue
			}
			if err != nil {
				c.Bad("a request for %q fails: %v", book, err)
			}
			if r.AddressCount != len(nums) || len(r.Envelopes) != n {
				c.Bad("%d numbers and %d attestations, the request says %d and %d", len(nums), n, r.AddressCount, len(r.Envelopes))
			}
			open := func(envelope *QueryEnvelope, key []byte, aad []byte) ([]byte, error) {
				return aead(key).Open(nil, envelope.Iv, cat(envelope.Data, envelope.Mac), aad)
			}
			for _, s := range ss {
				env := r.Envelopes[s.id]
				if env == nil || !bytes.Equal(env.RequestId, s.req) || len(env.Iv) != 12 || len(r.Iv) != 12 || len(env.Mac) != 16 || len(r.Mac) != 16 {
					c.Bad("envelope for %s: %+v", s.id, env)
				}
				qk, err := open(env, s.client, s.req)
				if err != nil || len(qk) != 32 {
					c.Bad("the envelope for %s does not open with its key: %v", s.id, err)
				}
				for _, o := range ss {
					if o != s {
						if _, err := open(env, o.client, s.req); err == nil {
							c.Bad("the envelope for %s opens with the key of %s", s.id, o.id)
						}
					}
					if _, err := open(env, o.server, s.req); err == nil {
						c.Bad("the envelope for %s opens with the key of the other direction", s.id)
					}
				}
				if ivs[string(env.Iv)+string(s.client)] || ivs[string(qk)] {
					c.Bad("a nonce or a key is used for a second request")
				}
				ivs[string(env.Iv)+string(s.client)] = true
				q, err := aead(qk).Open(nil, r.Iv, cat(r.Data, r.Mac), nil)
				if err != nil {
					c.Bad("the query does not open: %v", err)
				}
				if h := sha256.Sum256(q); !bytes.Equal(h[:], r.Commitment) {
					c.Bad("the commitment is not that of the query")
				}
				if len(q) != 32+8*len(nums) {
					c.Bad("a query of %d bytes for %d numbers", len(q), len(nums))
				}
				for i, x := range nums {
					if got := int64(binary.BigEndian.Uint64(q[32+8*i:])); got != x {
						c.Bad("number %d is %d, asked was %d", i, got, x)
					}
				}
				if nonce := string(q[:32]); ivs[nonce] || nonce == string(make([]byte, 32)) {
					c.Bad("the nonce of the query is not fresh")
				}
			}
			var qk []byte
			qk, _ = open(r.Envelopes[ss[0].id], ss[0].client, ss[0].req)
			q, _ := aead(qk).Open(nil, r.Iv, cat(r.Data, r.Mac), nil)
			ivs[string(qk)], ivs[string(q[:32])] = true, true
			c.Step("request for %d numbers to %d attestations", len(nums), n)
			if len(nums) > 0 {
				c.NonTrivial()
			}
			// the answer
			s := kit.Pick(c.T, "session", ss)
			data := kit.Big(700).Draw(c.T, "answer")
			iv := kit.Fill(c.T, 12)
			sealed := aead(s.server).Seal(nil, iv, data, nil)
			a := map[string][]byte{"data": sealed[:len(data)], "iv": iv, "mac": sealed[len(data):], "request id": s.req}
			altered := ""
			key := s.server
			if c.Chance("altered", 2, 3) {
				field := kit.Pick(c.T, "field", []string{"data", "iv", "mac", "request id", "session", "direction", "empty"})
				switch field {
				case "session":
					o := kit.Pick(c.T, "other", ss)
					if o != s {
						a["request id"] = o.req
						altered = "with the request id of another session"
					}
				case "direction":
					key = s.client
					sealed = aead(key).Seal(nil, iv, data, nil)
					a["data"], a["mac"] = sealed[:len(data)], sealed[len(data):]
					altered = "under the key of the other direction"
				case "empty":
					f := kit.Pick(c.T, "f", []string{"data", "iv", "mac", "request id"})
					if len(a[f]) > 0 {
						a[f] = nil
						altered = "without " + f
					}
				default:
					var d string
					a[field], d = kit.Mutate(c.T, a[field])
					altered = field + ": " + d
				}
			}
			if altered != "" && len(a["mac"]) != 16 && bytes.Equal(cat(a["data"], a["mac"]), cat(sealed[:len(data)], sealed[len(data):])) {
				altered = ""
			}
			resp := DiscoveryResponse{}
			wholes := map[string][]byte{}
			resp.Data, wholes["data"] = spare(a["data"])
			resp.Iv, wholes["iv"] = spare(a["iv"])
			resp.Mac, wholes["mac"] = spare(a["mac"])
			resp.RequestId, wholes["request id"] = spare(a["request id"])
			var got []byte
			c.NoPanic("GetDiscoveryResponseData", func() { got, err = GetDiscoveryResponseData(resp, atts) })
			for f, whole := range wholes {
				if !untouched(whole, a[f]) {
					c.Bad("opening an answer (%s) changes the caller's %s", altered, f)
				}
			}
			check("opening an answer")
			if altered == "" && (err != nil || !bytes.Equal(got, data)) {
				c.Bad("a genuine answer of %d bytes gives %d bytes and error %v", len(data), len(got), err)
			}
			if altered != "" {
				if err == nil {
					c.Bad("an answer that was altered (%s) is accepted", altered)
				}
				c.NonTrivial()
				c.Step("altered answer refused: %s", altered)
			}
		}
	})
}
