//go:build go1.22

package textsecure

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// enclave is a model of the contact discovery service.
type enclave struct {
	c        *kit.Case
	w        *world
	uuids    map[int64][]byte // registered numbers
	n        int              // attestations
	cookie   string
	user     string
	pass     string
	sessions map[string]*enclaveSession
	queries  [][]int64
	problems []string
	attest   int
	// hooks changing what is answered
	onAttest func(id string, a map[string]any) map[string]any
	onAnswer func(answer map[string]any, s *enclaveSession, data []byte) map[string]any
	fault    func(at string, rw http.ResponseWriter) bool
}

type enclaveSession struct {
	id         string
	client     []byte
	server     []byte
	request    []byte
	refused    bool
	eph, stat  ref.KeyPair
	clientPub  []byte
	ciphertext []byte
}

func gcm(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// seal returns data and tag apart.
func seal(key, iv, pt, aad []byte) (data, tag []byte) {
	x := gcm(key).Seal(nil, iv, pt, aad)
	return x[:len(pt)], x[len(pt):]
}

func (w *world) withEnclave() *enclave {
	e := &enclave{c: w.c, w: w, uuids: map[int64][]byte{}, n: 1, cookie: "session=abc; Secure; HttpOnly", user: "diruser", pass: "dir:pass", sessions: map[string]*enclaveSession{}}
	old := w.extra
	w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
		if old != nil && old(rw, r, body) {
			return true
		}
		return e.serve(rw, r, body)
	}
	return e
}

func (e *enclave) bad(format string, a ...any) {
	e.problems = append(e.problems, fmt.Sprintf(format, a...))
}

func (e *enclave) serve(rw http.ResponseWriter, r *http.Request, body []byte) bool {
	p := r.URL.Path
	auth := func() bool {
		u, pw, ok := r.BasicAuth()
		if !ok || u != e.user || pw != e.pass {
			e.bad("%s %s with the credentials %q %q", r.Method, p, u, pw)
			rw.WriteHeader(401)
			return false
		}
		return true
	}
	switch {
	case r.Method == "GET" && p == "/v1/directory/auth":
		if e.fault != nil && e.fault("auth", rw) {
			return true
		}
		jsonReply(rw, 200, map[string]any{"username": e.user, "password": e.pass})
		return true
	case r.Method == "PUT" && p == "/v1/attestation/"+CDS_MRENCLAVE:
		if !auth() || e.fault != nil && e.fault("attestation", rw) {
			return true
		}
		var in struct {
			ClientPublic []byte `json:"clientPublic"`
		}
		if json.Unmarshal(body, &in) != nil || len(in.ClientPublic) != 32 {
			e.bad("attestation request %s", body)
			rw.WriteHeader(400)
			return true
		}
		e.sessions = map[string]*enclaveSession{}
		atts := map[string]any{}
		for i := 0; i < e.n; i++ {
			e.attest++
			s := &enclaveSession{id: fmt.Sprintf("att-%d", i), eph: ref.NewKeyPair(), stat: ref.NewKeyPair(), clientPub: in.ClientPublic}
			var cp [32]byte
			copy(cp[:], in.ClientPublic)
			ikm := append(ref.DH(s.eph.Priv, cp), ref.DH(s.stat.Priv, cp)...)
			salt := append(append(append([]byte{}, in.ClientPublic...), s.eph.Pub[:]...), s.stat.Pub[:]...)
			keys := ref.HKDF(ikm, salt, nil, 64)
			s.client, s.server = keys[:32], keys[32:]
			s.request = []byte(fmt.Sprintf("request id %d of attestation %d", i, e.attest))
			iv := bytes.Repeat([]byte{byte(i)}, 12)
			ct, tag := seal(s.server, iv, s.request, nil)
			s.ciphertext = ct
			a := map[string]any{"serverEphemeralPublic": s.eph.Pub[:], "serverStaticPublic": s.stat.Pub[:], "quote": make([]byte, 500), "iv": iv,
				"ciphertext": ct, "tag": tag, "signature": "c2ln"}
			if e.onAttest != nil {
				a = e.onAttest(s.id, a)
				if a == nil {
					s.refused = true
					atts[s.id] = nil
					continue
				}
				if a["refused"] == true {
					delete(a, "refused")
					s.refused = true
				}
			}
			e.sessions[s.id] = s
			atts[s.id] = a
		}
		rw.Header().Set("Set-Cookie", e.cookie)
		jsonReply(rw, 200, map[string]any{"attestations": atts})
		return true
	case r.Method == "PUT" && p == "/v1/discovery/"+CDS_MRENCLAVE:
		if !auth() || e.fault != nil && e.fault("discovery", rw) {
			return true
		}
		if !strings.Contains(r.Header.Get("Cookie"), strings.Split(e.cookie, ";")[0]) {
			e.bad("discovery request with the cookie %q", r.Header.Get("Cookie"))
		}
		nums, err := e.open(body)
		if err != nil {
			e.bad("%v", err)
			rw.WriteHeader(400)
			return true
		}
		e.queries = append(e.queries, nums)
		var data []byte
		for _, n := range nums {
			u := e.uuids[n]
			if u == nil {
				u = make([]byte, 16)
			}
			data = append(data, u...)
		}
		var s *enclaveSession
		for i := 0; i < e.n; i++ {
			if x := e.sessions[fmt.Sprintf("att-%d", i)]; x != nil && !x.refused {
				s = x
			}
		}
		if s == nil {
			e.bad("a discovery request without an attestation that can be trusted")
			rw.WriteHeader(400)
			return true
		}
		iv := bytes.Repeat([]byte{7}, 12)
		ct, tag := seal(s.server, iv, data, nil)
		answer := map[string]any{"data": ct, "iv": iv, "mac": tag, "requestId": s.request}
		if e.onAnswer != nil {
			answer = e.onAnswer(answer, s, data)
		}
		jsonReply(rw, 200, answer)
		return true
	}
	return false
}

// open is what the enclave does with a request; every session must lead to the same numbers.
func (e *enclave) open(body []byte) ([]int64, error) {
	var in struct {
		AddressCount     int
		Commitment, Data []byte
		Iv, Mac          []byte
		Envelopes        map[string]struct{ Data, Iv, Mac, RequestId []byte }
	}
	if err := json.Unmarshal(body, &in); err != nil {
		return nil, fmt.Errorf("discovery request: %v", err)
	}
	var nums []int64
	seen := 0
	for id, s := range e.sessions {
		env, ok := in.Envelopes[id]
		if s.refused {
			if ok {
				return nil, fmt.Errorf("an envelope for attestation %s, which can not be trusted", id)
			}
			continue
		}
		if !ok {
			return nil, fmt.Errorf("no envelope for attestation %s", id)
		}
		seen++
		if !bytes.Equal(env.RequestId, s.request) {
			return nil, fmt.Errorf("envelope for attestation %s has the request id %q instead of %q", id, env.RequestId, s.request)
		}
		if len(env.Iv) != 12 || len(in.Iv) != 12 {
			return nil, fmt.Errorf("nonces of %d and %d bytes", len(env.Iv), len(in.Iv))
		}
		key, err := gcm(s.client).Open(nil, env.Iv, append(append([]byte{}, env.Data...), env.Mac...), s.request)
		if err != nil || len(key) != 32 {
			return nil, fmt.Errorf("envelope for attestation %s: %v (%d bytes)", id, err, len(key))
		}
		q, err := gcm(key).Open(nil, in.Iv, append(append([]byte{}, in.Data...), in.Mac...), nil)
		if err != nil {
			return nil, fmt.Errorf("query data: %v", err)
		}
		h := sha256.Sum256(q)
		if !bytes.Equal(h[:], in.Commitment) {
			return nil, fmt.Errorf("the commitment is not that of the query")
		}
		if len(q) != 32+8*in.AddressCount {
			return nil, fmt.Errorf("%d numbers, query data of %d bytes", in.AddressCount, len(q))
		}
		nums = nil
		for i := 32; i < len(q); i += 8 {
			nums = append(nums, int64(binary.BigEndian.Uint64(q[i:])))
		}
	}
	if seen != len(in.Envelopes) {
		return nil, fmt.Errorf("%d envelopes for %d attestations", len(in.Envelopes), seen)
	}
	return nums, nil
}
