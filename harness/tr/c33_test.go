//go:build go1.22

package transport

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/rootCa"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"pgregory.net/rapid"
)

// a request as a server saw it
type seen33 struct {
	server int
	method string
	uri    string
	header http.Header
	body   []byte
}

// what the model server does with the next request
type plan33 struct {
	status  int
	header  http.Header
	body    []byte
	chunked bool
	fault   string // "", "drop", "cut"
}

var (
	mu33      sync.Mutex
	got33     []seen33
	next33    plan33
	servers33 []*httptest.Server
	once33    sync.Once
)

func serve33(i int) http.HandlerFunc {
	return func(rw http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		mu33.Lock()
		got33 = append(got33, seen33{i, r.Method, r.RequestURI, r.Header.Clone(), body})
		p := next33
		mu33.Unlock()
		if p.fault == "drop" {
			if h, _, err := rw.(http.Hijacker).Hijack(); err == nil {
				h.Close()
			}
			return
		}
		for k, vs := range p.header {
			rw.Header()[k] = vs
		}
		if p.status != 204 && p.status != 304 && !p.chunked {
			n := len(p.body)
			if p.fault == "cut" {
				n += 10
			}
			rw.Header().Set("Content-Length", strconv.Itoa(n))
		}
		rw.WriteHeader(p.status)
		if p.status != 204 && p.status != 304 {
			rw.Write(p.body)
		}
		if p.fault == "cut" {
			if f, ok := rw.(http.Flusher); ok {
				f.Flush()
			}
			if h, _, err := rw.(http.Hijacker).Hijack(); err == nil {
				h.Close()
			}
		}
	}
}

func start33() {
	once33.Do(func() {
		for i := 0; i < 5; i++ {
			servers33 = append(servers33, httptest.NewServer(serve33(i)))
		}
	})
}

func take33() []seen33 {
	mu33.Lock()
	defer mu33.Unlock()
	g := got33
	got33 = nil
	return g
}

func ascii33(t *rapid.T, name string, min, max int) string {
	return rapid.StringMatching(fmt.Sprintf("[ -9;-~]{%d,%d}", min, max)).Draw(t, name)
}

func basic33(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}

// slots of the five servers
var slots33 = []string{"main", "cdn", "directory", "storage", "service"}

func TestC33Requests(t *testing.T) {
	kit.Check(t, "the request came to the model server, or was reported as failed under a generated fault", func(c *kit.Case) {
		start33()
		rootCa.SetupCA("")
		type account struct{ user, pass, agent string }
		var accs []account
		for i, s := range slots33 {
			a := account{kit.Pick(c.T, s+" user", []string{"00000000-0000-4000-8000-0000000000aa", "+4915112345678.2", "u"}), "", ""}
			a.pass = kit.Pick(c.T, s+" kind of password", []string{"", "a:b", "pass word", "ünï", ascii33(c.T, s+" password", 0, 24)})
			a.agent = kit.Pick(c.T, s+" agent", []string{"", "agent " + strconv.Itoa(i), "Axolotl/1.5 (linux; x86)"})
			proxy := kit.Pick(c.T, s+" proxy", []string{"", "http://127.0.0.1:1/", "socks5://proxy"})
			[]func(a, b, c, d, e string){SetupTransporter, SetupCDNTransporter, SetupDirectoryTransporter, SetupStorageTransporter, SetupServiceTransporter}[i](servers33[i].URL, a.user, a.pass, a.agent, proxy)
			accs = append(accs, a)
		}
		take33()
		for n := c.Int("requests", 1, 5); n > 0; n-- {
			i := c.Int("server", 0, 4)
			var ht *httpTransporter
			switch i {
			case 0:
				ht = Transport.(*httpTransporter)
			case 1:
				ht = CdnTransport
			case 2:
				ht = DirectoryTransport
			case 3:
				ht = StorageTransport
			case 4:
				ht = ServiceTransport
			}
			if c.Chance("duplicate", 1, 8) {
				ht = ht.Duplicate()
			}
			a := accs[i]
			path := kit.Pick(c.T, "path", []string{"/", "/v1/messages/" + a.user, "/v2/keys/x/*", "/v1/a%2Fb%20c?x=y&z=%3F", "/v1/groups/?p=a+b", "/attachments/12345", "/v1/profile//x", "/v1/../x"})
			body := kit.Big(300).Draw(c.T, "body")
			if c.Chance("big body", 1, 10) {
				body = bytes.Repeat([]byte{byte(n), 0, 255}, c.Int("size", 1000, 40000))
			}
			ct := kit.Pick(c.T, "content type", []string{"application/json", "application/x-protobuf", "text/plain; charset=utf-8", "multipart/form-data; boundary=x"})
			auth := kit.Pick(c.T, "auth", []string{basic33("other", "secret"), "Basic abc", "Bearer x.y.z"})
			cookies := kit.Pick(c.T, "cookies", []string{"a=b", "a=b; c=d", "sid=0123"})
			key := kit.Fill(c.T, kit.Pick(c.T, "key size", []int{16, 16, 16, 1, 32}))
			headers := map[string]string{}
			for _, h := range []string{"X-Goog-Resumable", "X-Custom", "Range"} {
				if c.Chance(h, 1, 3) {
					headers[h] = kit.Pick(c.T, "value", []string{"start", "", "bytes 0-4/5"})
				}
			}
			p := plan33{header: http.Header{}}
			p.status = kit.Pick(c.T, "status", []int{200, 200, 200, 201, 202, 204, 206, 299, 300, 304, 306, 400, 401, 402, 403, 404, 409, 410, 411, 413, 423, 428, 429, 499, 500, 502, 503, 508, 599})
			p.body = kit.Big(400).Draw(c.T, "answer")
			if c.Chance("big answer", 1, 10) {
				p.body = bytes.Repeat([]byte("answer "), c.Int("size", 500, 20000))
			}
			p.chunked = c.Chance("chunked", 1, 3)
			p.header.Set("X-Answer", "x"+strconv.Itoa(n))
			setCookie := ""
			if c.Chance("sets a cookie", 1, 2) {
				setCookie = kit.Pick(c.T, "cookie", []string{"session=1; Path=/", "k=v"})
				p.header.Set("Set-Cookie", setCookie)
			}
			p.header.Set("Content-Type", "application/octet-stream")
			if c.Chance("fault", 1, 5) {
				p.fault = kit.Pick(c.T, "kind", []string{"drop", "cut"})
				if p.status == 204 || p.status == 304 {
					p.fault = "drop"
				}
				p.chunked = false
			}
			mu33.Lock()
			next33 = p
			mu33.Unlock()

			want := seen33{server: i, uri: path, header: http.Header{}}
			if a.agent != "" {
				want.header.Set("X-Signal-Agent", a.agent)
			}
			own := basic33(a.user, a.pass)
			cookieBack, headerBack := false, false
			var do func() (*response, error)
			set := func(method string, withBody bool, authorization, contentType string) {
				want.method = method
				if withBody {
					want.body = body
				}
				if authorization != "" {
					want.header.Set("Authorization", authorization)
				}
				if contentType != "" {
					want.header.Set("Content-Type", contentType)
				}
			}
			op := kit.Pick(c.T, "op", []string{"Get", "GetWithAuth", "Del", "PostWithHeaders", "Put", "PutWithAuth", "GetUnidentified", "PutUnidentified", "PutWithAuthCookies", "PutJSON", "PutJSONWithAuth", "PutJSONWithAuthCookies", "PutJSONUnidentified", "PutBinary", "PatchWithAuth"})
			switch op {
			case "Get":
				set("GET", false, own, "")
				do = func() (*response, error) { return ht.Get(path) }
			case "GetWithAuth":
				set("GET", false, auth, "")
				do = func() (*response, error) { return ht.GetWithAuth(path, auth) }
			case "Del":
				set("DELETE", false, own, "")
				do = func() (*response, error) { return ht.Del(path) }
			case "PostWithHeaders":
				set("POST", true, own, ct)
				headerBack = true
				for k, v := range headers {
					want.header.Set(k, v)
				}
				do = func() (*response, error) { return ht.PostWithHeaders(path, body, ct, headers) }
			case "Put":
				set("PUT", true, own, ct)
				do = func() (*response, error) { return ht.Put(path, body, ct) }
			case "PutWithAuth":
				set("PUT", true, auth, ct)
				cookieBack = true
				do = func() (*response, error) { return ht.PutWithAuth(path, body, ct, auth) }
			case "GetUnidentified":
				set("GET", false, "", "")
				want.header.Set("Unidentified-Access-Key", "")
				do = func() (*response, error) { return ht.GetWithUnidentifiedAccessKey(path, key) }
			case "PutUnidentified":
				set("PUT", true, "", ct)
				want.header.Set("Unidentified-Access-Key", "")
				do = func() (*response, error) { return ht.PutWithUnidentifiedSender(path, body, ct, key) }
			case "PutWithAuthCookies":
				set("PUT", true, auth, ct)
				want.header.Set("Cookie", cookies)
				do = func() (*response, error) { return ht.PutWithAuthCookies(path, body, ct, auth, cookies) }
			case "PutJSON":
				set("PUT", true, own, "application/json")
				do = func() (*response, error) { return ht.PutJSON(path, body) }
			case "PutJSONWithAuth":
				set("PUT", true, auth, "application/json")
				cookieBack = true
				do = func() (*response, error) { return ht.PutJSONWithAuth(path, body, auth) }
			case "PutJSONWithAuthCookies":
				set("PUT", true, auth, "application/json")
				want.header.Set("Cookie", cookies)
				do = func() (*response, error) { return ht.PutJSONWithAuthCookies(path, body, auth, cookies) }
			case "PutJSONUnidentified":
				set("PUT", true, "", "application/json")
				want.header.Set("Unidentified-Access-Key", "")
				do = func() (*response, error) { return ht.PutJSONWithUnidentifiedSender(path, body, key) }
			case "PutBinary":
				set("PUT", true, own, "application/octet-stream")
				do = func() (*response, error) { return ht.PutBinary(path, body) }
			case "PatchWithAuth":
				set("PATCH", true, auth, ct)
				do = func() (*response, error) { return ht.PatchWithAuth(path, body, ct, auth) }
			}
			before := append([]byte{}, body...)
			var r *response
			var err error
			c.NoPanic(op, func() { r, err = do() })
			c.Step("%s %s at the %s server (agent %q, %d bytes); answer %d, %d bytes, fault %q: %v", op, path, slots33[i], a.agent, len(want.body), p.status, len(p.body), p.fault, err)
			if !bytes.Equal(before, body) {
				c.Bad("%s changed the caller's data", op)
			}
			reqs := take33()
			c.NonTrivial()
			c.Class(op)
			if len(reqs) != 1 && !(p.fault == "drop" && (want.method == "GET" || want.method == "DELETE")) {
				c.Bad("%s made %d requests", op, len(reqs))
			}
			for _, q := range reqs {
				if q.server != i || q.method != want.method || q.uri != want.uri || !bytes.Equal(q.body, want.body) {
					c.Bad("%s %s at %s with %d bytes arrived as %s %s at %s with %d bytes", op, path, slots33[i], len(want.body), q.method, q.uri, slots33[q.server], len(q.body))
				}
				compare33(c, op, want.header, q.header, key)
			}
			if p.fault == "drop" {
				if err == nil || r != nil {
					c.Bad("%s with a connection that was closed before the answer: %v, error %v", op, r, err)
				}
				continue
			}
			if err != nil || r == nil {
				c.Bad("%s answered with %d: %v", op, p.status, err)
			}
			if r.Status != p.status {
				c.Bad("%s answered with %d shows %d", op, p.status, r.Status)
			}
			if (p.status/100 == 2) == r.IsError() {
				c.Bad("the answer %d is an error: %v", p.status, r.IsError())
			}
			if !strings.Contains(error(r).Error(), strconv.Itoa(p.status)) {
				c.Bad("the error for %d is %q", p.status, r.Error())
			}
			if r.Body == nil {
				c.Bad("%s returned no body", op)
			}
			b, e := io.ReadAll(r.Body)
			r.Body.Close()
			exp := p.body
			if p.status == 204 || p.status == 304 {
				exp = nil
			}
			if p.fault == "cut" {
				if e == nil {
					c.Bad("%s: an answer cut off after %d bytes reads as complete", op, len(b))
				}
			} else if e != nil || !bytes.Equal(b, exp) {
				c.Bad("%s: the answer of %d bytes reads as %d bytes: %v", op, len(exp), len(b), e)
			}
			if cookieBack && r.Cookies != setCookie {
				c.Bad("%s: the cookie %q is %q", op, setCookie, r.Cookies)
			}
			if headerBack && (r.Header == nil || r.Header.Get("X-Answer") != p.header.Get("X-Answer")) {
				c.Bad("%s: the headers of the answer are lost", op)
			}
		}
	})
}

func compare33(c *kit.Case, op string, want, got http.Header, key []byte) {
	for _, h := range []string{"X-Signal-Agent", "Authorization", "Content-Type", "Cookie", "X-Goog-Resumable", "X-Custom", "Range", "Unidentified-Access-Key", "Proxy-Authorization"} {
		w, g := want[h], got[h]
		switch {
		case h == "Unidentified-Access-Key" && len(w) == 1:
			if len(g) != 1 {
				c.Bad("%s: %d access keys", op, len(g))
			}
			k, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(g[0], "="))
			if err != nil || !bytes.Equal(k, key) {
				c.Bad("%s: the access key %x is sent as %q", op, key, g[0])
			}
		case h == "Content-Type" && len(w) == 1 && w[0] == "application/json":
			if len(g) != 1 || strings.TrimSpace(strings.SplitN(g[0], ";", 2)[0]) != w[0] {
				c.Bad("%s: the content type is %q", op, g)
			}
		default:
			if len(w) != len(g) || len(w) > 0 && !reflect.DeepEqual(w, g) {
				c.Bad("%s: the header %s is %q, not %q", op, h, g, w)
			}
		}
	}
}

// TestC33Answers: what the account asks for with one request.
func TestC33Answers(t *testing.T) {
	kit.Check(t, "the model server answered the request for credentials or a certificate", func(c *kit.Case) {
		start33()
		rootCa.SetupCA("")
		SetupTransporter(servers33[0].URL, "user", "pass", "", "")
		take33()
		// credentials in a header
		u, pw := ascii33(c.T, "name", 0, 40), ascii33(c.T, "secret", 0, 40)
		if got, want := (&AuthCredentials{u, pw}).AsBasic(), basic33(u, pw); got != want {
			c.Bad("the credentials %q and %q are sent as %q", u, pw, got)
		}
		cert := kit.Bytes(500).Draw(c.T, "certificate")
		certs := c.Chance("certificate", 1, 2)
		var m map[string]any
		if certs {
			m = map[string]any{"certificate": cert}
		} else {
			m = map[string]any{"username": u, "password": pw}
		}
		p := plan33{status: 200, header: http.Header{}}
		p.body, _ = json.Marshal(m)
		kind := kit.Pick(c.T, "answer", []string{"right", "right", "status", "drop", "cut", "half", "garbage", "type"})
		switch kind {
		case "status":
			p.status = kit.Pick(c.T, "status", []int{400, 401, 403, 404, 413, 429, 500, 503})
		case "drop", "cut":
			p.fault = kind
			if kind == "cut" {
				p.body = p.body[:c.Int("length", 0, len(p.body)-1)]
			}
		case "half":
			p.body = p.body[:c.Int("length", 0, len(p.body)-1)]
		case "garbage":
			p.body = kit.Pick(c.T, "garbage", [][]byte{{}, []byte("<html>"), []byte("OK"), {0}, []byte(`"x`)})
		case "type":
			p.body = []byte(kit.Pick(c.T, "type", []string{`[]`, `"x"`, `7`, `{"certificate":7,"username":7}`, `{"certificate":"!!","password":{}}`}))
		}
		mu33.Lock()
		next33 = p
		mu33.Unlock()
		path := ""
		var err error
		var gotCert *SenderCertificate
		var gotCred *AuthCredentials
		wantPath := "/v1/certificate/delivery"
		c.NoPanic("asking for credentials", func() {
			if certs {
				gotCert, err = GetSenderCertificate()
			} else {
				path = kit.Pick(c.T, "path", []string{"", "/v1/directory/auth", "/v1/backup/auth"})
				wantPath = path
				if path == "" {
					wantPath = "/v1/directory/auth"
				}
				gotCred, err = GetCredendtails(path)
			}
		})
		c.Step("certificate %v %q: answer %s %d %q: %v", certs, path, kind, p.status, p.body, err)
		c.NonTrivial()
		c.Class(kind)
		for _, q := range take33() {
			if q.method != "GET" || q.uri != wantPath || q.header.Get("Authorization") != basic33("user", "pass") {
				c.Bad("asked with %s %s, %q", q.method, q.uri, q.header.Get("Authorization"))
			}
		}
		if kind != "right" {
			if err == nil {
				c.Bad("the answer %s %d %q is taken for a success", kind, p.status, p.body)
			}
			return
		}
		if err != nil {
			c.Bad("the answer %q: %v", p.body, err)
		}
		if certs && !bytes.Equal(gotCert.Certificate, cert) {
			c.Bad("the certificate %x is read as %x", cert, gotCert.Certificate)
		}
		if !certs && (gotCred.Username != u || gotCred.Password != pw) {
			c.Bad("the credentials %q, %q are read as %q, %q", u, pw, gotCred.Username, gotCred.Password)
		}
	})
}

// An authority and a server certificate for the loopback address.
func authority33() (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "authority"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k)
	ca, _ := x509.ParseCertificate(der)
	return ca, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func server33(ca *x509.Certificate, key *ecdsa.PrivateKey, expired bool, host bool) *httptest.Server {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if expired {
		tmpl.NotAfter = time.Now().Add(-time.Hour)
	}
	if host {
		tmpl.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
	} else {
		tmpl.DNSNames = []string{"other.example"}
	}
	parent, pk := ca, key
	if parent == nil {
		parent, pk = tmpl, k
	}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, parent, &k.PublicKey, pk)
	s := httptest.NewUnstartedServer(serve33(9))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.StartTLS()
	return s
}

var (
	tls33     = map[string]*httptest.Server{}
	tlsPEM33  []byte
	tlsOnce33 sync.Once
)

// TestC33Certificates: the server has to prove who it is.
func TestC33Certificates(t *testing.T) {
	kit.Check(t, "a request was made over TLS", func(c *kit.Case) {
		start33()
		tlsOnce33.Do(func() {
			ca, k, p := authority33()
			tlsPEM33 = p
			other, ok, _ := authority33()
			tls33["right"] = server33(ca, k, false, true)
			tls33["another authority"] = server33(other, ok, false, true)
			tls33["no authority"] = server33(nil, nil, false, true)
			tls33["expired"] = server33(ca, k, true, true)
			tls33["another host"] = server33(ca, k, false, false)
		})
		f := filepath.Join(c.Scratch(), "ca.pem")
		if err := os.WriteFile(f, tlsPEM33, 0600); err != nil {
			c.Broken("%v", err)
		}
		rootCa.SetupCA(f)
		kind := kit.Pick(c.T, "certificate", []string{"right", "another authority", "no authority", "expired", "another host"})
		mu33.Lock()
		next33 = plan33{status: 200, header: http.Header{}, body: []byte("answer")}
		mu33.Unlock()
		i := c.Int("server", 0, 1)
		var ht *httpTransporter
		if i == 0 {
			SetupTransporter(tls33[kind].URL, "user", "pass", "", "")
			ht = Transport.(*httpTransporter)
		} else {
			SetupCDNTransporter(tls33[kind].URL, "user", "pass", "", "")
			ht = CdnTransport
		}
		defer ht.client.CloseIdleConnections()
		take33()
		var err error
		put := c.Chance("put", 1, 2)
		c.NoPanic("a request over TLS", func() {
			if put {
				_, err = ht.PutJSON("/v1/x", []byte("{}"))
			} else {
				_, err = ht.Get("/v1/x")
			}
		})
		reqs := take33()
		c.Step("server %d with the certificate %q: %v, %d requests", i, kind, err, len(reqs))
		c.NonTrivial()
		c.Class(kind)
		if kind == "right" {
			if err != nil || len(reqs) != 1 {
				c.Bad("a request to the right server: %d requests, %v", len(reqs), err)
			}
			return
		}
		if err == nil || len(reqs) > 0 {
			if kit.Known("tls-not-verified") {
				c.Excluded("tls-not-verified")
				return
			}
			c.Bad("a request with the account's credentials was made to a server with a certificate of %s", kind)
		}
	})
}

var _ = errors.New
var _ = fmt.Sprint
