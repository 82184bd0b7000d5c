//go:build go1.22

package textsecure

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/rootCa"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// The message socket over TLS: a server which has a certificate of the
// configured authority, of another one, of one the system trusts, of none, an
// expired one or one for another host.

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

func newAuthority() authority {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "authority"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k)
	ca, _ := x509.ParseCertificate(der)
	return authority{ca, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

var (
	wss33      = map[string]*httptest.Server{}
	wss33ours  authority
	wss33other authority
	wss33once  sync.Once
	wss33mu    sync.Mutex
	wss33seen  []string
)

func wssServer(by *authority, expired, host bool) *httptest.Server {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if expired {
		tmpl.NotAfter = time.Now().Add(-time.Hour)
	}
	if host {
		tmpl.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
	} else {
		tmpl.DNSNames = []string{"other.example"}
	}
	parent, pk := tmpl, k
	if by != nil {
		parent, pk = by.cert, by.key
	}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, parent, &k.PublicKey, pk)
	up := websocket.Upgrader{}
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		wss33mu.Lock()
		wss33seen = append(wss33seen, r.URL.String())
		wss33mu.Unlock()
		if conn, err := up.Upgrade(rw, r, nil); err == nil {
			conn.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
			conn.Close()
		}
	}))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}}
	s.Config.ErrorLog = stdlog.New(io.Discard, "", 0)
	s.StartTLS()
	return s
}

// TestC33Socket: the socket, whose address holds the password, is opened to
// no server but one of the configured authority.
func TestC33Socket(t *testing.T) {
	kit.Check(t, "a socket was opened over TLS", func(c *kit.Case) {
		wss33once.Do(func() {
			wss33ours, wss33other = newAuthority(), newAuthority()
			system := newAuthority()
			dir, err := os.MkdirTemp("", "verif-ca")
			if err != nil {
				return
			}
			defer os.RemoveAll(dir)
			f := filepath.Join(dir, "system.pem")
			os.WriteFile(f, system.pem, 0600)
			os.Setenv("SSL_CERT_FILE", f)
			os.Setenv("SSL_CERT_DIR", dir)
			x509.SystemCertPool() // read once
			wss33["right"] = wssServer(&wss33ours, false, true)
			wss33["of another authority"] = wssServer(&wss33other, false, true)
			wss33["of the system's authority"] = wssServer(&system, false, true)
			wss33["of no authority"] = wssServer(nil, false, true)
			wss33["expired"] = wssServer(&wss33ours, true, true)
			wss33["for another host"] = wssServer(&wss33ours, false, false)
		})
		if len(wss33) < 6 {
			c.Broken("no servers")
		}
		dir := c.Scratch()
		kind := kit.Pick(c.T, "certificate", []string{"right", "right", "of another authority", "of the system's authority", "of no authority", "expired", "for another host"})
		set := kit.Pick(c.T, "authority", []string{"file", "file", "file", "two in one file", "another's file", "none", "missing file", "not a file", "no certificate"})
		f := filepath.Join(dir, "ca.pem")
		b := wss33ours.pem
		switch set {
		case "two in one file":
			b = append(append([]byte{}, wss33other.pem...), wss33ours.pem...)
		case "another's file":
			b = wss33other.pem
		case "no certificate":
			b = kit.Bytes(50).Draw(c.T, "contents")
		}
		switch set {
		case "none":
			f = ""
		case "missing file":
		case "not a file":
			os.Mkdir(f, 0700)
		default:
			if err := os.WriteFile(f, b, 0600); err != nil {
				c.Broken("%v", err)
			}
		}
		if !c.Chance("set before", 1, 3) {
			rootCa.RootCA = nil
		}
		c.NoPanic("SetupCA", func() { rootCa.SetupCA(f) })
		config.ConfigFile = &config.Config{UUID: ourUUID, Server: wss33[kind].URL}
		registration.Registration.Password = "secret"
		wss33mu.Lock()
		wss33seen = nil
		wss33mu.Unlock()
		var err error
		c.NoPanic("StartListening", func() { err = StartListening() })
		wss33mu.Lock()
		seen := append([]string{}, wss33seen...)
		wss33mu.Unlock()
		c.Step("socket to a server with the certificate %q, authority %s: %d requests, %v", kind, set, len(seen), err)
		c.NonTrivial()
		c.Class(kind)
		right := kind == "right" && (set == "file" || set == "two in one file") || kind == "of another authority" && (set == "another's file" || set == "two in one file")
		if right && len(seen) != 1 {
			c.Bad("a socket to the right server makes %d requests: %v", len(seen), err)
		}
		if !right && len(seen) > 0 {
			c.Bad("a socket was opened to a server with a certificate %s while the authority is set to %s: %s", kind, set, seen[0])
		}
	})
}
