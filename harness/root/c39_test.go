//go:build go1.22

package textsecure

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// job39 is one start of the application, in a process of its own.
type job39 struct {
	Dir, Server, Token                         string
	Number, Code, Captcha, Name, Password, Way string
	Limit                                      uint64
	Sealed                                     bool
	NoDone, Hasty                              bool
	ConfigFails                                int
}

type cfg39 struct {
	UUID, Tel, Name, Server             string
	ProfileKey, Certificate, Credential []byte
}

func cfgOf(c *config.Config) cfg39 {
	return cfg39{c.UUID, c.Tel, c.Name, c.Server, c.ProfileKey, c.Certificate, c.ProfileKeyCredential}
}

// result39 is what the application has after its start.
type result39 struct {
	Err            string
	Mem, Disk      cfg39
	DiskErr        string
	RegID          uint32
	Pass           string
	SignalingKey   []byte
	StoredID       uint32
	IdentPub       []byte
	PreKeys        map[string]string
	SignedPreKeys  map[string]string
	KeyErr         string
	SealedErr      string
	SealedMessages []string
}

func init() {
	next := childHook
	childHook = func() {
		if os.Getenv("VERIF_CHILD_KIND") != "setup" {
			if next != nil {
				next()
			}
			return
		}
		j := &job39{}
		if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD")), j); err != nil {
			os.Exit(3)
		}
		start39(j)
	}
}

func start39(j *job39) {
	os.Chdir(j.Dir)
	SIGNAL_CDN_URL, SIGNAL_CDN2_URL, SIGNAL_SERVICE_URL, DIRECTORY_URL, STORAGE_URL = j.Server, j.Server, j.Server, j.Server, j.Server
	tell := func(what string) {
		resp, err := http.Get(j.Server + "/verif/" + what + "?token=" + j.Token)
		if err != nil {
			os.Exit(7)
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
	}
	cfgPath := filepath.Join(j.Dir, "config.yml")
	res := &result39{PreKeys: map[string]string{}, SignedPreKeys: map[string]string{}}
	reads := 0
	c := &Client{
		GetConfig: func() (*config.Config, error) {
			if reads++; reads == j.ConfigFails {
				return nil, errors.New("the configuration is gone")
			}
			return ReadConfig(cfgPath)
		},
		GetPhoneNumber: func() string {
			if !j.Hasty {
				tell("number")
			}
			return j.Number
		},
		GetVerificationCode: func() string { tell("code"); return j.Code },
		GetCaptchaToken:     func() string { return j.Captcha },
		GetUsername:         func() string { return j.Name },
		GetPin:              func() string { return "" },
		GetStoragePassword:  func() string { return j.Password },
		RegistrationDone:    func() { tell("done") },
		MessageHandler: func(m *Message) {
			res.SealedMessages = append(res.SealedMessages, m.SourceUUID()+" "+m.Message())
		},
	}
	if j.NoDone {
		c.RegistrationDone = nil
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	if j.Limit > 0 {
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Limit, Max: old.Max})
	}
	err := Setup(c)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err != nil {
		res.Err = "error: " + err.Error()
	} else {
		if j.Sealed {
			tell("helper")
			typ, ts := signalservice.Envelope_UNIDENTIFIED_SENDER, uint64(5)
			if err := handleReceivedMessage(&signalservice.Envelope{Type: &typ, Timestamp: &ts, ServerTimestamp: &ts, Content: []byte("sealed")}); err != nil {
				res.SealedErr = err.Error()
			}
		}
		res.Mem = cfgOf(config.ConfigFile)
		if d, err := ReadConfig(cfgPath); err != nil {
			res.DiskErr = err.Error()
		} else {
			res.Disk = cfgOf(d)
		}
		res.RegID, res.Pass, res.SignalingKey = registration.Registration.RegistrationID, registration.Registration.Password, registration.Registration.SignalingKey
		res.StoredID, _ = textSecureStore.GetLocalRegistrationID()
		if kp, err := textSecureStore.GetIdentityKeyPair(); err == nil && identityKey != nil && *kp.PublicKey.Key() == *identityKey.PublicKey.Key() {
			pub := ref.FromPriv(*kp.PrivateKey.Key()).Pub
			res.IdentPub = pub[:]
		}
		for _, f := range recordFiles(textSecureStore.preKeysDir) {
			id, err := filenameToID(filepath.Base(f))
			if err != nil {
				res.KeyErr = err.Error()
				continue
			}
			r, err := textSecureStore.LoadPreKey(id)
			if err != nil {
				res.KeyErr = err.Error()
				continue
			}
			var priv [32]byte
			copy(priv[:], r.Pkrs.PrivateKey)
			pub := ref.FromPriv(priv).Pub
			res.PreKeys[fmt.Sprint(id)] = b64key(pub)
		}
		for _, f := range recordFiles(textSecureStore.signedPreKeysDir) {
			id, err := filenameToID(filepath.Base(f))
			if err != nil {
				res.KeyErr = err.Error()
				continue
			}
			r, err := textSecureStore.LoadSignedPreKey(id)
			if err != nil {
				res.KeyErr = err.Error()
				continue
			}
			var priv [32]byte
			copy(priv[:], r.Spkrs.PrivateKey)
			res.SignedPreKeys[fmt.Sprint(id)] = b64key(ref.FromPriv(priv).Pub)
		}
	}
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(j.Dir, "out", "result.json"), b, 0600)
	os.Exit(0)
}

// verify39 is a registration the helper was asked to make.
type verify39 struct {
	Code   uint64 `json:"confirm_code"`
	Number string `json:"number"`
	Pass   string `json:"password"`
	Key    []byte `json:"signaling_key"`
	Name   string `json:"name"`
}

type keys39 struct {
	IdentityKey string `json:"identityKey"`
	PreKeys     []struct {
		ID  uint32 `json:"keyId"`
		Key string `json:"publicKey"`
	} `json:"preKeys"`
	LastResortKey *struct {
		ID  uint32 `json:"keyId"`
		Key string `json:"publicKey"`
	} `json:"lastResortKey"`
	SignedPreKey *struct {
		ID  uint32 `json:"keyId"`
		Key string `json:"publicKey"`
		Sig string `json:"signature"`
	} `json:"signedPreKey"`
}

// model39 is the server's and the helper's side of one account.
type model39 struct {
	mu                                 sync.Mutex
	uuid, number, captcha, name        string
	code                               uint64
	reg                                *verify39
	keys                               *keys39
	profile                            map[string]any
	certs                              [][]byte // handed out in this start
	certExpiry                         time.Duration
	events                             []string
	problems                           []string
	token                              string
	fault, kind                        string
	hit                                bool
	killAt                             int // the number of the event, -1 none
	killAfter                          bool
	killed                             bool
	pid                                int
	starts, verifies, keyPuts, certGet int
	credGet                            int
	lastStart                          map[string]any
	sealed                             []map[string]any
	helperReply                        any
}

func (m *model39) problem(f string, a ...any) { m.problems = append(m.problems, fmt.Sprintf(f, a...)) }

// event notes what happens; true: the client is gone.
func (m *model39) event(what string, after bool) bool {
	if !after {
		m.events = append(m.events, what)
	}
	if m.killAt >= 0 && len(m.events)-1 == m.killAt && after == m.killAfter && m.pid > 0 {
		syscall.Kill(m.pid, syscall.SIGKILL)
		m.killed = true
		return true
	}
	return m.killed
}

// certificate is a sender certificate that ends at the given time.
func certificate39(until time.Time) []byte {
	ms := make([]byte, 8)
	binary.LittleEndian.PutUint64(ms, uint64(until.UnixMilli()))
	inner := append([]byte{3<<3 | 1}, ms...)
	inner = append(inner, ref.Enc(ref.B(6, []byte(ourUUID)))...)
	return ref.Enc(ref.B(1, inner), ref.B(2, bytes.Repeat([]byte{7}, 64)))
}

func (m *model39) oops(at string, rw http.ResponseWriter) bool {
	if m.fault != at {
		return false
	}
	m.hit = true
	switch m.kind {
	case "dropped":
		drop(rw)
	case "garbage":
		rw.WriteHeader(200)
		rw.Write([]byte("<html>"))
	default:
		var n int
		fmt.Sscan(m.kind, &n)
		jsonReply(rw, n, map[string]any{"code": n})
	}
	return true
}

func (m *model39) serve(rw http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	p := r.URL.Path
	if strings.HasPrefix(p, "/verif/") {
		if r.URL.Query().Get("token") != m.token {
			rw.WriteHeader(403)
			return
		}
		what := p[len("/verif/"):]
		if what == "number" || what == "helper" {
			if theHelper.connected(20 * time.Second) {
				time.Sleep(200 * time.Millisecond) // until the client has noticed it
			}
		}
		m.mu.Lock()
		defer m.mu.Unlock()
		if m.event(what, false) || m.event(what, true) {
			drop(rw)
		}
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	name := r.Method + " " + p
	if strings.Count(p, "/") > 4 {
		name = r.Method + " credential"
	}
	if m.event(name, false) {
		drop(rw)
		return
	}
	defer func() {
		if m.event(name, true) {
			drop(rw)
		}
	}()
	user, pass, ok := r.BasicAuth()
	if _, other := r.Header["Unidentified-Access-Key"]; !(other && r.Method == "GET" && strings.HasPrefix(p, "/v1/profile/")) && (!ok || m.reg == nil || user != m.uuid || pass != m.reg.Pass) {
		m.problem("%s comes with the credentials %q %q", name, user, pass)
		rw.WriteHeader(401)
		return
	}
	switch {
	case r.Method == "PUT" && p == "/v2/keys/":
		m.keyPuts++
		if m.oops("keys", rw) {
			return
		}
		k := &keys39{}
		if err := json.Unmarshal(body, k); err != nil {
			m.problem("the keys are published as %q", body)
		}
		m.keys = k
		rw.WriteHeader(204)
	case r.Method == "PUT" && p == "/v1/profile/":
		if m.oops("publish", rw) {
			return
		}
		var in map[string]any
		if json.Unmarshal(body, &in) != nil {
			m.problem("the profile is published as %q", body)
		}
		m.profile = in
		rw.WriteHeader(200)
	case r.Method == "GET" && p == "/v1/certificate/delivery":
		m.certGet++
		if m.oops("certificate", rw) {
			return
		}
		c := certificate39(time.Now().Add(m.certExpiry).Add(time.Duration(len(m.certs)) * time.Second))
		m.certs = append(m.certs, c)
		jsonReply(rw, 200, map[string]any{"certificate": c})
	case r.Method == "GET" && strings.HasPrefix(p, "/v1/profile/"):
		f := strings.Split(p[len("/v1/profile/"):], "/")
		if f[0] != m.uuid || len(f) != 1 && len(f) != 3 {
			m.problem("a profile is asked for as %q", p)
			rw.WriteHeader(404)
			return
		}
		out := map[string]any{"uuid": m.uuid, "capabilities": map[string]any{"gv2": true}, "identityKey": ""}
		if m.keys != nil {
			out["identityKey"] = m.keys.IdentityKey
			if n := len(m.keys.IdentityKey) % 4; n > 0 {
				out["identityKey"] = m.keys.IdentityKey + strings.Repeat("=", 4-n)
			}
		}
		if m.profile != nil {
			out["name"] = m.profile["name"]
		}
		if len(f) == 1 {
			if m.oops("profile", rw) {
				return
			}
			jsonReply(rw, 200, out)
			return
		}
		m.credGet++
		if m.oops("credential", rw) {
			return
		}
		if m.profile != nil && m.profile["version"] == f[1] {
			s, _ := m.profile["commitment"].(string)
			comm, _ := base64.StdEncoding.DecodeString(s)
			req, err := hex.DecodeString(f[2])
			if err == nil {
				var resp []byte
				if resp, err = zkgroup.NewServerZkProfileOperations(zkSecret).IssueProfileKeyCredential(req, uuidBytes(m.uuid), comm); err == nil {
					out["credential"] = resp
				}
			}
			if err != nil {
				m.problem("the credential request: %v", err)
			}
		}
		jsonReply(rw, 200, out)
	default:
		m.problem("unexpected request %s", name)
		rw.WriteHeader(404)
	}
}

func (m *model39) helper(h helperMsg, reply func(any), end func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	switch h.Request.Type {
	case 1:
		if m.event("helper registration", false) {
			return
		}
		m.starts++
		m.lastStart = map[string]any{}
		json.Unmarshal(h.Request.Message, &m.lastStart)
		reply(map[string]any{"type": 2, "response": map[string]any{"type": 1, "message": map[string]any{"status": "ok"}}})
	case 2:
		if m.event("helper verification", false) {
			return
		}
		m.verifies++
		var raw struct {
			verify39
			Key []int `json:"signaling_key"`
		}
		if err := json.Unmarshal(h.Request.Message, &raw); err != nil {
			m.problem("the helper can not read %s: %v", h.Request.Message, err)
			return
		}
		v := raw.verify39
		for _, x := range raw.Key {
			v.Key = append(v.Key, byte(x))
		}
		if m.fault == "verification" {
			m.hit = true
			if m.kind == "dropped" {
				end()
			} else {
				reply(m.helperReply)
			}
			return
		}
		m.reg = &v
		var id []int
		for _, b := range uuidBytes(m.uuid) {
			id = append(id, int(b))
		}
		reply(map[string]any{"type": 2, "response": map[string]any{"type": 2, "message": map[string]any{"uuid": id, "storage_capable": false}}})
	case 3:
		in := map[string]any{}
		json.Unmarshal(h.Request.Message, &in)
		m.sealed = append(m.sealed, in)
		b, _ := proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Body: proto.String("sealed hello"), Timestamp: proto.Uint64(5)}})
		reply(map[string]any{"type": 2, "response": map[string]any{"type": 3, "message": map[string]any{"message": base64.StdEncoding.EncodeToString(b), "timestamp": 5,
			"sender_device": 1, "sender": map[string]any{"uuid": bobUUID}}}})
		return
	}
	m.event("", true)
}

var (
	srv39  *httptest.Server
	cur39  *model39
	mu39   sync.Mutex
	case39 int
)

func serve39() {
	if srv39 == nil {
		srv39 = httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			mu39.Lock()
			m := cur39
			mu39.Unlock()
			if m == nil {
				rw.WriteHeader(500)
				return
			}
			m.serve(rw, r)
		}))
	}
}

// canProve tells whether a credential belongs to the account and profile key.
func canProve(uuid string, key, cred []byte) error {
	pub, _ := zkSecret.PublicParams()
	gsp, err := zkgroup.NewGroupSecretParams(bytes.Repeat([]byte{9}, 32))
	if err != nil {
		return err
	}
	pres, err := pub.CreateProfileKeyCredentialPresentation(gsp, cred)
	if err != nil {
		return err
	}
	gpub, _ := gsp.PublicParams()
	if err := zkgroup.NewServerZkProfileOperations(zkSecret).VerifyProfileKeyCredentialPresentation(gpub, pres); err != nil {
		return err
	}
	x, err := zkgroup.NewProfileKeyCredentialPresentation(pres)
	if err != nil {
		return err
	}
	kc, err := x.ProfileKeyCiphertext()
	if err != nil {
		return err
	}
	uc, err := x.UUIDCiphertext()
	if err != nil {
		return err
	}
	ci := zkgroup.NewClientZkGroupCipher(gsp)
	u, err := ci.DecryptUUID(uc)
	if err != nil || !bytes.Equal(u, uuidBytes(uuid)) {
		return fmt.Errorf("for the account %x, %v", u, err)
	}
	k, err := ci.DecryptProfileKey(kc, u)
	if err != nil || !bytes.Equal(k, key) {
		return fmt.Errorf("for the profile key %x, %v", k, err)
	}
	return nil
}

func TestC39Setup(t *testing.T) {
	_, straceErr := exec.LookPath("strace")
	privErr := exec.Command("setpriv", "--bounding-set=-dac_override,-dac_read_search", "true").Run()
	serve39()
	if err := startHelper(); err != nil {
		t.Fatalf("VERIF-HARNESS: the helper's port is taken: %v", err)
	}
	kit.Check(t, "a start was interrupted or failed, or an account was started again", func(c *kit.Case) {
		zkInit(c)
		dir := c.Scratch()
		path, err := helperPath(dir)
		if err != nil {
			c.Broken("%v", err)
		}
		if err := os.Mkdir(filepath.Join(dir, "out"), 0700); err != nil {
			c.Broken("%v", err)
		}
		ub := kit.Fill(c.T, 16)
		ub[6], ub[8] = 0x40|ub[6]&15, 0x80|ub[8]&63
		h := hex.EncodeToString(ub)
		m := &model39{uuid: h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:], number: fmt.Sprintf("+49151%d", c.Int("number", 0, 99999999)),
			captcha: kit.Pick(c.T, "captcha", []string{"", "signalcaptcha://x", "é\"<"}), code: uint64(c.Int("code", 0, 999999)), killAt: -1,
			name: noZeroEnd(kit.Pick(c.T, "name", []string{"user", "é\"\n", "x", strings.Repeat("n", 53)}), 53)}
		mu39.Lock()
		cur39 = m
		mu39.Unlock()
		defer func() {
			mu39.Lock()
			cur39 = nil
			mu39.Unlock()
			theHelper.set(true, nil)
		}()
		cfg := &config.Config{Server: srv39.URL, StorageDir: filepath.Join(dir, "storage"), LogLevel: "error"}
		secret := ""
		switch c.Int("encryption", 0, 2) {
		case 0:
			cfg.UnencryptedStorage = true
		case 1:
			cfg.StoragePassword = "config password"
		default:
			secret = "application password"
		}
		if c.Chance("longer config", 1, 3) {
			cfg.UserAgent = strings.Repeat("agent ", 20)
		}
		cfgPath := filepath.Join(dir, "config.yml")
		if err := WriteConfig(cfgPath, cfg); err != nil {
			c.Bad("%v", err)
		}
		registered, maybe := false, false // the client has completed its registration, or may have
		var last *result39                // the last complete start
		certValid := false                // the kept certificate can be used
		var cert []byte
		certKnown := true
		for n, left := 0, c.Int("starts", 1, 3); left >= 0; n, left = n+1, left-1 {
			if n > 0 && !registered && !maybe && c.Chance("other entries", 1, 3) {
				m.mu.Lock()
				m.name = noZeroEnd(kit.Pick(c.T, "other name", []string{"another", "x\"", strings.Repeat("m", 40)}), 53)
				if c.Chance("other number", 1, 2) {
					m.number = fmt.Sprintf("+49152%d", c.Int("number", 0, 99999999))
				}
				m.mu.Unlock()
				c.Class("the user enters something else")
			}
			j := &job39{Dir: dir, Server: srv39.URL, Token: fmt.Sprintf("%d-%d", case39, n), Number: m.number, Code: fmt.Sprint(m.code), Captcha: m.captcha, Name: m.name, Password: secret}
			case39++
			m.mu.Lock()
			m.events, m.problems, m.certs, m.sealed, m.hit, m.fault, m.kind, m.killed, m.killAt, m.pid, m.token = nil, nil, nil, nil, false, "", "", false, -1, 0, j.Token
			m.starts, m.verifies, m.keyPuts, m.certGet, m.credGet, m.lastStart = 0, 0, 0, 0, 0, nil
			regBefore := m.reg
			m.certExpiry = 24 * time.Hour
			if c.Chance("short certificate", 1, 3) {
				m.certExpiry = -time.Hour
			}
			refuse, locked := false, ""
			var prefix []string
			what := "clean"
			if left > 0 {
				what = kit.Pick(c.T, "trouble", []string{"clean", "request", "request", "verification", "code", "killed", "killed", "full disk", "killed at a call", "failing call", "failing call", "no helper", "configuration", "hasty", "directory", "directory"})
			}
			if (what == "killed at a call" || what == "failing call") && straceErr != nil {
				what = "killed"
			}
			if what == "directory" && privErr != nil {
				what = "full disk"
			}
			if what == "no helper" && (registered || !c.Chance("no helper at all", 1, 3)) {
				what = "clean"
			}
			switch what {
			case "request":
				m.fault = kit.Pick(c.T, "at", []string{"keys", "keys", "publish", "profile", "certificate", "credential"})
				m.kind = kit.Pick(c.T, "kind", []string{"400", "400", "400", "dropped", "garbage"})
				if m.kind == "400" {
					m.kind = fmt.Sprint(kit.Refusal(c.T, "status", []int{400, 401, 403, 409, 413, 422, 429, 500, 503}))
				}
				if m.kind == "garbage" && (m.fault == "keys" || m.fault == "publish") {
					m.kind = "500" // nothing is read from these answers
				}
			case "verification":
				m.fault, m.kind = "verification", kit.Pick(c.T, "kind", []string{"dropped", "reply"})
				msg := kit.Pick(c.T, "reply", []string{`null`, `{}`, `"x"`, `{"uuid":null}`, `{"uuid":""}`, `{"uuid":[1,2,3]}`, `{"uuid":"AAAA"}`, `{"uuid":[]}`, `{"uuid":7}`, `[]`, `{"uuid":[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]}`})
				m.helperReply = []byte(`{"type":2,"response":{"type":2,"message":` + msg + `}}`)
			case "code":
				j.Code = kit.Pick(c.T, "bad code", []string{"", "12 34", "12-34", "abc", "-1", "4294967296", "1e3", "0x10", "99999999999999999999"})
			case "killed":
				m.killAt, m.killAfter = c.Int("event", 0, 12), c.Chance("after", 1, 2)
			case "full disk":
				j.Limit = uint64(c.Int("limit", 1, 900))
			case "killed at a call", "failing call":
				how := "signal=KILL"
				if what == "failing call" {
					how = "error=ENOSPC"
				}
				call := kit.Pick(c.T, "when", []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 50, 90, 95, 98, 100, 101, 102, 103, 104, 105, 106, 107, 108})
				prefix = []string{"strace", "-f", "-o", "/dev/null", "-e", "trace=/^rename.*$"}
				if f := kit.Pick(c.T, "file", []string{"", "", "config.yml", "storage/salt", "storage/identity/regid", "storage/identity/http_password", "storage/identity/http_signaling_key",
					"storage/identity/identity_key", "storage/identity/registering", "storage/prekeys/016777215"}); f != "" {
					prefix = append(prefix, "-P", filepath.Join(dir, f))
					if call = 1; f == "config.yml" {
						call = c.Int("save", 1, 5)
					}
				}
				prefix = append(prefix, "-e", fmt.Sprintf("inject=/^rename.*$:%s:when=%d", how, call))
			case "configuration":
				j.ConfigFails = c.Int("read", 1, 3)
			case "directory":
				d := filepath.Join(dir, kit.Pick(c.T, "directory", []string{"storage/signed_prekeys", "storage/signed_prekeys", "storage/prekeys", "storage/identity", "storage/sessions", "storage/tmp", "storage/groups", "storage/avatars", "storage", "."}))
				if os.MkdirAll(d, 0700) != nil || os.Chmod(d, 0500) != nil {
					c.Broken("can not make %s", d)
				}
				locked = d
				prefix = []string{"setpriv", "--bounding-set=-dac_override,-dac_read_search"}
			case "hasty":
				j.Hasty = true
			case "no helper":
				refuse = true
			}
			j.Sealed = what == "clean" && (!registered || c.Chance("sealed", 1, 4))
			j.NoDone = c.Chance("no handler for the end", 1, 8)
			m.mu.Unlock()
			theHelper.set(refuse, m.helper)

			// the start
			os.Remove(filepath.Join(dir, "out", "result.json"))
			b, _ := json.Marshal(j)
			args := append(prefix, os.Args[0])
			cmd := exec.Command(args[0], args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+string(b), "VERIF_CHILD_KIND=setup", "PATH="+path, "TEXTSECURE_LOGLEVEL=error", "http_proxy=", "HTTP_PROXY=")
			cmd.Dir = dir
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.WaitDelay = 2 * time.Second
			m.mu.Lock()
			if err := cmd.Start(); err != nil {
				c.Broken("%v", err)
			}
			m.pid = cmd.Process.Pid
			m.mu.Unlock()
			ended := make(chan error, 1)
			go func() { ended <- cmd.Wait() }()
			hung := false
			select {
			case err = <-ended:
			case <-time.After(100 * time.Second):
				hung = true
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			if hung {
				<-ended
			}
			if locked != "" {
				os.Chmod(locked, 0700)
			}
			text := out.String()
			if len(text) > 3000 {
				text = text[:1500] + " ... " + text[len(text)-1500:]
			}
			m.mu.Lock()
			events := append([]string{}, m.events...)
			m.mu.Unlock()
			c.Step("start %d: %s%s (%s %s, code %q, limit %d, event %d after %v, %v, configuration %d): %v", n+1, what, strings.TrimPrefix(locked, dir), m.fault, m.kind, j.Code, j.Limit, m.killAt, m.killAfter, prefix, j.ConfigFails, err)
			c.Step("  %s", strings.Join(events, ", "))
			if hung {
				c.Bad("the start does not end (%s)\n%s", events[max(0, len(events)-3):], text)
			}
			res := &result39{}
			rb, rerr := os.ReadFile(filepath.Join(dir, "out", "result.json"))
			if rerr == nil {
				rerr = json.Unmarshal(rb, res)
			}
			cut := m.killed || what == "killed at a call" && rerr != nil
			if cut && rerr != nil {
				c.Class("killed")
				c.NonTrivial()
			} else if err != nil && rerr != nil {
				var ee *exec.ExitError
				if errors.As(err, &ee) && ee.ExitCode() >= 3 && ee.ExitCode() <= 7 && ee.ExitCode() != 2 {
					c.Broken("the application: %v\n%s", err, text)
				}
				c.Bad("the start with %s ends the process: %v\n%s", what, err, text)
			} else if rerr != nil {
				c.Broken("%v\n%s", rerr, text)
			}
			m.mu.Lock()
			problems, certs := m.problems, m.certs
			certGet, starts, verifies, keyPuts := m.certGet, m.starts, m.verifies, m.keyPuts
			m.mu.Unlock()
			if len(problems) > 0 {
				c.Bad("%s", problems[0])
			}
			at := func(name string) int {
				for i, e := range events {
					if e == name {
						return i
					}
				}
				return -1
			}
			keysAccepted := keyPuts > 0 && !(m.fault == "keys" && m.hit)
			if d := at("done"); d >= 0 && !registered && !maybe {
				if k := at("PUT /v2/keys/"); k < 0 || k > d || m.fault == "keys" {
					c.Bad("the application is told that it is registered before it is: %s", strings.Join(events, ", "))
				}
			}
			if registered && (starts+verifies+keyPuts > 0 || at("number") >= 0) {
				c.Bad("a registered account is registered again: %s", strings.Join(events, ", "))
			}
			if starts > 1 || verifies > 1 || keyPuts > 1 {
				c.Bad("%d registrations, %d verifications and %d publications of keys in one start", starts, verifies, keyPuts)
			}
			if starts > 0 && (m.lastStart["number"] != m.number || m.lastStart["captcha"] != m.captcha || m.lastStart["use_voice"] != false) {
				c.Bad("the helper is asked to register %v", m.lastStart)
			}
			if verifies > 0 && m.reg != nil && m.reg != regBefore {
				r := m.reg
				if r.Code != m.code || r.Number != m.number || r.Name != m.name || r.Pass == "" || r.Pass != m.lastStart["password"] || len(r.Key) != 52 || r.Key[0] != 1 {
					c.Bad("the helper is asked to verify %+v, after %v", *r, m.lastStart)
				}
			}
			if rerr != nil { // killed
				if !registered {
					maybe = maybe || keysAccepted
				}
				certKnown = false
				continue
			}
			if n > 0 {
				c.NonTrivial()
			}
			if res.Err != "" {
				c.Step("  %s", res.Err)
				c.Class("failed start: " + what)
				c.NonTrivial()
				if what == "clean" {
					c.Bad("start %d fails: %s (%s)\n%s", n+1, res.Err, strings.Join(events, ", "), text)
				}
				if (what == "request" || what == "verification" || what == "configuration" && registered && j.ConfigFails > 1 || what == "hasty" && registered) && !m.hit {
					c.Bad("start %d fails although nothing went wrong: %s (%s)", n+1, res.Err, strings.Join(events, ", "))
				}
				if !registered && keysAccepted {
					// the registration was complete unless it could not be noted
					if what == "full disk" || what == "failing call" || what == "directory" {
						maybe = true
					} else {
						registered = true
					}
				}
				certKnown = false
				continue
			}
			// a complete start
			if m.hit && (m.fault == "keys" || m.fault == "verification" || m.fault == "certificate" || m.fault == "credential") ||
				!registered && !maybe && (what == "code" || what == "no helper") || j.ConfigFails == 1 {
				c.Bad("start %d succeeds although %s %s failed (%s): %s", n+1, what, m.fault, m.kind, strings.Join(events, ", "))
			}
			if m.reg == nil || m.keys == nil {
				c.Bad("a start succeeds and nothing is registered: %s", strings.Join(events, ", "))
			}
			if !registered && !maybe && (starts != 1 || verifies != 1 || keyPuts != 1) {
				c.Bad("a start succeeds with %d registrations, %d verifications and %d publications of keys", starts, verifies, keyPuts)
			}
			if !j.NoDone && at("done") < 0 {
				c.Bad("the application is not told that it is registered")
			}
			if keyPuts > 0 {
				last = nil // another identity
			}
			registered = true
			if res.Pass != m.reg.Pass || !bytes.Equal(res.SignalingKey, m.reg.Key) {
				c.Bad("the account is registered with the password %q and the signaling key %x, kept are %q and %x", m.reg.Pass, m.reg.Key, res.Pass, res.SignalingKey)
			}
			if res.RegID != res.StoredID || res.RegID > 0x3fff {
				c.Bad("registration id %d, stored %d", res.RegID, res.StoredID)
			}
			if res.KeyErr != "" || res.IdentPub == nil {
				c.Bad("the keys can not be read: %s", res.KeyErr)
			}
			var ip [32]byte
			copy(ip[:], res.IdentPub)
			if m.keys.IdentityKey != b64key(ip) {
				c.Bad("the published identity key is %s, the kept one %s", m.keys.IdentityKey, b64key(ip))
			}
			if k := m.keys; keyPuts > 0 {
				seen := map[uint32]bool{}
				if k.LastResortKey == nil || k.SignedPreKey == nil || len(k.PreKeys) < 100 {
					c.Bad("the published keys are incomplete: %d prekeys", len(k.PreKeys))
				}
				for _, pk := range append(k.PreKeys, *k.LastResortKey) {
					if seen[pk.ID] || res.PreKeys[fmt.Sprint(pk.ID)] != pk.Key {
						c.Bad("prekey %d is published as %s, kept is %s", pk.ID, pk.Key, res.PreKeys[fmt.Sprint(pk.ID)])
					}
					seen[pk.ID] = true
				}
				if res.SignedPreKeys[fmt.Sprint(k.SignedPreKey.ID)] != k.SignedPreKey.Key {
					c.Bad("signed prekey %d is published as %s, kept is %s", k.SignedPreKey.ID, k.SignedPreKey.Key, res.SignedPreKeys[fmt.Sprint(k.SignedPreKey.ID)])
				}
			}
			if res.DiskErr != "" || fmt.Sprint(res.Mem) != fmt.Sprint(res.Disk) {
				c.Bad("after a start with %s the configuration is %+v, on disk %+v %s", what, res.Mem, res.Disk, res.DiskErr)
			}
			if g := res.Mem; g.UUID != m.uuid || g.Tel != m.number || g.Name != m.name || len(g.ProfileKey) != 32 || g.Server != srv39.URL {
				c.Bad("the account is %s %s %q, configured is %+v", m.uuid, m.number, m.name, g)
			}
			if last != nil {
				if !bytes.Equal(last.Mem.ProfileKey, res.Mem.ProfileKey) {
					c.Bad("another start changes the profile key from %x to %x", last.Mem.ProfileKey, res.Mem.ProfileKey)
				}
				if last.RegID != res.RegID || !bytes.Equal(last.IdentPub, res.IdentPub) {
					c.Bad("another start changes the identity")
				}
			}
			if err := canProve(m.uuid, res.Mem.ProfileKey, res.Mem.Credential); err != nil {
				c.Bad("the kept profile key credential is not that of the profile key %x: %v", res.Mem.ProfileKey, err)
			}
			if m.fault != "publish" {
				v, _ := zkgroup.ProfileKeyGetProfileKeyVersion(res.Mem.ProfileKey, ub)
				comm, _ := zkgroup.ProfileKeyGetCommitment(res.Mem.ProfileKey, ub)
				if m.profile["version"] != string(v[:]) || m.profile["commitment"] != base64.StdEncoding.EncodeToString(comm) {
					c.Bad("the profile is published under the version %v, that of the kept profile key is %s", m.profile["version"], v)
				}
				s, _ := m.profile["name"].(string)
				x, _ := base64.StdEncoding.DecodeString(s)
				if len(x) < 12 {
					c.Bad("the name is published as %q", s)
				}
				pt, err := gcm(res.Mem.ProfileKey).Open(nil, x[:12], x[12:], nil)
				if err != nil || string(bytes.TrimRight(pt, "\x00")) != m.name {
					c.Bad("the name %q is published as %q, %v", m.name, pt, err)
				}
			}
			switch {
			case certKnown && certValid:
				if certGet > 0 || !bytes.Equal(res.Mem.Certificate, cert) {
					c.Bad("a usable sender certificate is requested again")
				}
			case certKnown && certGet != 1:
				c.Bad("%d requests for a new sender certificate", certGet)
			}
			if len(certs) > 0 {
				if !bytes.Equal(res.Mem.Certificate, certs[len(certs)-1]) {
					c.Bad("the kept sender certificate is %x, the server's %x", res.Mem.Certificate, certs[len(certs)-1])
				}
				cert, certValid = res.Mem.Certificate, m.certExpiry > 0
			} else if !certKnown {
				cert = res.Mem.Certificate
				certValid = true // otherwise a new one would have been asked for
			}
			certKnown = true
			if j.Sealed {
				if res.SealedErr != "" || len(m.sealed) != 1 || fmt.Sprint(res.SealedMessages) != "["+bobUUID+" sealed hello]" {
					c.Bad("after the start a sealed message leads to the error %q and the messages %q (asked the helper %d times)", res.SealedErr, res.SealedMessages, len(m.sealed))
				}
				if m.sealed[0]["local_uuid"] != m.uuid {
					c.Bad("the helper is asked to decrypt for the account %q, it is %s", m.sealed[0]["local_uuid"], m.uuid)
				}
				c.Class("sealed message")
			}
			last = res
		}
	})
}
