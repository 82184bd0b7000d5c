//go:build go1.22

package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/signal-golang/textsecure/axolotl"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
	"github.com/signal-golang/textsecure/transport"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// The world of one case: our account (the code under test), a model of the
// server on the loopback interface, and peers that use the reference
// implementation of the protocol.

const (
	ourUUID = "00000000-0000-4000-8000-0000000000aa"
	ourTel  = "+31600000001"
	ourPass = "the-password"
	ourUA   = "verif agent"
)

type peerMsg struct {
	dev     uint32
	pt      []byte
	content *signalservice.Content
}

// device is a device of a peer (or another device of our own account).
type device struct {
	id, reg  uint32
	kp       ref.KeyPair
	spk      ref.KeyPair
	spkID    uint32
	opks     map[uint32]ref.KeyPair
	nextOPK  uint32
	noOPK    bool
	sessions []*ref.Session
	got      [][]byte // decrypted plaintexts (with padding), in order
}

func newDevice(id, reg uint32, kp ref.KeyPair) *device {
	return &device{id: id, reg: reg, kp: kp, spk: ref.NewKeyPair(), spkID: 1000 + reg%1000, opks: map[uint32]ref.KeyPair{}, nextOPK: 1}
}

func (d *device) sig() [64]byte {
	var rnd [64]byte
	rnd[0] = byte(d.reg)
	return ref.Sign(d.kp.Priv, append([]byte{5}, d.spk.Pub[:]...), rnd)
}

// bundle is what the server hands out (it uses up a one-time prekey).
func (d *device) item() map[string]any {
	sig := d.sig()
	it := map[string]any{
		"deviceId":       d.id,
		"registrationId": d.reg,
		"signedPreKey": map[string]any{"keyId": d.spkID, "publicKey": b64key(d.spk.Pub),
			"signature": base64.RawStdEncoding.EncodeToString(sig[:])},
	}
	if !d.noOPK {
		id := d.nextOPK
		d.nextOPK++
		k := ref.NewKeyPair()
		d.opks[id] = k
		it["preKey"] = map[string]any{"keyId": id, "publicKey": b64key(k.Pub)}
	}
	return it
}

func b64key(k [32]byte) string {
	return base64.RawStdEncoding.EncodeToString(append([]byte{5}, k[:]...))
}

// receive decrypts a message of the code under test.
func (d *device) receive(typ int32, b []byte) ([]byte, error) {
	var wm *ref.WM
	switch typ {
	case 3:
		p, err := ref.ParsePKWM(b)
		if err != nil {
			return nil, err
		}
		var s *ref.Session
		for _, o := range d.sessions {
			if o.AliceBase == p.Base {
				s = o
			}
		}
		if s == nil {
			if p.SPKID != d.spkID {
				return nil, fmt.Errorf("unknown signed prekey %d", p.SPKID)
			}
			var opk *ref.KeyPair
			if p.HasPreKey {
				k, ok := d.opks[p.PreKeyID]
				if !ok {
					return nil, fmt.Errorf("unknown prekey %d", p.PreKeyID)
				}
				opk = &k
			}
			s = ref.Respond(d.kp, d.reg, d.spk, opk, p)
			pt, err := s.Decrypt(p.Msg)
			if err != nil {
				return nil, err
			}
			if p.HasPreKey {
				delete(d.opks, p.PreKeyID)
			}
			d.sessions = append([]*ref.Session{s}, d.sessions...)
			return pt, nil
		}
		wm = p.Msg
		return s.Decrypt(wm)
	case 1:
		wm, err := ref.ParseWM(b)
		if err != nil {
			return nil, err
		}
		for i, s := range d.sessions {
			if pt, err := s.Decrypt(wm); err == nil {
				d.sessions = append([]*ref.Session{s}, append(append([]*ref.Session{}, d.sessions[:i]...), d.sessions[i+1:]...)...)
				return pt, nil
			}
		}
		return nil, errors.New("no session decrypts the message")
	}
	return nil, fmt.Errorf("message type %d", typ)
}

// send encrypts for our account's device 1, with the newest session or a new one.
func (d *device) send(b ref.Bundle, pt []byte) (signalservice.Envelope_Type, []byte) {
	if len(d.sessions) == 0 {
		s, err := ref.Initiate(d.kp, d.reg, b)
		if err != nil {
			panic(err)
		}
		d.sessions = []*ref.Session{s}
	}
	m, initial := d.sessions[0].Encrypt(pt)
	if initial {
		return signalservice.Envelope_PREKEY_BUNDLE, m
	}
	return signalservice.Envelope_CIPHERTEXT, m
}

type peer struct {
	uuid string
	kp   ref.KeyPair
	devs map[uint32]*device
}

func newPeer(uuid string, ids ...uint32) *peer {
	p := &peer{uuid: uuid, kp: ref.NewKeyPair(), devs: map[uint32]*device{}}
	for _, id := range ids {
		p.devs[id] = newDevice(id, 100*id+1, p.kp)
	}
	return p
}

func (p *peer) ids() []uint32 {
	var out []uint32
	for id := range p.devs {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

type request struct {
	method, path string
	header       http.Header
	body         []byte
}

// accepted is a message request the server answered with success.
type accepted struct {
	dest string
	msgs []jsonIn
	ts   uint64
}

type jsonIn struct {
	Type               int32  `json:"type"`
	DestDeviceID       uint32 `json:"destinationDeviceId"`
	DestRegistrationID uint32 `json:"destinationRegistrationId"`
	Content            string `json:"content"`
}

type world struct {
	c             *kit.Case
	dir, password string
	kp            ref.KeyPair
	spk           ref.KeyPair
	spkID         uint32
	lrpk          ref.KeyPair
	peers         map[string]*peer
	mu            sync.Mutex
	reqs          []request
	acc           []accepted
	// override answers a request itself if it returns true
	override  func(w http.ResponseWriter, r *http.Request, body []byte) bool
	extra     func(w http.ResponseWriter, r *http.Request, body []byte) bool
	needsSync bool
	blobs     map[string][]byte
	onCDN     map[string][]byte // by "cdn0/name" and "cdn2/name": instead of blobs
	problems  []string
	calls     []call
	nextBlob  int
}

// call is a call of one of the application's handlers.
type call struct {
	kind   string
	msg    *Message
	source string
	device uint32
	ts     uint64
}

var (
	theServer  *httptest.Server
	theWorld   atomic.Pointer[world]
	serverOnce sync.Once
)

func startServer() {
	serverOnce.Do(func() {
		theServer = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			body, _ := io.ReadAll(r.Body)
			wd := theWorld.Load()
			if wd == nil {
				w.WriteHeader(500)
				return
			}
			wd.serve(w, r, body)
		}))
	})
}

var transportsUp bool

// newWorld sets up our account in a fresh scratch directory.
func newWorld(c *kit.Case, password string) *world {
	startServer()
	w := &world{c: c, dir: c.Scratch(), password: password, kp: ref.NewKeyPair(), spk: ref.NewKeyPair(), lrpk: ref.NewKeyPair(), spkID: 77,
		peers: map[string]*peer{}, blobs: map[string][]byte{}}
	config.ConfigFile = &config.Config{Tel: ourTel, UUID: ourUUID, StorageDir: w.dir, Server: theServer.URL,
		ProfileKey: []byte("0123456789abcdef0123456789abcdef")}
	configFile = filepath.Join(w.dir, "config.yml")
	registration.Registration = registration.RegistrationInfo{Password: ourPass, RegistrationID: 4711, SignalingKey: make([]byte, 52)}
	registration.Registration.SignalingKey[0] = 1
	for i := 1; i < 52; i++ {
		registration.Registration.SignalingKey[i] = byte(i * 7)
	}
	openStore(c, password, w.dir)
	identityKey = axolotl.NewIdentityKeyPairFromKeys(w.kp.Priv[:], w.kp.Pub[:])
	if err := textSecureStore.SetIdentityKeyPair(identityKey); err != nil {
		c.Broken("%v", err)
	}
	textSecureStore.SetLocalRegistrationID(4711)
	sp := ref.Sign(w.kp.Priv, append([]byte{5}, w.spk.Pub[:]...), [64]byte{1})
	if err := textSecureStore.StoreSignedPreKey(w.spkID, axolotl.NewSignedPreKeyRecord(w.spkID, 1, ecPair(w.spk), sp[:])); err != nil {
		c.Broken("%v", err)
	}
	if err := textSecureStore.StorePreKey(0xFFFFFF, axolotl.NewPreKeyRecord(0xFFFFFF, ecPair(w.lrpk))); err != nil {
		c.Broken("%v", err)
	}
	if err := setupGroups(); err != nil {
		c.Broken("%v", err)
	}
	groups = map[string]*Group{}
	deviceLists = map[string][]uint32{}
	contacts.Contacts = map[string]contacts.Contact{}
	if _, err := contacts.ReadContacts(filepath.Join(w.dir, "contacts.yml")); err != nil {
		c.Broken("%v", err)
	}
	SIGNAL_CDN_URL, SIGNAL_CDN2_URL = theServer.URL+"/cdn0", theServer.URL+"/cdn2"
	if !transportsUp {
		transport.SetupTransporter(theServer.URL, ourUUID, ourPass, ourUA, "")
		transport.SetupCDNTransporter(theServer.URL, ourUUID, ourPass, ourUA, "")
		transport.SetupDirectoryTransporter(theServer.URL, ourUUID, ourPass, ourUA, "")
		transport.SetupStorageTransporter(theServer.URL, ourUUID, ourPass, ourUA, "")
		transport.SetupServiceTransporter(theServer.URL, ourUUID, ourPass, ourUA, "")
		transportsUp = true
	}
	client = &Client{
		MessageHandler:        func(m *Message) { w.add(call{kind: "message", msg: m}) },
		TypingMessageHandler:  func(m *Message) { w.add(call{kind: "typing", msg: m}) },
		ReceiptMessageHandler: func(m *Message) { w.add(call{kind: "receipt message", msg: m}) },
		CallMessageHandler:    func(m *Message) { w.add(call{kind: "call", msg: m}) },
		ReceiptHandler: func(s string, d uint32, ts uint64) {
			w.add(call{kind: "receipt", source: s, device: d, ts: ts})
		},
		SyncReadHandler: func(s string, ts uint64) { w.add(call{kind: "sync read", source: s, ts: ts}) },
		SyncSentHandler: func(m *Message, ts uint64) { w.add(call{kind: "sync sent", msg: m, ts: ts}) },
		GetConfig:       func() (*config.Config, error) { return config.ConfigFile, nil },
		GetUsername:     func() string { return "user" },
	}
	w.ownDevices()
	theWorld.Store(w)
	c.T.Cleanup(func() { theWorld.Store(nil) })
	return w
}

func ecPair(k ref.KeyPair) *axolotl.ECKeyPair {
	ik := axolotl.NewIdentityKeyPairFromKeys(k.Priv[:], k.Pub[:])
	return &axolotl.ECKeyPair{PrivateKey: ik.PrivateKey, PublicKey: ik.PublicKey.ECPublicKey}
}

func (w *world) add(cl call) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.calls = append(w.calls, cl)
}

// take returns the handler calls since the last time.
func (w *world) take() []call {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.calls
	w.calls = nil
	return r
}

func (w *world) takeReqs() []request {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.reqs
	w.reqs = nil
	return r
}

func (w *world) takeAcc() []accepted {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.acc
	w.acc = nil
	return r
}

func (w *world) problem(format string, a ...any) {
	w.problems = append(w.problems, fmt.Sprintf(format, a...))
}

// ourBundle is our own bundle, as the server would hand it to peers.
func (w *world) ourBundle(withOPK bool) ref.Bundle {
	sig := ref.Sign(w.kp.Priv, append([]byte{5}, w.spk.Pub[:]...), [64]byte{1})
	b := ref.Bundle{RegID: 4711, IK: w.kp.Pub, SPKID: w.spkID, SPK: w.spk.Pub, Sig: sig}
	if withOPK {
		b.HasOPK, b.OPKID, b.OPK = true, 0xFFFFFF, w.lrpk.Pub
	}
	return b
}

// ourItem is our own device as the server hands it out.
func (w *world) ourItem() map[string]any {
	b := w.ourBundle(true)
	return map[string]any{"deviceId": 1, "registrationId": b.RegID,
		"signedPreKey": map[string]any{"keyId": b.SPKID, "publicKey": b64key(b.SPK), "signature": base64.RawStdEncoding.EncodeToString(b.Sig[:])},
		"preKey":       map[string]any{"keyId": b.OPKID, "publicKey": b64key(b.OPK)}}
}

// ownDevices makes further devices of our own account.
func (w *world) ownDevices(ids ...uint32) *peer {
	p := &peer{uuid: ourUUID, kp: w.kp, devs: map[uint32]*device{}}
	for _, id := range ids {
		p.devs[id] = newDevice(id, 100*id+1, p.kp)
	}
	w.peers[ourUUID] = p
	return p
}

// deliver hands an envelope to the code under test as the server's socket does.
func (w *world) deliver(from *peer, dev uint32, typ signalservice.Envelope_Type, content []byte, ts uint64) error {
	env := &signalservice.Envelope{Type: &typ, SourceUuid: &from.uuid, SourceDevice: &dev, Timestamp: &ts, ServerTimestamp: &ts, Content: content}
	return handleReceivedMessage(env)
}

func jsonReply(w http.ResponseWriter, status int, v any) {
	b, _ := json.Marshal(v)
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(status)
	w.Write(b)
}

// serve is the model of the server.
func (wd *world) serve(w http.ResponseWriter, r *http.Request, body []byte) {
	wd.mu.Lock()
	defer wd.mu.Unlock()
	wd.reqs = append(wd.reqs, request{r.Method, r.URL.RequestURI(), r.Header.Clone(), body})
	// the two hosts attachments are downloaded from
	cdn := ""
	if strings.HasPrefix(r.URL.Path, "/cdn0/") || strings.HasPrefix(r.URL.Path, "/cdn2/") {
		cdn, r.URL.Path = r.URL.Path[1:5], r.URL.Path[5:]
	}
	if wd.override != nil && wd.override(w, r, body) {
		return
	}
	if wd.extra != nil && wd.extra(w, r, body) {
		return
	}
	p := r.URL.Path
	switch {
	case r.Method == "GET" && strings.HasPrefix(p, "/v2/keys/"):
		f := strings.Split(p, "/")
		if len(f) != 5 {
			w.WriteHeader(404)
			return
		}
		pr := wd.peers[f[3]]
		id, _ := strconv.Atoi(f[4])
		if f[3] == ourUUID && id == 1 {
			jsonReply(w, 200, map[string]any{"identityKey": b64key(wd.kp.Pub), "devices": []any{wd.ourItem()}})
			return
		}
		if pr == nil || pr.devs[uint32(id)] == nil {
			w.WriteHeader(404)
			return
		}
		jsonReply(w, 200, map[string]any{"identityKey": b64key(pr.devs[uint32(id)].kp.Pub), "devices": []any{pr.devs[uint32(id)].item()}})
	case r.Method == "PUT" && strings.HasPrefix(p, "/v1/messages/"):
		wd.messages(w, strings.TrimPrefix(p, "/v1/messages/"), body)
	case r.Method == "GET" && p == "/v3/attachments/form/upload":
		wd.nextBlob++
		k := fmt.Sprintf("blob%d", wd.nextBlob)
		jsonReply(w, 200, map[string]any{"cdn": 2, "key": k, "headers": map[string]string{"X-Upload-Token": "token-" + k},
			"signedUploadLocation": theServer.URL + "/signed/" + k + "?sig=a%2Fb&x=1"})
	case r.Method == "POST" && strings.HasPrefix(p, "/signed/"):
		k := strings.TrimPrefix(p, "/signed/")
		if r.Header.Get("X-Upload-Token") != "token-"+k || r.URL.RawQuery != "sig=a%2Fb&x=1" {
			wd.problem("the signed upload location or its headers were not used as allotted: %s %v", r.URL, r.Header)
		}
		w.Header().Set("Location", theServer.URL+"/resumable/"+k+"?upload_id=u%2B"+k)
		w.WriteHeader(201)
	case r.Method == "PUT" && strings.HasPrefix(p, "/resumable/"):
		k := strings.TrimPrefix(p, "/resumable/")
		if r.URL.RawQuery != "upload_id=u%2B"+k {
			wd.problem("upload to a location that was not allotted: %s", r.URL)
		}
		if _, ok := wd.blobs[k]; ok {
			wd.problem("second upload to %s", k)
		}
		wd.blobs[k] = append([]byte{}, body...)
		w.WriteHeader(200)
	case r.Method == "GET" && strings.HasPrefix(p, "/attachments/"):
		name := strings.TrimPrefix(p, "/attachments/")
		b, ok := wd.onCDN[cdn+"/"+name]
		if !ok {
			b, ok = wd.blobs[name]
		}
		if !ok {
			w.WriteHeader(404)
			w.Write([]byte("<Error>no such key</Error>"))
			return
		}
		w.Write(b)
	default:
		w.WriteHeader(404)
	}
}

// messages is the server's rule for a message request: exactly the current
// devices of the recipient, each addressed under its current registration.
func (wd *world) messages(w http.ResponseWriter, dest string, body []byte) {
	var in struct {
		Messages    []jsonIn `json:"messages"`
		Timestamp   uint64   `json:"timestamp"`
		Destination string   `json:"destination"`
	}
	if err := json.Unmarshal(body, &in); err != nil {
		wd.problem("message request that is not JSON: %v", err)
		w.WriteHeader(422)
		return
	}
	p := wd.peers[dest]
	if p == nil {
		w.WriteHeader(404)
		return
	}
	if in.Destination != dest {
		wd.problem("destination %q in a request for %q", in.Destination, dest)
	}
	have := map[uint32]int{}
	stale := []uint32{}
	for _, m := range in.Messages {
		have[m.DestDeviceID]++
		if d := p.devs[m.DestDeviceID]; d != nil && d.reg != m.DestRegistrationID {
			stale = append(stale, m.DestDeviceID)
		}
	}
	missing, extra := []uint32{}, []uint32{}
	for _, id := range p.ids() {
		if have[id] == 0 {
			missing = append(missing, id)
		}
	}
	for _, m := range in.Messages {
		if p.devs[m.DestDeviceID] == nil {
			extra = append(extra, m.DestDeviceID)
		}
	}
	if len(missing)+len(extra) > 0 {
		jsonReply(w, 409, map[string]any{"missingDevices": missing, "extraDevices": extra})
		return
	}
	if len(stale) > 0 {
		jsonReply(w, 410, map[string]any{"staleDevices": stale})
		return
	}
	wd.acc = append(wd.acc, accepted{dest, in.Messages, in.Timestamp})
	jsonReply(w, 200, map[string]any{"needsSync": wd.needsSync && dest != ourUUID})
}

// check decrypts an accepted request at the devices it went to.
func (wd *world) check(a accepted) (map[uint32][]byte, error) {
	p := wd.peers[a.dest]
	out := map[uint32][]byte{}
	for _, m := range a.msgs {
		d := p.devs[m.DestDeviceID]
		if d == nil {
			return nil, fmt.Errorf("a message for device %d, which the recipient does not have", m.DestDeviceID)
		}
		if _, ok := out[m.DestDeviceID]; ok {
			return nil, fmt.Errorf("two messages for device %d", m.DestDeviceID)
		}
		b, err := base64.StdEncoding.DecodeString(m.Content)
		if err != nil {
			return nil, fmt.Errorf("content of the message for device %d: %v", m.DestDeviceID, err)
		}
		for id, o := range p.devs {
			if id != m.DestDeviceID {
				if _, err := o.receive(m.Type, b); err == nil {
					return nil, fmt.Errorf("the message for device %d is readable by device %d", m.DestDeviceID, id)
				}
			}
		}
		pt, err := d.receive(m.Type, b)
		if err != nil {
			return nil, fmt.Errorf("device %d cannot decrypt its message: %v", m.DestDeviceID, err)
		}
		d.got = append(d.got, pt)
		out[m.DestDeviceID] = pt
	}
	if len(out) != len(p.devs) {
		return nil, fmt.Errorf("the request has messages for %d of %d devices", len(out), len(p.devs))
	}
	return out, nil
}

// unpad removes the padding the way the protocol defines it.
func unpad(pt []byte) ([]byte, error) {
	if len(pt)%160 != 0 {
		return nil, fmt.Errorf("a padded message of %d bytes", len(pt))
	}
	i := len(pt) - 1
	for i >= 0 && pt[i] == 0 {
		i--
	}
	if i < 0 || pt[i] != 0x80 {
		return nil, errors.New("no padding")
	}
	return pt[:i], nil
}

func removeAll(p string) { os.RemoveAll(p) }

func padTo160(b []byte) []byte {
	n := (len(b)/160 + 1) * 160
	o := make([]byte, n)
	copy(o, b)
	o[len(b)] = 0x80
	return o
}
