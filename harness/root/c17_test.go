//go:build go1.22

package textsecure

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
	"pgregory.net/rapid"
)

// content draws attachment bytes, some with a recognisable type.
func drawContent(t *rapid.T) []byte {
	b := kit.Big(6000).Draw(t, "content")
	switch rapid.IntRange(0, 7).Draw(t, "magic") {
	case 0:
		b = append([]byte("\x89PNG\r\n\x1a\n"), b...)
	case 1:
		b = append([]byte("\xff\xd8\xff\xe0"), b...)
	case 2:
		b = append([]byte("%PDF-1.4\n"), b...)
	case 3:
		// longer than one read
		b = bytes.Repeat(append(b, 1), 1+rapid.IntRange(0, 4).Draw(t, "rep"))
		for len(b) < 1030 && rapid.Bool().Draw(t, "long") {
			b = append(b, b...)
		}
	}
	if rapid.IntRange(0, 60).Draw(t, "large") == 0 {
		n := rapid.SampledFrom([]int{1 << 20, 1<<20 + 7, 3 << 20}).Draw(t, "length")
		b = append(bytes.Repeat(append(b, 'z'), n/(len(b)+1)+1)[:n], b...)
	}
	return b
}

// pieces is a reader that returns what it has in small pieces.
type pieces struct {
	b    []byte
	n    int
	fail error
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		if p.fail != nil {
			return 0, p.fail
		}
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

// openBlob is the independent decryption of an uploaded blob.
func openBlob(key, digest, blob []byte) ([]byte, error) {
	if len(key) != 64 {
		return nil, fmt.Errorf("key of %d bytes", len(key))
	}
	d := sha256.Sum256(blob)
	if !bytes.Equal(d[:], digest) {
		return nil, errors.New("digest")
	}
	if len(blob) < 64 {
		return nil, errors.New("short")
	}
	body, mac := blob[:len(blob)-32], blob[len(blob)-32:]
	if !bytes.Equal(ref.HMAC(key[32:], body), mac) {
		return nil, errors.New("mac")
	}
	return ref.CBCDecrypt(key[:32], body[:16], body[16:])
}

func makeBlob(key, iv, pt []byte) (blob, digest []byte) {
	body := append(append([]byte{}, iv...), ref.CBCEncrypt(key[:32], iv, pt)...)
	blob = append(body, ref.HMAC(key[32:], body)...)
	d := sha256.Sum256(blob)
	return blob, d[:]
}

func TestC17Attachments(t *testing.T) {
	kit.Check(t, "an attachment was uploaded and read back at the other end, or a request of the upload failed", func(c *kit.Case) {
		c.SeedRand()
		defer kit.UnseedRand()
		w := newWorld(c, "")
		bob := newPeer("22222222-aaaa-4bbb-8ccc-000000000003", 1, 2)
		w.peers[bob.uuid] = bob
		keys, blobs := map[string]bool{}, map[string]bool{}
		n := c.Int("uploads", 1, 3)
		content := drawContent(c.T)
		for i := 0; i < n; i++ {
			if c.Chance("new content", 1, 2) {
				content = drawContent(c.T)
			}
			voice := c.Chance("voice", 1, 4)
			text := kit.Pick(c.T, "text", []string{"", "hello", "é\x00x"})
			fault := ""
			if c.Chance("fault", 2, 5) {
				fault = kit.Pick(c.T, "at", []string{"form", "post", "put", "message", "reader"})
			}
			kind := kit.Pick(c.T, "fault kind", []string{"status", "status with JSON", "dropped", "malformed", "status with a complete answer"})
			status := kit.Refusal(c.T, "status", []int{300, 304, 400, 401, 403, 404, 413, 429, 500, 503})
			formLoc := kit.Pick(c.T, "form location", []string{"", "x", "https:", "/", "https://h"})
			postLoc := kit.Pick(c.T, "location", []string{"", "x", "https:", "//"})
			w.override = nil
			hit := false
			if fault != "" && fault != "reader" {
				w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
					p := r.URL.Path
					at := ""
					switch {
					case strings.HasPrefix(p, "/v3/attachments/form"):
						at = "form"
					case strings.HasPrefix(p, "/signed/"):
						at = "post"
					case strings.HasPrefix(p, "/resumable/"):
						at = "put"
					case strings.HasPrefix(p, "/v1/messages/"):
						at = "message"
					}
					if at != fault || (kind == "malformed" && (at == "put" || at == "message")) {
						return false
					}
					hit = true
					switch kind {
					case "status":
						rw.WriteHeader(status)
					case "status with JSON":
						jsonReply(rw, status, map[string]any{"code": status, "message": "HTTP error"})
					case "status with a complete answer":
						if at == "post" {
							rw.Header().Set("Location", theServer.URL+"/resumable/x?upload_id=u%2Bx")
						}
						jsonReply(rw, status, map[string]any{"cdn": 2, "key": "x", "headers": map[string]string{"X-Upload-Token": "token-x"},
							"signedUploadLocation": theServer.URL + "/signed/x?sig=a%2Fb&x=1"})
					case "dropped":
						if h, ok := rw.(http.Hijacker); ok {
							if cn, _, err := h.Hijack(); err == nil {
								cn.Close()
							}
						}
					case "malformed":
						if at == "form" {
							jsonReply(rw, 200, map[string]any{"cdn": 2, "key": "x", "signedUploadLocation": formLoc})
						} else {
							if postLoc != "" {
								rw.Header().Set("Location", postLoc)
							}
							rw.WriteHeader(201)
						}
					}
					return true
				}
			}
			rd := &pieces{b: append([]byte{}, content...), n: kit.Pick(c.T, "piece", []int{1, 7, 512, 1024, 1 << 20})}
			if fault == "reader" {
				rd.fail = errors.New("reader fails")
				// the type detection reads up to 1024 bytes and ignores errors there
				if len(content) < 1024 {
					rd.b = append(rd.b, bytes.Repeat([]byte("x"), 1024)...)
				}
				hit = true
			}
			w.takeReqs()
			w.takeAcc()
			w.take()
			before := len(w.blobs)
			var ts uint64
			var err error
			c.Step("upload of %d bytes, voice %v, fault %q %s", len(content), voice, fault, kind)
			c.NoPanic("sending an attachment", func() {
				if voice {
					ts, err = SendVoiceNote(bob.uuid, text, rd, 5)
				} else {
					ts, err = SendAttachment(bob.uuid, text, rd, 5)
				}
			})
			acc := w.takeAcc()
			if hit {
				c.NonTrivial()
				c.Class("fault at " + fault)
				if err == nil {
					c.Bad("the %s failed (%s %d) and no error is reported", fault, kind, status)
				}
				if len(acc) != 0 {
					c.Bad("a message was sent although the upload failed")
				}
				continue
			}
			if err != nil {
				c.Bad("sending an attachment fails: %v", err)
			}
			if len(w.problems) > 0 {
				c.Bad("%s", w.problems[0])
			}
			if len(w.blobs) != before+1 || len(acc) != 1 {
				c.Bad("%d uploads and %d messages", len(w.blobs)-before, len(acc))
			}
			out, err := w.check(acc[0])
			if err != nil {
				c.Bad("%v", err)
			}
			var plain []byte
			for id, pt := range out {
				p, err := unpad(pt)
				if err != nil {
					c.Bad("device %d: %v", id, err)
				}
				plain = p
			}
			cont := &signalservice.Content{}
			if err := proto.Unmarshal(plain, cont); err != nil {
				c.Bad("%v", err)
			}
			dm := cont.GetDataMessage()
			if dm.GetBody() != text || dm.GetTimestamp() != ts || dm.GetExpireTimer() != 5 || len(dm.GetAttachments()) != 1 {
				c.Bad("the message does not hold what was sent: %v", dm)
			}
			a := dm.Attachments[0]
			blob, ok := w.blobs[a.GetCdnKey()]
			if !ok || a.GetCdnNumber() != 2 {
				c.Bad("the pointer names %q on cdn %d, which was not allotted", a.GetCdnKey(), a.GetCdnNumber())
			}
			got, err := openBlob(a.GetKey(), a.GetDigest(), blob)
			if err != nil {
				c.Bad("the blob does not open with the keys of the pointer: %v", err)
			}
			if !bytes.Equal(got, content) {
				c.Bad("the blob holds %d bytes, not the %d sent", len(got), len(content))
			}
			if int(a.GetSize()) != len(content) {
				c.Bad("size %d for %d bytes", a.GetSize(), len(content))
			}
			wantCT := "audio/mpeg"
			if !voice {
				wantCT, _ = MIMETypeFromReader(bytes.NewReader(content))
				if bytes.HasPrefix(content, []byte("\x89PNG\r\n\x1a\n")) && wantCT != "image/png" {
					c.Bad("a PNG is declared as %s", wantCT)
				}
			}
			if a.GetContentType() != wantCT {
				c.Bad("content type %q instead of %q", a.GetContentType(), wantCT)
			}
			if voice != (a.GetFlags()&1 == 1) {
				c.Bad("voice note flag %d for voice %v", a.GetFlags(), voice)
			}
			if len(content) >= 16 && bytes.Contains(blob, content) {
				c.Bad("the server sees the plaintext")
			}
			ks := string(a.GetKey())
			if keys[ks] || keys[ks[:32]] || keys[ks[32:]] || ks[:32] == ks[32:] {
				c.Bad("keys of an earlier upload are used again")
			}
			keys[ks], keys[ks[:32]], keys[ks[32:]] = true, true, true
			if blobs[string(blob[:16])] {
				c.Bad("two uploads with the same initialization vector")
			}
			blobs[string(blob[:16])] = true
			// the same message, sent to us: the receiving side
			w.override = nil
			typ, m := bob.devs[1].send(w.ourBundle(true), padTo160(plain))
			c.NoPanic("receiving an attachment", func() { err = w.deliver(bob, 1, typ, m, 99) })
			if err != nil {
				c.Bad("the receiver refuses a genuine attachment: %v", err)
			}
			calls := w.take()
			if len(calls) != 1 || calls[0].kind != "message" || len(calls[0].msg.Attachments()) != 1 {
				c.Bad("%d calls for one message with an attachment", len(calls))
			}
			at := calls[0].msg.Attachments()[0]
			rb, err := io.ReadAll(at.R)
			if err != nil || !bytes.Equal(rb, content) {
				c.Bad("the receiver gets %d bytes, not the %d sent (%v)", len(rb), len(content), err)
			}
			if at.MimeType != wantCT || at.FileName != a.GetFileName() {
				c.Bad("the receiver gets type %q and name %q", at.MimeType, at.FileName)
			}
			c.NonTrivial()
			c.Class("delivered")
		}
	})
}

// TestC17Received: messages with several attachments, named by key or by number,
// on either of the download hosts, where the same name may hold other content.
func TestC17Received(t *testing.T) {
	kit.Check(t, "a message with attachments of at least two kinds of location was received", func(c *kit.Case) {
		c.SeedRand()
		defer kit.UnseedRand()
		w := newWorld(c, "")
		w.onCDN = map[string][]byte{}
		bob := newPeer("22222222-aaaa-4bbb-8ccc-000000000003", 1)
		for round := c.Int("messages", 1, 3); round > 0; round-- {
			dm := &signalservice.DataMessage{Timestamp: proto.Uint64(uint64(round)), Body: proto.String("x")}
			var contents [][]byte
			kinds := map[string]bool{}
			for i := c.Int("attachments", 1, 5); i > 0; i-- {
				pt := kit.Big(300).Draw(c.T, "content")
				if c.Chance("large", 1, 60) {
					pt = bytes.Repeat(append(pt, 'z'), kit.Pick(c.T, "length", []int{1 << 20, 3 << 20})/(len(pt)+1)+1)
				}
				key := kit.Fill(c.T, 64)
				blob, digest := makeBlob(key, kit.Fill(c.T, 16), pt)
				a := &signalservice.AttachmentPointer{ContentType: proto.String(fmt.Sprintf("x/y%d", i)), FileName: proto.String(fmt.Sprintf("f%d", i)),
					Key: key, Digest: digest, Size: proto.Uint32(uint32(len(pt)))}
				if c.Chance("no digest", 1, 8) {
					a.Digest = nil
				}
				host, kind := "cdn0", "unset"
				switch c.Int("cdn", 0, 2) {
				case 0:
				case 1:
					a.CdnNumber, kind = proto.Uint32(0), "0"
				case 2:
					a.CdnNumber, host, kind = proto.Uint32(2), "cdn2", "2"
				}
				name := ""
				if c.Chance("id", 1, 2) {
					id := kit.Pick(c.T, "number", []uint64{1, 2, 77, 1<<31 + 5, 1<<32 + 1, 1<<63 - 1, 1<<64 - 1})
					a.AttachmentIdentifier, name, kind = &signalservice.AttachmentPointer_CdnId{CdnId: id}, strconv.FormatUint(id, 10), kind+" id"
				} else {
					name = kit.Pick(c.T, "key name", []string{"77", "k", "A-b_9", "aBcDeFgHiJkLmNoPqRsT"})
					a.AttachmentIdentifier, kind = &signalservice.AttachmentPointer_CdnKey{CdnKey: name}, kind+" key"
				}
				if w.onCDN[host+"/"+name] != nil {
					continue
				}
				w.onCDN[host+"/"+name] = blob
				other := map[string]string{"cdn0": "cdn2", "cdn2": "cdn0"}[host]
				kinds[kind] = true
				c.Class("on " + kind)
				c.Step("attachment %s on %s, %d bytes", name, kind, len(pt))
				if w.onCDN[other+"/"+name] == nil && c.Chance("alike", 1, 2) {
					// the other host has something else of this name
					w.onCDN[other+"/"+name], _ = makeBlob(key, kit.Fill(c.T, 16), append([]byte("other"), pt...))
				}
				dm.Attachments = append(dm.Attachments, a)
				contents = append(contents, pt)
			}
			if len(kinds) > 1 {
				c.NonTrivial()
			}
			b, err := proto.Marshal(&signalservice.Content{DataMessage: dm})
			if err != nil {
				c.Broken("%v", err)
			}
			typ, m := bob.devs[1].send(w.ourBundle(true), padTo160(b))
			c.NoPanic("receiving attachments", func() { err = w.deliver(bob, 1, typ, m, 99) })
			calls := w.take()
			if err != nil || len(calls) != 1 || len(calls[0].msg.Attachments()) != len(contents) {
				c.Bad("genuine attachments are not handed on: %d calls, error %v", len(calls), err)
			}
			for i, at := range calls[0].msg.Attachments() {
				g, err := io.ReadAll(at.R)
				if err != nil || !bytes.Equal(g, contents[i]) {
					c.Bad("attachment %d (%v) is handed on with other bytes than sent (%v)", i, dm.Attachments[i].AttachmentIdentifier, err)
				}
				if at.MimeType != dm.Attachments[i].GetContentType() || at.FileName != dm.Attachments[i].GetFileName() {
					c.Bad("attachment %d is handed on as %q %q", i, at.MimeType, at.FileName)
				}
			}
		}
	})
}

func TestC18Manipulated(t *testing.T) {
	kit.Check(t, "a blob, key or digest differs from what the sender made", func(c *kit.Case) {
		c.SeedRand()
		defer kit.UnseedRand()
		w := newWorld(c, "")
		bob := newPeer("22222222-aaaa-4bbb-8ccc-000000000003", 1)
		n := c.Int("attachments", 1, 3)
		bad := c.Int("bad one", 0, n) // n: none
		dm := &signalservice.DataMessage{Timestamp: proto.Uint64(5), Body: proto.String("x")}
		status := map[string]int{}
		var contents [][]byte
		undecided := false
		for i := 0; i < n; i++ {
			pt := kit.Big(200).Draw(c.T, "content")
			contents = append(contents, pt)
			key := kit.Fill(c.T, 64)
			key[0] ^= byte(i)
			key[40] ^= 3
			blob, digest := makeBlob(key, kit.Fill(c.T, 16), pt)
			name := fmt.Sprintf("att%d", i)
			if i == bad {
				what := c.Int("what", 0, 8)
				var d string
				switch what {
				case 0, 1, 2:
					blob, d = kit.Mutate(c.T, blob)
					d = "blob: " + d
				case 3:
					key, d = kit.Mutate(c.T, key)
					d = "key: " + d
					if len(key) == 64 && len(blob) >= 64 {
						// A wrong cipher key under the right MAC key shows only
						// in the padding, which may look right by chance.
						if body := blob[:len(blob)-32]; bytes.Equal(ref.HMAC(key[32:], body), blob[len(body):]) {
							undecided = true
						}
					}
				case 4:
					digest, d = kit.Mutate(c.T, digest)
					d = "digest: " + d
				case 5:
					status[name] = kit.Refusal(c.T, "status", []int{300, 304, 403, 404, 500})
					blob = []byte(kit.Pick(c.T, "page", []string{"", "x", "<Error>access denied</Error>", strings.Repeat("error page ", 40)}))
					d = "error page"
				case 6:
					key = key[:kit.Pick(c.T, "keylen", []int{0, 1, 16, 31, 32, 33, 48, 63})]
					d = fmt.Sprintf("key of %d bytes", len(key))
				case 7:
					// authentic but without a padded block
					l := kit.Pick(c.T, "len", []int{0, 1, 15, 16, 17, 31, 33, 48})
					body := kit.Fill(c.T, l)
					blob = append(append([]byte{}, body...), ref.HMAC(key[32:], body)...)
					dg := sha256.Sum256(blob)
					digest = dg[:]
					d = fmt.Sprintf("authentic body of %d bytes", l)
					if l >= 32 && l%16 == 0 {
						undecided = true // may happen to have valid padding
					}
				case 8:
					// the digest of the sender belongs to another blob under the same keys
					other := append(append([]byte{}, pt...), 'x')
					blob, _ = makeBlob(key, kit.Fill(c.T, 16), other)
					d = "another blob under the same keys"
				}
				if len(digest) == 0 {
					undecided = true // no digest at all
				}
				c.Step("attachment %d of %d: %s", i, n, d)
				c.Class(strings.SplitN(d, ":", 2)[0])
				c.NonTrivial()
			}
			w.blobs[name] = blob
			dm.Attachments = append(dm.Attachments, &signalservice.AttachmentPointer{
				AttachmentIdentifier: &signalservice.AttachmentPointer_CdnKey{CdnKey: name}, CdnNumber: proto.Uint32(uint32(c.Int("cdn", 0, 3))),
				ContentType: proto.String("x/y"), Key: key, Digest: digest, Size: proto.Uint32(uint32(len(pt)))})
		}
		w.override = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			name := strings.TrimPrefix(r.URL.Path, "/attachments/")
			if s := status[name]; s != 0 {
				rw.WriteHeader(s)
				rw.Write(w.blobs[name])
				return true
			}
			return false
		}
		b, err := proto.Marshal(&signalservice.Content{DataMessage: dm})
		if err != nil {
			c.Broken("%v", err)
		}
		typ, m := bob.devs[1].send(w.ourBundle(true), padTo160(b))
		c.NoPanic("receiving an attachment", func() { err = w.deliver(bob, 1, typ, m, 99) })
		calls := w.take()
		if bad == n {
			if err != nil || len(calls) != 1 {
				c.Bad("genuine attachments are refused: %v", err)
			}
			for i, a := range calls[0].msg.Attachments() {
				g, _ := io.ReadAll(a.R)
				if !bytes.Equal(g, contents[i]) {
					c.Bad("attachment %d has other bytes than sent", i)
				}
			}
			return
		}
		if undecided {
			return
		}
		if err == nil {
			c.Bad("no error for a manipulated attachment (%d handler calls)", len(calls))
		}
		if len(calls) != 0 {
			c.Bad("the application got a message with a manipulated attachment")
		}
		// later messages are not affected
		b2, _ := json.Marshal("later")
		b, _ = proto.Marshal(&signalservice.Content{DataMessage: &signalservice.DataMessage{Timestamp: proto.Uint64(6), Body: proto.String(string(b2))}})
		typ, m = bob.devs[1].send(w.ourBundle(true), padTo160(b))
		if err = w.deliver(bob, 1, typ, m, 100); err != nil || len(w.take()) != 1 {
			c.Bad("a later message is not delivered: %v", err)
		}
	})
}
