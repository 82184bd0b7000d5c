//go:build go1.22

package unidentifiedAccess

import (
	"bytes"
	"crypto/aes"
	"math"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/sirupsen/logrus"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

// quit35 turns the end of the process into a panic.
func quit35() {
	logrus.StandardLogger().ExitFunc = func(int) { panic("the process was ended") }
}

// inner35 is the certificate inside a sender certificate, made by hand.
func inner35(c *kit.Case, expires *uint64) []byte {
	m := &signalservice.SenderCertificate_Certificate{Expires: expires}
	if c.Chance("uuid", 2, 3) {
		m.SenderUuid = proto.String("00000000-0000-4000-8000-0000000000aa")
	}
	if c.Chance("number", 1, 2) {
		m.SenderE164 = proto.String("+4915100000001")
	}
	if c.Chance("device", 2, 3) {
		m.SenderDevice = proto.Uint32(uint32(c.Int("device id", 0, 5)))
	}
	if c.Chance("identity", 2, 3) {
		m.IdentityKey = kit.Fill(c.T, 33)
	}
	if c.Chance("signer", 2, 3) {
		m.Signer = &signalservice.ServerCertificate{Certificate: kit.Bytes(50).Draw(c.T, "signer certificate"), Signature: kit.Fill(c.T, 64)}
	}
	b, err := proto.Marshal(m)
	if err != nil {
		c.Broken("%v", err)
	}
	if c.Chance("unknown field", 1, 4) {
		b = protowire.AppendTag(b, 99, protowire.BytesType)
		b = protowire.AppendBytes(b, []byte("later"))
	}
	return b
}

// expiry35 reads a sender certificate independently: the time it ends, if it is one.
func expiry35(b []byte) (ms uint64, present, wellFormed bool) {
	in, ok := field35(b, 1, protowire.BytesType)
	if !ok {
		return 0, false, false
	}
	e, ok := field35(in, 3, protowire.Fixed64Type)
	if !ok {
		return 0, false, false
	}
	if len(e) == 0 {
		return 0, false, true
	}
	ms, n := protowire.ConsumeFixed64(e)
	return ms, n > 0, true
}

// field35 is the last value of a field; ok says that the message can be read.
func field35(b []byte, want protowire.Number, typ protowire.Type) (val []byte, ok bool) {
	for len(b) > 0 {
		num, t, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil, false
		}
		b = b[n:]
		m := protowire.ConsumeFieldValue(num, t, b)
		if m < 0 {
			return nil, false
		}
		if num == want && t == typ {
			val = b[:m]
			if t == protowire.BytesType {
				val, _ = protowire.ConsumeBytes(b)
			}
		}
		b = b[m:]
	}
	return val, true
}

func TestC35Certificates(t *testing.T) {
	quit35()
	kit.Check(t, "a certificate with an expiry time was judged, or a malformed one was refused", func(c *kit.Case) {
		nowMs := uint64(time.Now().UnixNano() / 1e6)
		// whole minutes off, so that the time the check takes does not matter
		delta := uint64(kit.Pick(c.T, "minutes", []int{1, 2, 5, 60, 24 * 60, 365 * 24 * 60, 40 * 365 * 24 * 60})) * 60000
		var e uint64
		future := false
		switch c.Int("expiry", 0, 4) {
		case 0:
			e, future = nowMs+delta, true
		case 1:
			e = nowMs - min(delta, nowMs)
		case 2:
			e = kit.Pick(c.T, "odd", []uint64{0, 1, 1600000000, nowMs / 1000, nowMs/1000 + 86400, 1 << 32})
		case 3:
			e, future = kit.Pick(c.T, "far", []uint64{math.MaxUint64, math.MaxInt64, 1 << 63, nowMs * 1000}), true
		case 4:
			e = uint64(c.Int("random", 0, int(nowMs-60000)))
		}
		exp := &e
		kind := kit.Pick(c.T, "kind", []string{"whole", "whole", "whole", "no expiry", "empty", "no certificate", "garbage", "altered", "inner garbage"})
		if kind == "no expiry" {
			exp = nil
		}
		in := inner35(c, exp)
		if kind == "inner garbage" {
			in = kit.Bytes(80).Draw(c.T, "inner")
		}
		m := &signalservice.SenderCertificate{Certificate: in}
		if c.Chance("signature", 3, 4) {
			m.Signature = kit.Fill(c.T, 64)
		}
		if kind == "no certificate" {
			m.Certificate = nil
		}
		cert, err := proto.Marshal(m)
		if err != nil {
			c.Broken("%v", err)
		}
		switch kind {
		case "empty":
			cert = kit.Pick(c.T, "none", [][]byte{nil, {}})
		case "garbage":
			cert = kit.Bytes(120).Draw(c.T, "garbage")
		case "altered":
			cert, _ = kit.Mutate(c.T, cert)
		}
		before := append([]byte{}, cert...)
		got := error(nil)
		c.NoPanic("checking a certificate", func() { got = CheckCertificate(cert) })
		ms, present, wellFormed := expiry35(cert)
		usable := wellFormed && present && ms > nowMs
		c.Step("%s: %x, expires %d (%v, %v), now %d: %v", kind, cert, ms, present, wellFormed, nowMs, got)
		c.NonTrivial()
		c.Class(kind)
		if !bytes.Equal(before, cert) {
			c.Bad("checking changed the certificate")
		}
		if kind == "whole" && usable != future {
			c.Broken("the certificate %x that expires at %d", cert, e)
		}
		near := ms+30000 > nowMs && ms < nowMs+30000
		if near || (kind == "altered" || kind == "garbage" || kind == "inner garbage") && usable {
			// altered data may still be a certificate, with text that is no UTF-8 or fields of another type
			if got == nil || near {
				return
			}
			if proto.Unmarshal(cert, &signalservice.SenderCertificate{}) == nil && proto.Unmarshal(inside35(cert), &signalservice.SenderCertificate_Certificate{}) == nil {
				c.Bad("a certificate that expires at %d, now %d: %v", ms, nowMs, got)
			}
			return
		}
		if usable && got != nil {
			c.Bad("a certificate that expires at %d, now %d: %v", ms, nowMs, got)
		}
		if !usable && got == nil {
			c.Bad("a certificate (%s) that expires at %d (present %v), now %d, is accepted", kind, ms, present, nowMs)
		}
	})
}

func inside35(cert []byte) []byte {
	b, _ := field35(cert, 1, protowire.BytesType)
	return b
}

// key35 is the access key of a profile key: the first block of the AES-GCM key stream with a zero nonce.
func key35(profileKey []byte) []byte {
	b, _ := aes.NewCipher(profileKey)
	out := make([]byte, 16)
	b.Encrypt(out, []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2})
	return out
}

var seen35 = map[string]bool{}

func TestC35Access(t *testing.T) {
	quit35()
	kit.Check(t, "access keys were derived or refused for a malformed profile key or certificate", func(c *kit.Case) {
		ourKey := kit.Fill(c.T, 32)
		config.ConfigFile = &config.Config{ProfileKey: ourKey}
		inner := inner35(c, proto.Uint64(1))
		whole, _ := proto.Marshal(&signalservice.SenderCertificate{Certificate: inner, Signature: kit.Fill(c.T, 64)})
		config.ConfigFile.Certificate = whole
		bad := ""
		if c.Chance("damaged", 1, 3) {
			bad = kit.Pick(c.T, "what", []string{"own key", "certificate", "their key"})
		}
		switch bad {
		case "own key":
			config.ConfigFile.ProfileKey = kit.Fill(c.T, kit.Pick(c.T, "length", []int{0, 1, 15, 31, 33, 64}))
		case "certificate":
			config.ConfigFile.Certificate = kit.Pick(c.T, "garbage", [][]byte{{0xff}, {0x0a, 0x20, 1}, {0x0a}, whole[:len(whole)-1]})
		}
		var list []contacts.Contact
		n := c.Int("contacts", 1, 3)
		for i := 0; i < n; i++ {
			ct := contacts.Contact{UUID: "u"}
			switch c.Int("key", 0, 3) {
			case 0:
			case 1:
				ct.ProfileKey = []byte{}
			default:
				ct.ProfileKey = kit.Fill(c.T, 32)
			}
			if bad == "their key" && i == n-1 {
				ct.ProfileKey = kit.Fill(c.T, kit.Pick(c.T, "their length", []int{1, 15, 31, 33, 64}))
			}
			list = append(list, ct)
		}
		check := func(what string, ct contacts.Contact, p UnidentifiedAccessPair) {
			k := p.TargetUnidentifiedAccess.UnidentifiedAccessKey
			if len(ct.ProfileKey) == 32 {
				if !bytes.Equal(k, key35(ct.ProfileKey)) {
					c.Bad("%s: the access key of %x is %x, not %x", what, ct.ProfileKey, k, key35(ct.ProfileKey))
				}
			} else if len(k) != 16 || seen35[string(k)] {
				c.Bad("%s: the access key without a profile key is %x (seen before: %v)", what, k, seen35[string(k)])
			} else {
				seen35[string(k)] = true
			}
			if !bytes.Equal(p.GetTargetKey(), k) || !bytes.Equal(p.SelfUnidentifiedAccess.UnidentifiedAccessKey, key35(ourKey)) ||
				!bytes.Equal(p.TargetUnidentifiedAccess.UnidentifiedCertificate, inner) || !bytes.Equal(p.SelfUnidentifiedAccess.UnidentifiedCertificate, inner) {
				c.Bad("%s: the pair %x", what, p)
			}
		}
		var pairs *[]UnidentifiedAccessPair
		var err error
		c.NoPanic("GetAccessFor", func() { pairs, err = GetAccessFor(list) })
		c.Step("access for %d contacts (damaged %q): %v", n, bad, err)
		c.NonTrivial()
		c.Class(bad)
		if (err != nil) != (bad != "") {
			c.Bad("access for %d contacts with a damaged %q: %v", n, bad, err)
		}
		if err == nil {
			if pairs == nil || len(*pairs) != n {
				c.Bad("%d pairs of access keys for %d contacts", len(*pairs), n)
			}
			for i, p := range *pairs {
				check("GetAccessFor", list[i], p)
			}
		}
		for i, ct := range list {
			var p *UnidentifiedAccessPair
			c.NoPanic("GetAccessForUUID", func() { p, err = GetAccessForUUID(ct) })
			wrong := bad == "own key" || bad == "certificate" || bad == "their key" && i == n-1
			if (err != nil) != wrong {
				c.Bad("access for a contact with a damaged %q: %v", bad, err)
			}
			if err == nil {
				check("GetAccessForUUID", ct, *p)
			}
		}
		if bad == "" {
			a, err := GetAccessForSync(ourKey, whole)
			if err != nil || !bytes.Equal(a.UnidentifiedAccessKey, key35(ourKey)) || !bytes.Equal(a.UnidentifiedCertificate, whole) {
				c.Bad("access for our devices: %x, %v", a, err)
			}
			for _, ct := range list {
				p, err := a.GetTargetUnidentifiedAccess(ct)
				if len(ct.ProfileKey) == 0 {
					continue
				}
				if err != nil || !bytes.Equal(p.GetTargetKey(), key35(ct.ProfileKey)) || !bytes.Equal(p.TargetUnidentifiedAccess.UnidentifiedCertificate, inner) || !bytes.Equal(p.SelfUnidentifiedAccess.UnidentifiedAccessKey, a.UnidentifiedAccessKey) {
					c.Bad("access for a contact and our devices: %x, %v", p, err)
				}
			}
		}
	})
}
