//go:build go1.22

// Package ref is an independent implementation of the parts of the Signal
// protocol (version 3) that the checks compare against: X3DH, the double
// ratchet, the wire format and XEdDSA-style signatures. It uses only the
// standard library and shares no code with the code under test.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
)

// ---- primitives

// KeyPair is an X25519 key pair.
type KeyPair struct{ Priv, Pub [32]byte }

// NewKeyPair makes a key pair from crypto/rand.
func NewKeyPair() KeyPair {
	var p [32]byte
	if _, err := io.ReadFull(rand.Reader, p[:]); err != nil {
		panic(err)
	}
	return FromPriv(p)
}

// FromPriv computes the public key.
func FromPriv(p [32]byte) KeyPair {
	p[0] &= 248
	p[31] &= 127
	p[31] |= 64
	k, err := ecdh.X25519().NewPrivateKey(p[:])
	if err != nil {
		panic(err)
	}
	kp := KeyPair{Priv: p}
	copy(kp.Pub[:], k.PublicKey().Bytes())
	return kp
}

// DH is X25519.
func DH(priv, pub [32]byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv[:])
	if err != nil {
		panic(err)
	}
	q, err := ecdh.X25519().NewPublicKey(pub[:])
	if err != nil {
		panic(err)
	}
	s, err := k.ECDH(q)
	if err != nil {
		return make([]byte, 32)
	}
	return s
}

// HMAC is HMAC-SHA256.
func HMAC(key, b []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write(b)
	return m.Sum(nil)
}

// HKDF is HKDF-SHA256 (RFC 5869), written out.
func HKDF(ikm, salt, info []byte, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var t, out []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, append(append(append([]byte{}, t...), info...), i))
		out = append(out, t...)
	}
	return out[:n]
}

// CBCEncrypt is AES-CBC with PKCS#7 padding.
func CBCEncrypt(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	pad := 16 - len(pt)%16
	buf := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(buf, buf)
	return buf
}

// CBCDecrypt is the inverse of CBCEncrypt with full padding checks.
func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("length")
	}
	buf := append([]byte{}, ct...)
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(buf, buf)
	pad := int(buf[len(buf)-1])
	if pad < 1 || pad > 16 {
		return nil, errors.New("padding")
	}
	for _, x := range buf[len(buf)-pad:] {
		if int(x) != pad {
			return nil, errors.New("padding")
		}
	}
	return buf[:len(buf)-pad], nil
}

// ---- minimal protobuf

// Field is one protobuf field.
type Field struct {
	Num   int
	Var   uint64
	Bytes []byte
	IsVar bool
}

// V makes a varint field.
func V(num int, v uint64) Field { return Field{Num: num, Var: v, IsVar: true} }

// B makes a length-delimited field.
func B(num int, b []byte) Field { return Field{Num: num, Bytes: b} }

// Enc encodes fields in order.
func Enc(fs ...Field) []byte {
	var out []byte
	for _, f := range fs {
		if f.IsVar {
			out = binary.AppendUvarint(out, uint64(f.Num)<<3)
			out = binary.AppendUvarint(out, f.Var)
		} else {
			out = binary.AppendUvarint(out, uint64(f.Num)<<3|2)
			out = binary.AppendUvarint(out, uint64(len(f.Bytes)))
			out = append(out, f.Bytes...)
		}
	}
	return out
}

// Dec decodes fields (the last one of a number wins, as in protobuf).
func Dec(b []byte) (map[int]Field, error) {
	fs := map[int]Field{}
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("tag")
		}
		b = b[n:]
		f := Field{Num: int(tag >> 3)}
		switch tag & 7 {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, errors.New("varint")
			}
			b = b[n:]
			f.Var, f.IsVar = v, true
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return nil, errors.New("length")
			}
			f.Bytes = b[n : n+int(l)]
			b = b[n+int(l):]
		case 1:
			if len(b) < 8 {
				return nil, errors.New("fixed64")
			}
			f.Var, f.IsVar = binary.LittleEndian.Uint64(b), true
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return nil, errors.New("fixed32")
			}
			f.Var, f.IsVar = uint64(binary.LittleEndian.Uint32(b)), true
			b = b[4:]
		default:
			return nil, errors.New("wire type")
		}
		fs[f.Num] = f
	}
	return fs, nil
}

func pub33(k [32]byte) []byte { return append([]byte{5}, k[:]...) }

func getPub(f Field, ok bool) (k [32]byte, err error) {
	if !ok || len(f.Bytes) != 33 || f.Bytes[0] != 5 {
		return k, errors.New("bad public key field")
	}
	copy(k[:], f.Bytes[1:])
	return k, nil
}

// ---- messages

// WM is a parsed message.
type WM struct {
	Ratchet         [32]byte
	Counter, Prev   uint32
	HasCtr, HasPrev bool
	CT              []byte
	Raw             []byte
}

// ParseWM parses a message strictly.
func ParseWM(b []byte) (*WM, error) {
	if len(b) < 10 || b[0] != 0x33 {
		return nil, fmt.Errorf("message: bad start or length %d", len(b))
	}
	fs, err := Dec(b[1 : len(b)-8])
	if err != nil {
		return nil, err
	}
	m := &WM{Raw: b}
	f, ok := fs[1]
	if m.Ratchet, err = getPub(f, ok); err != nil {
		return nil, err
	}
	if f, ok = fs[2]; !ok || !f.IsVar {
		return nil, errors.New("message: no counter")
	}
	m.Counter = uint32(f.Var)
	if f, ok = fs[3]; ok {
		m.Prev, m.HasPrev = uint32(f.Var), true
	}
	if f, ok = fs[4]; !ok {
		return nil, errors.New("message: no ciphertext")
	}
	m.CT = f.Bytes
	return m, nil
}

// PKWM is a parsed initial message.
type PKWM struct {
	RegID     uint32
	HasPreKey bool
	PreKeyID  uint32
	SPKID     uint32
	Base, IK  [32]byte
	Msg       *WM
}

// ParsePKWM parses an initial message strictly.
func ParsePKWM(b []byte) (*PKWM, error) {
	if len(b) < 2 || b[0] != 0x33 {
		return nil, errors.New("initial message: bad start")
	}
	fs, err := Dec(b[1:])
	if err != nil {
		return nil, err
	}
	p := &PKWM{}
	f, ok := fs[5]
	if !ok {
		return nil, errors.New("initial message: no registration id")
	}
	p.RegID = uint32(f.Var)
	if f, ok = fs[1]; ok {
		p.HasPreKey, p.PreKeyID = true, uint32(f.Var)
	}
	if f, ok = fs[6]; !ok {
		return nil, errors.New("initial message: no signed prekey id")
	}
	p.SPKID = uint32(f.Var)
	f, ok = fs[2]
	if p.Base, err = getPub(f, ok); err != nil {
		return nil, err
	}
	f, ok = fs[3]
	if p.IK, err = getPub(f, ok); err != nil {
		return nil, err
	}
	if f, ok = fs[4]; !ok {
		return nil, errors.New("initial message: no message")
	}
	p.Msg, err = ParseWM(f.Bytes)
	return p, err
}

// ---- session

type mk struct{ ck, mac, iv []byte }

func msgKeys(chain []byte) mk {
	o := HKDF(HMAC(chain, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return mk{o[:32], o[32:64], o[64:]}
}

type recvChain struct {
	pub     [32]byte
	ck      []byte
	n       uint32
	skipped map[uint32]mk
}

// Session is one session of the reference peer.
type Session struct {
	rk           []byte
	dhs          KeyPair
	cks          []byte
	ns, prev     uint32
	chains       []*recvChain
	LocalIK      [32]byte
	RemoteIK     [32]byte
	LocalReg     uint32
	RemoteReg    uint32
	pendingBase  *[32]byte
	pendingPK    uint32
	pendingHasPK bool
	pendingSPK   uint32
	AliceBase    [32]byte
}

var ffs = bytes.Repeat([]byte{0xff}, 32)

func kdfRoot(rk []byte, dh []byte) (newRK, ck []byte) {
	o := HKDF(dh, rk, []byte("WhisperRatchet"), 64)
	return o[:32], o[32:]
}

// Bundle is what an initiator needs.
type Bundle struct {
	RegID  uint32
	IK     [32]byte
	SPKID  uint32
	SPK    [32]byte
	Sig    [64]byte
	HasOPK bool
	OPKID  uint32
	OPK    [32]byte
}

// Initiate is the initiator's side of X3DH.
func Initiate(id KeyPair, reg uint32, b Bundle) (*Session, error) {
	if !Verify(b.IK, pub33(b.SPK), b.Sig) {
		return nil, errors.New("bundle signature")
	}
	base := NewKeyPair()
	secret := append([]byte{}, ffs...)
	secret = append(secret, DH(id.Priv, b.SPK)...)
	secret = append(secret, DH(base.Priv, b.IK)...)
	secret = append(secret, DH(base.Priv, b.SPK)...)
	if b.HasOPK {
		secret = append(secret, DH(base.Priv, b.OPK)...)
	}
	o := HKDF(secret, nil, []byte("WhisperText"), 64)
	s := &Session{LocalIK: id.Pub, RemoteIK: b.IK, LocalReg: reg, RemoteReg: b.RegID, AliceBase: base.Pub}
	s.dhs = NewKeyPair()
	s.rk, s.cks = kdfRoot(o[:32], DH(s.dhs.Priv, b.SPK))
	s.chains = append(s.chains, &recvChain{pub: b.SPK, ck: o[32:], skipped: map[uint32]mk{}})
	s.pendingBase, s.pendingHasPK, s.pendingPK, s.pendingSPK = &base.Pub, b.HasOPK, b.OPKID, b.SPKID
	return s, nil
}

// Respond is the responder's side of X3DH. opk is nil without one-time prekey.
func Respond(id KeyPair, reg uint32, spk KeyPair, opk *KeyPair, p *PKWM) *Session {
	secret := append([]byte{}, ffs...)
	secret = append(secret, DH(spk.Priv, p.IK)...)
	secret = append(secret, DH(id.Priv, p.Base)...)
	secret = append(secret, DH(spk.Priv, p.Base)...)
	if opk != nil {
		secret = append(secret, DH(opk.Priv, p.Base)...)
	}
	o := HKDF(secret, nil, []byte("WhisperText"), 64)
	return &Session{LocalIK: id.Pub, RemoteIK: p.IK, LocalReg: reg, RemoteReg: p.RegID, AliceBase: p.Base,
		rk: o[:32], cks: o[32:], dhs: spk}
}

// Encrypt makes the next message; initial tells whether it is an initial message.
func (s *Session) Encrypt(pt []byte) (msg []byte, initial bool) {
	k := msgKeys(s.cks)
	body := append([]byte{0x33}, Enc(B(1, pub33(s.dhs.Pub)), V(2, uint64(s.ns)), V(3, uint64(s.prev)), B(4, CBCEncrypt(k.ck, k.iv, pt)))...)
	mac := HMAC(k.mac, append(append(pub33(s.LocalIK), pub33(s.RemoteIK)...), body...))[:8]
	s.cks = HMAC(s.cks, []byte{2})
	s.ns++
	wm := append(body, mac...)
	if s.pendingBase == nil {
		return wm, false
	}
	fs := []Field{V(5, uint64(s.LocalReg))}
	if s.pendingHasPK {
		fs = append(fs, V(1, uint64(s.pendingPK)))
	}
	fs = append(fs, V(6, uint64(s.pendingSPK)), B(2, pub33(*s.pendingBase)), B(3, pub33(s.LocalIK)), B(4, wm))
	return append([]byte{0x33}, Enc(fs...)...), true
}

// ExpectHeader returns the header the next message must not collide with.
func (s *Session) ExpectHeader() (counter, prev uint32) { return s.ns, s.prev }

// Decrypt decrypts a message; the state changes only on success.
func (s *Session) Decrypt(m *WM) ([]byte, error) {
	var ch *recvChain
	for _, c := range s.chains {
		if c.pub == m.Ratchet {
			ch = c
		}
	}
	isNew := ch == nil
	var newRK []byte
	if isNew {
		var ck []byte
		newRK, ck = kdfRoot(s.rk, DH(s.dhs.Priv, m.Ratchet))
		ch = &recvChain{pub: m.Ratchet, ck: ck, skipped: map[uint32]mk{}}
	}
	var k mk
	newck, n := ch.ck, ch.n
	var skipped []struct {
		i uint32
		k mk
	}
	if m.Counter < ch.n {
		var ok bool
		if k, ok = ch.skipped[m.Counter]; !ok {
			return nil, errors.New("duplicate")
		}
	} else {
		if m.Counter-ch.n > 2000 {
			return nil, errors.New("too far ahead")
		}
		for ; n < m.Counter; n++ {
			skipped = append(skipped, struct {
				i uint32
				k mk
			}{n, msgKeys(newck)})
			newck = HMAC(newck, []byte{2})
		}
		k = msgKeys(newck)
		newck = HMAC(newck, []byte{2})
		n++
	}
	body := m.Raw[:len(m.Raw)-8]
	mac := HMAC(k.mac, append(append(pub33(s.RemoteIK), pub33(s.LocalIK)...), body...))[:8]
	if !hmac.Equal(mac, m.Raw[len(m.Raw)-8:]) {
		return nil, errors.New("mac")
	}
	pt, err := CBCDecrypt(k.ck, k.iv, m.CT)
	if err != nil {
		return nil, err
	}
	if m.Counter < ch.n {
		delete(ch.skipped, m.Counter)
	} else {
		for _, x := range skipped {
			ch.skipped[x.i] = x.k
		}
		ch.ck, ch.n = newck, n
	}
	if isNew {
		s.chains = append(s.chains, ch)
		if len(s.chains) > 5 {
			s.chains = s.chains[1:]
		}
		s.prev = s.ns
		if s.prev > 0 {
			s.prev--
		}
		s.dhs = NewKeyPair()
		s.rk, s.cks = kdfRoot(newRK, DH(s.dhs.Priv, m.Ratchet))
		s.ns = 0
	}
	s.pendingBase = nil
	return pt, nil
}

// ---- signatures

var (
	p25519, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	order, _  = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	edD       = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), p25519)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, p25519)
	}()
	baseX, _ = new(big.Int).SetString("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a", 16)
	baseY, _ = new(big.Int).SetString("6666666666666666666666666666666666666666666666666666666666666658", 16)
)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int) (out [32]byte) {
	b := x.FillBytes(make([]byte, 32))
	for i := range b {
		out[31-i] = b[i]
	}
	return
}

// MontToEd converts a Montgomery u coordinate to an Edwards y with the given sign.
func MontToEd(u [32]byte, sign byte) ([32]byte, bool) {
	u[31] &= 0x7f
	x := le(u[:])
	den := new(big.Int).Add(x, big.NewInt(1))
	den.Mod(den, p25519)
	if den.Sign() == 0 {
		return [32]byte{}, false
	}
	y := new(big.Int).Sub(x, big.NewInt(1))
	y.Mul(y, new(big.Int).ModInverse(den, p25519))
	y.Mod(y, p25519)
	out := toLE(y)
	out[31] |= sign & 0x80
	return out, true
}

// Verify checks a signature made by a Curve25519 key, by way of Ed25519.
func Verify(pub [32]byte, msg []byte, sig [64]byte) bool {
	ed, ok := MontToEd(pub, sig[63])
	if !ok {
		return false
	}
	s := sig
	s[63] &= 0x7f
	return ed25519.Verify(ed[:], msg, s[:])
}

type point struct{ x, y *big.Int }

func add(a, b point) point {
	m := func(x, y *big.Int) *big.Int { z := new(big.Int).Mul(x, y); return z.Mod(z, p25519) }
	k := m(m(m(a.x, b.x), m(a.y, b.y)), edD)
	one := big.NewInt(1)
	xn := new(big.Int).Add(m(a.x, b.y), m(a.y, b.x))
	yn := new(big.Int).Add(m(a.y, b.y), m(a.x, b.x))
	dx := new(big.Int).Add(one, k)
	dy := new(big.Int).Sub(one, k)
	dy.Mod(dy, p25519)
	return point{m(xn, new(big.Int).ModInverse(dx, p25519)), m(yn, new(big.Int).ModInverse(dy, p25519))}
}

func mulBase(k *big.Int) point {
	r := point{big.NewInt(0), big.NewInt(1)}
	b := point{baseX, baseY}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = add(r, r)
		if k.Bit(i) == 1 {
			r = add(r, b)
		}
	}
	return r
}

func compress(p point) [32]byte {
	out := toLE(p.y)
	out[31] |= byte(p.x.Bit(0)) << 7
	return out
}

// Sign makes a signature with a Curve25519 private key.
func Sign(priv [32]byte, msg []byte, random [64]byte) [64]byte {
	a := le(priv[:])
	A := compress(mulBase(a))
	h := sha512.New()
	h.Write([]byte{0xfe})
	h.Write(bytes.Repeat([]byte{0xff}, 31))
	h.Write(priv[:])
	h.Write(msg)
	h.Write(random[:])
	r := new(big.Int).Mod(le(h.Sum(nil)), order)
	R := compress(mulBase(r))
	h.Reset()
	h.Write(R[:])
	h.Write(A[:])
	h.Write(msg)
	k := new(big.Int).Mod(le(h.Sum(nil)), order)
	s := new(big.Int).Mul(k, a)
	s.Add(s, r)
	s.Mod(s, order)
	var sig [64]byte
	copy(sig[:32], R[:])
	sb := toLE(s)
	copy(sig[32:], sb[:])
	sig[63] &= 0x7f
	sig[63] |= A[31] & 0x80
	return sig
}
