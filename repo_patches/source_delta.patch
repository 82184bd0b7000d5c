From e9f84c1332cdfe1eb6765bc97ade184faedd28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 001/130] fix: reject messages whose key fields do not have the
 length of a key

An empty PreKeyWhisperMessage or a key field of another length made the
loaders panic on bytes received from the network.
---
 axolotl/keys.go     | 5 +++++
 axolotl/messages.go | 9 ++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/axolotl/keys.go b/axolotl/keys.go
index d00fc36..6e03c2a 100644
--- a/axolotl/keys.go
+++ b/axolotl/keys.go
@@ -63,6 +63,11 @@ func (k *ECPublicKey) Serialize() []byte {
 	return append([]byte{djbType}, k.key[:]...)
 }
 
+// isSerializedKey tells whether b has the length of a key made by Serialize.
+func isSerializedKey(b []byte) bool {
+	return len(b) == 33
+}
+
 // ECKeyPair represents a public and private key pair.
 type ECKeyPair struct {
 	PrivateKey ECPrivateKey
diff --git a/axolotl/messages.go b/axolotl/messages.go
index 32317d6..bef6893 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -55,7 +55,7 @@ func LoadWhisperMessage(serialized []byte) (*WhisperMessage, error) {
 		return nil, err
 	}
 
-	if pwm.GetCiphertext() == nil || pwm.GetRatchetKey() == nil {
+	if pwm.GetCiphertext() == nil || !isSerializedKey(pwm.GetRatchetKey()) {
 		return nil, ErrIncompleteWhisperMessage
 	}
 
@@ -146,6 +146,9 @@ var ErrIncompletePreKeyWhisperMessage = errors.New("incomplete PreKeyWhisperMess
 
 // LoadPreKeyWhisperMessage creates a PreKeyWhisperMessage from serialized bytes.
 func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error) {
+	if len(serialized) == 0 {
+		return nil, ErrIncompletePreKeyWhisperMessage
+	}
 	version := highBitsToInt(serialized[0])
 
 	if version != currentVersion {
@@ -158,8 +161,8 @@ func LoadPreKeyWhisperMessage(serialized []byte) (*PreKeyWhisperMessage, error)
 		return nil, err
 	}
 
-	if ppkwm.GetBaseKey() == nil ||
-		ppkwm.GetIdentityKey() == nil ||
+	if !isSerializedKey(ppkwm.GetBaseKey()) ||
+		!isSerializedKey(ppkwm.GetIdentityKey()) ||
 		ppkwm.GetMessage() == nil ||
 		ppkwm.GetSignedPreKeyId() == 0 {
 		return nil, ErrIncompletePreKeyWhisperMessage
-- 
2.43.0


From fb1c4f039655761f4fcde1d9904d594c59ccebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 002/130] fix: return an error for AES-CBC data without a
 padded block

Decrypt panicked on data shorter than the IV or holding only the IV.
---
 axolotl/crypto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/axolotl/crypto.go b/axolotl/crypto.go
index 6aaaa42..50d86d2 100644
--- a/axolotl/crypto.go
+++ b/axolotl/crypto.go
@@ -31,13 +31,16 @@ func Decrypt(key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	mode.CryptBlocks(ciphertext, ciphertext)
 	pad := ciphertext[len(ciphertext)-1]
-	if pad > aes.BlockSize {
-		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
+	if pad == 0 || pad > aes.BlockSize {
+		return nil, fmt.Errorf("pad value (%d) not between 1 and the AES blocksize (%d)", pad, aes.BlockSize)
 	}
 	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
 }
-- 
2.43.0


From 73503e37c252daffd3e052237e0fe07488f3b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 003/130] fix: keep every session state intact when a message
 belongs to another one

Trying a message on a session state advanced its ratchet even when the
message did not authenticate, so that a message of an archived session
broke the current one, and a state that was promoted stayed in the list
of archived states in a stale copy.
---
 axolotl/session.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3283110..739f2d1 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -23,6 +23,10 @@ func newSessionState(ss *protobuf.SessionStructure) *sessionState {
 	return &sessionState{SS: ss}
 }
 
+func (ss *sessionState) clone() *sessionState {
+	return newSessionState(proto.Clone(ss.SS).(*protobuf.SessionStructure))
+}
+
 func (ss *sessionState) setAliceBaseKey(key []byte) {
 	ss.SS.AliceBaseKey = key
 }
@@ -607,14 +611,20 @@ func (err InvalidMessageError) Error() string {
 }
 
 func (sc *SessionCipher) decrypt(sr *SessionRecord, ciphertext *WhisperMessage) ([]byte, error) {
-	b, err := sr.sessionState.decrypt(ciphertext)
+	// A state is only replaced when it decrypts the message: an attempt that
+	// fails must not advance its chains.
+	ss := sr.sessionState.clone()
+	b, err := ss.decrypt(ciphertext)
 	if err == nil {
+		sr.sessionState = ss
 		return b, nil
 	}
 
-	for _, ss := range sr.PreviousStates {
+	for i, previous := range sr.PreviousStates {
+		ss := previous.clone()
 		b, err := ss.decrypt(ciphertext)
 		if err == nil {
+			sr.PreviousStates = append(sr.PreviousStates[:i], sr.PreviousStates[i+1:]...)
 			sr.promoteState(ss)
 			return b, nil
 		}
-- 
2.43.0


From e0147d5fb5a7f093850090a6485a702cb4c9388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 004/130] fix: store the identity and use up the prekey only
 for an authentic message

The identity key of an initial message was saved before the message was
decrypted, so that anybody could pin a key of their choice, and the
one-time prekey was removed before the session was stored, so that a
failure to store lost the message for good.
---
 axolotl/session.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 739f2d1..3fd1e76 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -376,6 +376,7 @@ func (err PreKeyNotFoundError) Error() string {
 }
 
 // BuildReceiverSession creates a new session from a received PreKeyWhisperMessage.
+// Nothing is stored: the caller does so once the message has authenticated.
 func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWhisperMessage) (uint32, error) {
 	if pkwm.Version != currentVersion {
 		return 0, UnsupportedVersionError{pkwm.Version}
@@ -425,11 +426,6 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	sr.sessionState.setRemoteRegistrationID(pkwm.RegistrationID)
 	sr.sessionState.setAliceBaseKey(pkwm.BaseKey.Serialize())
 
-	err = sb.identityStore.SaveIdentity(sb.recipientID, theirIdentityKey)
-	if err != nil {
-		return 0, err
-	}
-
 	return pkwm.PreKeyID, nil
 }
 
@@ -700,13 +696,18 @@ func (sc *SessionCipher) SessionDecryptPreKeyWhisperMessage(ciphertext *PreKeyWh
 	if err != nil {
 		return nil, err
 	}
-	if pkid != 0xFFFFFF {
-		sc.PreKeyStore.RemovePreKey(pkid)
+	// Only a message that has authenticated may change what is stored.
+	err = sc.Builder.identityStore.SaveIdentity(sc.RecipientID, sr.sessionState.getRemoteIdentityPublic())
+	if err != nil {
+		return nil, err
 	}
 	err = sc.SessionStore.StoreSession(sc.RecipientID, sc.DeviceID, sr)
 	if err != nil {
 		return nil, err
 	}
+	if pkid != 0 && pkid != 0xFFFFFF {
+		sc.PreKeyStore.RemovePreKey(pkid)
+	}
 	return plaintext, nil
 }
 
-- 
2.43.0


From cfe6154c6bb0e29d94f5e914fd3071038a07fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 005/130] fix: return an error when encrypting without a
 session

It panicked, and an error making an initial message was dropped.
---
 axolotl/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3fd1e76..dd2a7bf 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -529,6 +529,9 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 		return nil, 0, err
 	}
 	ss := sr.sessionState
+	if !ss.hasSenderChain() {
+		return nil, 0, ErrUninitializedSession
+	}
 	chainKey := ss.getSenderChainKey()
 	messageKeys, err := chainKey.getMessageKeys()
 	if err != nil {
@@ -556,7 +559,7 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 			items.preKeyID, uint32(items.signedPreKeyID), items.baseKey,
 			ss.getLocalIdentityPublic(), wm)
 		if err != nil {
-			return nil, 0, nil
+			return nil, 0, err
 		}
 		msg = pkwm.serialize()
 		msgType = int32(signalservice.Envelope_PREKEY_BUNDLE)
-- 
2.43.0


From 8f8f0941a8efda99b2c97171678231751ba51858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 006/130] fix: reject a prekey bundle without a signed prekey

It made BuildSenderSession panic.
---
 axolotl/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index dd2a7bf..c04b873 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -445,7 +445,7 @@ func (sb *SessionBuilder) BuildSenderSession(pkb *PreKeyBundle) error {
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return NotTrustedError{sb.recipientID}
 	}
-	if pkb.SignedPreKeyPublic != nil &&
+	if pkb.SignedPreKeyPublic == nil ||
 		!curve25519sign.Verify(*theirIdentityKey.Key(), pkb.SignedPreKeyPublic.Serialize(), &pkb.SignedPreKeySignature) {
 		return InvalidSignatureError{pkb}
 	}
-- 
2.43.0


From be8574592a8b3ed6f411ffaf68a81d9a7d2e5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 007/130] fix: leave out the prekey id of an initial message
 made without a one-time prekey

Peers take the presence of the field to mean that a one-time prekey was
used and reject a message naming prekey 0.
---
 axolotl/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/axolotl/messages.go b/axolotl/messages.go
index bef6893..fb5e826 100644
--- a/axolotl/messages.go
+++ b/axolotl/messages.go
@@ -190,12 +190,14 @@ func newPreKeyWhisperMessage(messageVersion byte, registrationID, preKeyID, sign
 
 	ppkwm := &protobuf.PreKeySignalMessage{
 		RegistrationId: &registrationID,
-		PreKeyId:       &preKeyID,
 		SignedPreKeyId: &signedPreKeyID,
 		BaseKey:        baseKey.Serialize(),
 		IdentityKey:    identityKey.Serialize(),
 		Message:        wm.serialize(),
 	}
+	if preKeyID != 0 {
+		ppkwm.PreKeyId = &preKeyID
+	}
 
 	message, err := proto.Marshal(ppkwm)
 	if err != nil {
-- 
2.43.0


From f233627e725bdf9850dd6b8d7b496d9330c1dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 008/130] fix: do not change the signature that is verified

Verify cleared the sign bit in the caller's copy, so that verifying the
same signature a second time failed.
---
 curve25519sign/curve25519sign.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 917e792..06eab60 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -93,8 +93,9 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	var A_ed [32]byte
 	edwards25519.FeToBytes(&A_ed, &edY)
 
-	A_ed[31] |= signature[63] & 0x80
-	signature[63] &= 0x7F
+	sig := *signature
+	A_ed[31] |= sig[63] & 0x80
+	sig[63] &= 0x7F
 
-	return ed25519.Verify(&A_ed, message, signature)
+	return ed25519.Verify(&A_ed, message, &sig)
 }
-- 
2.43.0


From 8b13daeb3c161029d0f511105d444a7320c1fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 009/130] fix: reject a second encoding of the base key of an
 initial message

The top bit of a Curve25519 public key does not matter for the key
agreement. An initial message that used no one-time prekey could be
replayed with that bit flipped, because the session it made was not
recognised by the changed key.
---
 axolotl/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/axolotl/session.go b/axolotl/session.go
index c04b873..3a79d16 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -385,6 +385,11 @@ func (sb *SessionBuilder) BuildReceiverSession(sr *SessionRecord, pkwm *PreKeyWh
 	if !sb.identityStore.IsTrustedIdentity(sb.recipientID, theirIdentityKey) {
 		return 0, NotTrustedError{sb.recipientID}
 	}
+	// The key agreement ignores the top bit of a public key, so that a second
+	// encoding of the base key would make a second session for a replay.
+	if pkwm.BaseKey.Key()[31]&0x80 != 0 {
+		return 0, InvalidMessageError{"base key is not canonical"}
+	}
 	if sr.hasSessionState(uint32(pkwm.Version), pkwm.BaseKey.Serialize()) {
 		return 0, nil
 	}
-- 
2.43.0


From 5752f2b2595e7f3eb15397b2b1f14dfe401f08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 010/130] fix: report a store record shorter than its MAC as an
 error

Reading it panicked.
---
 store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store.go b/store.go
index b87b88b..17bf7ab 100644
--- a/store.go
+++ b/store.go
@@ -151,6 +151,9 @@ func (s *store) decrypt(ciphertext []byte) ([]byte, error) {
 	}
 
 	macPos := len(ciphertext) - 32
+	if macPos < 0 {
+		return nil, ErrStoreBadMAC
+	}
 
 	if !verifyMAC(s.macKey, ciphertext[:macPos], ciphertext[macPos:]) {
 		return nil, ErrStoreBadMAC
-- 
2.43.0


From 27153bedc03411cdd482934d5ceafdfdc62acf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 011/130] fix: return an error for attachment ciphertexts
 without a padded block

aesDecrypt panicked on an empty ciphertext and on one holding only the IV.
---
 crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index fd29e93..3820e67 100644
--- a/crypto.go
+++ b/crypto.go
@@ -93,13 +93,16 @@ func aesDecrypt(key, ciphertext []byte) ([]byte, error) {
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
+	if len(ciphertext) < 2*aes.BlockSize {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	mode.CryptBlocks(ciphertext, ciphertext)
 	pad := ciphertext[len(ciphertext)-1]
-	if pad > aes.BlockSize {
-		return nil, fmt.Errorf("pad value (%d) larger than AES blocksize (%d)", pad, aes.BlockSize)
+	if pad == 0 || pad > aes.BlockSize {
+		return nil, fmt.Errorf("pad value (%d) not between 1 and the AES blocksize (%d)", pad, aes.BlockSize)
 	}
 	return ciphertext[aes.BlockSize : len(ciphertext)-int(pad)], nil
 }
@@ -115,6 +118,9 @@ func aesCtrNoPaddingDecrypt(key, ciphertext []byte) ([]byte, error) {
 		log.Debugln("[textsecure] aesDecrypt ciphertext not multiple of AES blocksize", length)
 		return nil, errors.New("ciphertext not multiple of AES blocksize")
 	}
+	if len(ciphertext) == 0 {
+		return nil, errors.New("ciphertext too short")
+	}
 
 	iv := ciphertext[:aes.BlockSize]
 	mode := cipher.NewCBCDecrypter(block, iv)
-- 
2.43.0


From fc3bc0383e719899a25298e8ab774267e4424f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 012/130] fix: report an unreadable session as an error

It was taken for an absent session and overwritten by the next one.
---
 store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 17bf7ab..9d96486 100644
--- a/store.go
+++ b/store.go
@@ -421,9 +421,12 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return axolotl.NewSessionRecord(), nil
 	}
+	if err != nil {
+		return nil, err
+	}
 	record, err := axolotl.LoadSessionRecord(b)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fb69ce7080f609ebb8d92b9dbd755b6777846a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 013/130] fix: list only the device sessions of the given
 recipient

GetSubDeviceSessions returned the device ids of every stored session.
---
 store.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/store.go b/store.go
index 9d96486..439b99b 100644
--- a/store.go
+++ b/store.go
@@ -407,14 +407,23 @@ func (s *store) sessionFilePath(recipientID string, deviceID uint32) string {
 func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 	sessions := []uint32{}
 
-	filepath.Walk(s.sessionsDir, func(path string, fi os.FileInfo, err error) error {
-		if !fi.IsDir() {
-			i := strings.LastIndex(path, "_")
-			id, _ := strconv.Atoi(path[i+1:])
-			sessions = append(sessions, uint32(id))
+	entries, err := os.ReadDir(s.sessionsDir)
+	if err != nil {
+		log.Errorln("[textsecure] cannot list sessions", err)
+		return sessions
+	}
+	for _, entry := range entries {
+		name := entry.Name()
+		i := strings.LastIndex(name, "_")
+		if i < 0 || name[:i] != recipientID {
+			continue
+		}
+		id, err := strconv.ParseUint(name[i+1:], 10, 32)
+		if err != nil {
+			continue
 		}
-		return nil
-	})
+		sessions = append(sessions, uint32(id))
+	}
 	return sessions
 }
 
-- 
2.43.0


From 819588639cca0145218e57b321b1b10a7bdef98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 014/130] fix: replace store records atomically

A write that was cut short, by a crash or a full disk, destroyed the
record that it was to replace.
---
 store.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 439b99b..b96f023 100644
--- a/store.go
+++ b/store.go
@@ -32,6 +32,7 @@ type store struct {
 	signedPreKeysDir string
 	identityDir      string
 	sessionsDir      string
+	tmpDir           string
 
 	unencrypted bool
 	aesKey      []byte
@@ -46,6 +47,7 @@ func newStore(password, path string) (*store, error) {
 		signedPreKeysDir: filepath.Join(path, "signed_prekeys"),
 		identityDir:      filepath.Join(path, "identity"),
 		sessionsDir:      filepath.Join(path, "sessions"),
+		tmpDir:           filepath.Join(path, "tmp"),
 		unencrypted:      password == "",
 	}
 
@@ -62,6 +64,9 @@ func newStore(password, path string) (*store, error) {
 	if err := os.MkdirAll(ts.sessionsDir, 0700); err != nil {
 		return nil, err
 	}
+	if err := os.MkdirAll(ts.tmpDir, 0700); err != nil {
+		return nil, err
+	}
 
 	// If there is a password, generate the keys from it
 	if !ts.unencrypted {
@@ -177,7 +182,30 @@ func (s *store) writeFile(path string, b []byte) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(path, b, 0600)
+	return s.replaceFile(path, b)
+}
+
+// replaceFile writes a file under a temporary name and puts it in place in one
+// step, so that an interrupted write leaves the previous content.
+func (s *store) replaceFile(path string, b []byte) error {
+	f, err := ioutil.TempFile(s.tmpDir, "record")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // Identity store
-- 
2.43.0


From 2334b7ec3f7736f35921916a5e06d82b60efbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 015/130] fix: do not use reserved ids for prekeys

A batch of one-time prekeys could include the ids 0 and 0xFFFFFF or go
beyond, so that the last resort key was mistaken for another one, and the
signed prekey could get the id 0, with which nobody can start a session.
---
 prekeys.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 0e01116..b936787 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -81,8 +81,10 @@ var signedKey *axolotl.SignedPreKeyRecord
 
 var preKeyBatchSize = 100
 
+// getNextPreKeyID returns the first id of a batch. The batch leaves out the
+// ids 0, which stands for no prekey, and that of the last resort prekey.
 func getNextPreKeyID() uint32 {
-	return randID()
+	return 1 + randID()%(lastResortPreKeyID-uint32(preKeyBatchSize))
 }
 
 func generatePreKeys() error {
@@ -105,8 +107,9 @@ func generatePreKeys() error {
 	return nil
 }
 
+// getNextSignedPreKeyID returns an id other than 0, which peers refuse.
 func getNextSignedPreKeyID() uint32 {
-	return randID()
+	return 1 + randID()%0xffffff
 }
 
 func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
-- 
2.43.0


From 730583f4e539be865ee304745a6397590d2b73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 016/130] fix: find the last resort prekey by its id and report
 unreadable prekeys

The record with the last file name was taken for it, and a prekey that
could not be read led to a panic.
---
 prekeys.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index b936787..67fc6a3 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -5,6 +5,7 @@
 package textsecure
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -129,13 +130,18 @@ func generatePreKeyState() error {
 	if err != nil {
 		return err
 	}
-	preKeys = &preKeyState{}
-	npkr := len(preKeyRecords)
-	preKeys.PreKeys = make([]*preKeyEntity, npkr-1)
-	for i := range preKeys.PreKeys {
-		preKeys.PreKeys[i] = generatepreKeyEntity(preKeyRecords[i])
+	preKeys = &preKeyState{PreKeys: []*preKeyEntity{}}
+	for _, record := range preKeyRecords {
+		entity := generatepreKeyEntity(record)
+		if entity.ID == lastResortPreKeyID {
+			preKeys.LastResortKey = entity
+		} else {
+			preKeys.PreKeys = append(preKeys.PreKeys, entity)
+		}
+	}
+	if preKeys.LastResortKey == nil {
+		return errors.New("no last resort prekey")
 	}
-	preKeys.LastResortKey = generatepreKeyEntity(preKeyRecords[npkr-1])
 	preKeys.IdentityKey = helpers.Base64EncWithoutPadding(identityKey.PublicKey.Serialize())
 	preKeys.SignedPreKey = generateSignedPreKeyEntity(signedKey)
 	return nil
@@ -143,17 +149,18 @@ func generatePreKeyState() error {
 
 func loadPreKeys() error {
 	preKeyRecords = []*axolotl.PreKeyRecord{}
-	count := 0
 	err := filepath.Walk(textSecureStore.preKeysDir, func(path string, fi os.FileInfo, err error) error {
 		if !fi.IsDir() {
-			preKeyRecords = append(preKeyRecords, &axolotl.PreKeyRecord{})
 			_, fname := filepath.Split(path)
 			id, err := filenameToID(fname)
 			if err != nil {
 				return err
 			}
-			preKeyRecords[count], _ = textSecureStore.LoadPreKey(uint32(id))
-			count++
+			record, err := textSecureStore.LoadPreKey(uint32(id))
+			if err != nil {
+				return err
+			}
+			preKeyRecords = append(preKeyRecords, record)
 		}
 		return nil
 
-- 
2.43.0


From 28d75461c7adce10c3717a10ccf5ec7cd09a7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 017/130] fix: accept only the reduced form of a signature

---
 curve25519sign/curve25519sign.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/curve25519sign/curve25519sign.go b/curve25519sign/curve25519sign.go
index 06eab60..d851f61 100644
--- a/curve25519sign/curve25519sign.go
+++ b/curve25519sign/curve25519sign.go
@@ -97,5 +97,27 @@ func Verify(publicKey [32]byte, message []byte, signature *[64]byte) bool {
 	A_ed[31] |= sig[63] & 0x80
 	sig[63] &= 0x7F
 
+	if !isReduced(sig[32:]) {
+		return false
+	}
+
 	return ed25519.Verify(&A_ed, message, &sig)
 }
+
+// order is the order of the base point, in little-endian form.
+var order = [32]byte{
+	0xED, 0xD3, 0xF5, 0x5C, 0x1A, 0x63, 0x12, 0x58,
+	0xD6, 0x9C, 0xF7, 0xA2, 0xDE, 0xF9, 0xDE, 0x14,
+	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+	0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10}
+
+// isReduced reports whether the scalar is smaller than the order. Accepting
+// other scalars would make several signatures valid in place of one.
+func isReduced(s []byte) bool {
+	for i := len(order) - 1; i >= 0; i-- {
+		if s[i] != order[i] {
+			return s[i] < order[i]
+		}
+	}
+	return false
+}
-- 
2.43.0


From ebcc72b6080c8e175eb68af4fc506794bb7bfb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 018/130] fix: compare fingerprints that are equal

---
 fingerprint/fingerprint_numbers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fingerprint/fingerprint_numbers.go b/fingerprint/fingerprint_numbers.go
index a881ca2..b5222f5 100644
--- a/fingerprint/fingerprint_numbers.go
+++ b/fingerprint/fingerprint_numbers.go
@@ -16,9 +16,9 @@ func CreateFingerprintNumbers(localFingerprint []byte, remoteFingerprint []byte)
 
 func compareFingerprintBlocks(localBlocks []string, remoteBlocks []string) int {
 	result := len(localBlocks) - len(remoteBlocks)
-	if result == 0 {
+	if result == 0 && len(localBlocks) > 0 {
 		result = strings.Compare(localBlocks[0], remoteBlocks[0])
-		if result == 0 && len(localBlocks) > 0 {
+		if result == 0 {
 			return compareFingerprintBlocks(localBlocks[1:], remoteBlocks[1:])
 		}
 	}
-- 
2.43.0


From b23253dd2b7d6aa432ba75be9412a17d89cd9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 019/130] fix: report a malformed key as an error when
 computing a fingerprint

---
 fingerprint/fingerprint.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fingerprint/fingerprint.go b/fingerprint/fingerprint.go
index ae30731..cc6c275 100644
--- a/fingerprint/fingerprint.go
+++ b/fingerprint/fingerprint.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"crypto/sha512"
 	"encoding/binary"
+	"errors"
 
 	"fmt"
 	"hash"
@@ -37,6 +38,10 @@ func CreateFingerprint(version uint32, localStableIdentifier []byte, localIdenti
 //I'm not particular happy with the name "CreateFingerprintSimple"
 func CreateFingerprintSimple(version uint32, local string, localKey []byte, remote string, remoteKey []byte) ([]string, []byte, error) {
 
+	if !validKey(localKey) || !validKey(remoteKey) {
+		return nil, nil, ErrInvalidKey
+	}
+
 	localStableIdentifier, localECKeys := castParameters(local, localKey)
 
 	remoteStableIdentifier, remoteECKeys := castParameters(remote, remoteKey)
@@ -44,6 +49,14 @@ func CreateFingerprintSimple(version uint32, local string, localKey []byte, remo
 	return CreateFingerprint(version, localStableIdentifier, localECKeys, remoteStableIdentifier, remoteECKeys)
 }
 
+// ErrInvalidKey is returned for identity keys that are not serialized public keys.
+var ErrInvalidKey = errors.New("invalid identity key")
+
+// validKey reports whether key is a serialized public key.
+func validKey(key []byte) bool {
+	return len(key) == 33 && key[0] == 5
+}
+
 func castParameters(identifier string, key []byte) ([]byte, []axolotl.ECPublicKey) {
 	ECKey := *axolotl.NewECPublicKey(key[1:])
 	ECKeys := []axolotl.ECPublicKey{ECKey}
-- 
2.43.0


From 806b5d72c96dec0ee7312a9459a15b13cb5269b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 020/130] fix: report an incomplete scanned fingerprint as an
 error

---
 fingerprint/qr_fingerprint.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fingerprint/qr_fingerprint.go b/fingerprint/qr_fingerprint.go
index 5630f63..8c602b1 100644
--- a/fingerprint/qr_fingerprint.go
+++ b/fingerprint/qr_fingerprint.go
@@ -1,6 +1,8 @@
 package fingerprint
 
 import (
+	"errors"
+
 	proto "github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/axolotl/protobuf"
 	"golang.org/x/text/encoding/charmap"
@@ -46,11 +48,19 @@ func getMarshalledCombinedFingerprints(version uint32, localFingerprint []byte,
 
 //based on https://github.com/signalapp/Signal-Android/blob/6f39f9849a002f6361d192a00fbd7c52ffaf3bba/app/src/main/java/org/thoughtcrime/securesms/VerifyIdentityActivity.java#L403
 //and https://github.com/signalapp/libsignal-protocol-java/blob/3662b6d705ae4162ad8b3a242daf35171edbb068/java/src/main/java/org/whispersystems/libsignal/fingerprint/ScannableFingerprint.java#L54
+// ErrIncompleteFingerprint is returned for scanned data that is not a complete fingerprint.
+var ErrIncompleteFingerprint = errors.New("incomplete fingerprint")
+
 func ScanQRFingerprint(qrCodeContent []byte) (*textsecure.CombinedFingerprints, error) {
 	combinedFingerprints := &textsecure.CombinedFingerprints{}
 	err := proto.Unmarshal(qrCodeContent, combinedFingerprints)
 	if err != nil {
 		return nil, err
 	}
+	if combinedFingerprints.Version == nil ||
+		len(combinedFingerprints.GetLocalFingerprint().GetContent()) != 32 ||
+		len(combinedFingerprints.GetRemoteFingerprint().GetContent()) != 32 {
+		return nil, ErrIncompleteFingerprint
+	}
 	return combinedFingerprints, nil
 }
-- 
2.43.0


From 5c2034348a4c20764beafa0effa91b60673f0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 021/130] fix: report a refused upload form as an error

---
 attachments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attachments.go b/attachments.go
index 6f098df..1c479c0 100644
--- a/attachments.go
+++ b/attachments.go
@@ -180,6 +180,9 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a attachmentV3UploadAttributes
 	err = dec.Decode(&a)
-- 
2.43.0


From 8df110bdc3f6099a627b59fdacdaad4ae6c08a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 022/130] fix: report a malformed upload location as an error

---
 attachments.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/attachments.go b/attachments.go
index 1c479c0..c081a9e 100644
--- a/attachments.go
+++ b/attachments.go
@@ -192,12 +192,16 @@ func getAttachmentV3UploadAttributes() (*attachmentV3UploadAttributes, error) {
 	return &a, nil
 }
 
-func relativePath(url string) string {
+// relativePath removes the scheme and host of an absolute URL.
+func relativePath(url string) (string, error) {
 	parts := strings.Split(url, "/")
-	return "/" + strings.Join(parts[3:], "/")
+	if len(parts) < 4 {
+		return "", fmt.Errorf("not the URL of an upload location: %q", url)
+	}
+	return "/" + strings.Join(parts[3:], "/"), nil
 }
 
-func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() string {
+func (a *attachmentV3UploadAttributes) relativeSignedUploadLocation() (string, error) {
 	return relativePath(a.SignedUploadLocation)
 }
 
@@ -206,8 +210,12 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 	if err != nil {
 		return "", nil, err
 	}
+	signedLocation, err := uploadAttributes.relativeSignedUploadLocation()
+	if err != nil {
+		return "", nil, err
+	}
 	resp, err := transport.CdnTransport.PostWithHeaders(
-		uploadAttributes.relativeSignedUploadLocation(),
+		signedLocation,
 		[]byte{},
 		"application/octet-stream",
 		uploadAttributes.Headers)
@@ -218,8 +226,11 @@ func allocateAttachmentV3() (string, *attachmentV3UploadAttributes, error) {
 		log.Debug("[textsecure] allocateAttachmentV3 error response ", resp.Body)
 		return "", nil, resp
 	}
-	location := resp.Header.Get("Location")
-	return relativePath(location), uploadAttributes, nil
+	location, err := relativePath(resp.Header.Get("Location"))
+	if err != nil {
+		return "", nil, err
+	}
+	return location, uploadAttributes, nil
 }
 
 func getAttachmentLocation(id uint64, key string, cdnNumber uint32) (string, error) {
-- 
2.43.0


From a7e38c1c57efefbb43bf394a68c833d651b67557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 023/130] fix: report a failed attachment download as an error

---
 attachments.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/attachments.go b/attachments.go
index c081a9e..34cec47 100644
--- a/attachments.go
+++ b/attachments.go
@@ -26,6 +26,9 @@ func getAttachment(url string) (io.ReadCloser, error) {
 	customTransport.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
 	c := &http.Client{Transport: customTransport}
 	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		return nil, err
+	}
 	req.Header.Add("Host", SERVICE_REFLECTOR_HOST)
 	req.Header.Add("Content-Type", "application/octet-stream")
 
@@ -34,6 +37,11 @@ func getAttachment(url string) (io.ReadCloser, error) {
 		return nil, err
 	}
 
+	if resp.StatusCode < 200 || resp.StatusCode > 299 {
+		resp.Body.Close()
+		return nil, fmt.Errorf("downloading attachment: status code %d", resp.StatusCode)
+	}
+
 	return resp.Body, nil
 }
 
-- 
2.43.0


From f5a5089237c816725c7c1d7e0988d99a32b7abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 024/130] fix: report a short attachment or attachment key as
 an error

---
 attachments.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/attachments.go b/attachments.go
index 34cec47..4cd3169 100644
--- a/attachments.go
+++ b/attachments.go
@@ -103,7 +103,13 @@ func uploadVoiceNote(r io.Reader, ct string) (*attachmentPointerV3, error) {
 // ErrInvalidMACForAttachment signals that the downloaded attachment has an invalid MAC.
 var ErrInvalidMACForAttachment = errors.New("invalid MAC for attachment")
 
+// ErrInvalidDigestForAttachment signals that the downloaded attachment does not match the digest sent with it.
+var ErrInvalidDigestForAttachment = errors.New("invalid digest for attachment")
+
 func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error) {
+	if len(a.GetKey()) != 64 {
+		return nil, errors.New("invalid key for attachment")
+	}
 	loc, err := getAttachmentLocation(a.GetCdnId(), a.GetCdnKey(), a.GetCdnNumber())
 	if err != nil {
 		return nil, err
@@ -120,6 +126,9 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 	}
 
 	l := len(b) - 32
+	if l < 0 {
+		return nil, ErrInvalidMACForAttachment
+	}
 	if !verifyMAC(a.Key[32:], b[:l], b[l:]) {
 		return nil, ErrInvalidMACForAttachment
 	}
-- 
2.43.0


From d5a56279f036e402d13d4864d973b9240a6358c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 025/130] fix: verify the digest of a downloaded attachment

---
 attachments.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/attachments.go b/attachments.go
index 4cd3169..072e1e4 100644
--- a/attachments.go
+++ b/attachments.go
@@ -133,13 +133,18 @@ func handleSingleAttachment(a *textsecure.AttachmentPointer) (*Attachment, error
 		return nil, ErrInvalidMACForAttachment
 	}
 
+	if digest := a.GetDigest(); len(digest) > 0 {
+		sum := sha256.Sum256(b)
+		if !bytes.Equal(sum[:], digest) {
+			return nil, ErrInvalidDigestForAttachment
+		}
+	}
+
 	b, err = aesDecrypt(a.Key[:32], b[:l])
 	if err != nil {
 		return nil, err
 	}
 
-	// TODO: verify digest
-
 	return &Attachment{bytes.NewReader(b), a.GetContentType(), a.GetFileName()}, nil
 }
 
-- 
2.43.0


From f5431bda35ed6df4750143d33754fbea390df931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 026/130] fix: report a malformed one-time prekey of a peer as
 an error

---
 prekeys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prekeys.go b/prekeys.go
index 67fc6a3..0f3e821 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -186,10 +186,10 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	} else {
 		preKeyId = d.PreKey.ID
 		decPK, err := decodeKey(d.PreKey.PublicKey)
-		preKey = axolotl.NewECPublicKey(decPK)
 		if err != nil {
 			return nil, err
 		}
+		preKey = axolotl.NewECPublicKey(decPK)
 	}
 
 	if d.SignedPreKey == nil {
-- 
2.43.0


From e112195aa84ccae367de0940651f0a5856f3168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 027/130] fix: refuse prekeys of another device than the one
 asked for

---
 prekeys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prekeys.go b/prekeys.go
index 0f3e821..052404c 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -179,6 +179,9 @@ func makePreKeyBundle(UUID string, deviceID uint32) (*axolotl.PreKeyBundle, erro
 	}
 
 	d := pkr.Devices[0]
+	if d.DeviceID != deviceID {
+		return nil, fmt.Errorf("prekeys of device %d instead of %d of contact %s", d.DeviceID, deviceID, UUID)
+	}
 	preKeyId := uint32(0)
 	var preKey *axolotl.ECPublicKey
 	if d.PreKey == nil {
-- 
2.43.0


From b624c8f1cf742f7853636ae94e56763a473ff601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 028/130] fix: report an unreadable prekey answer as an error

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 9f23563..4328d33 100644
--- a/server.go
+++ b/server.go
@@ -576,7 +576,10 @@ func getPreKeys(UUID string, deviceID string) (*preKeyResponse, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	k := &preKeyResponse{}
-	dec.Decode(k)
+	err = dec.Decode(k)
+	if err != nil {
+		return nil, err
+	}
 
 	return k, nil
 }
-- 
2.43.0


From 1fdc85890fb7717c592cd2f240fb54cee9b0ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 029/130] fix: return the error of a sync message that could
 not be sent

---
 sender.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sender.go b/sender.go
index 177a6ee..2ccab88 100644
--- a/sender.go
+++ b/sender.go
@@ -84,7 +84,10 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	}
 
 	resp, err := buildAndSendMessage(user, padMessage(b), true, timestamp)
-	return resp.Timestamp, err
+	if err != nil {
+		return 0, err
+	}
+	return resp.Timestamp, nil
 }
 
 func sendVerifiedMessage(verified *signalservice.Verified, unidentifiedAccess *unidentifiedAccess.UnidentifiedAccess) error {
-- 
2.43.0


From 59982067d47227ee43cd3927e0339bfec6e7abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 030/130] fix: give up sending when the server keeps reporting
 other devices

---
 server.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 4328d33..f6dc281 100644
--- a/server.go
+++ b/server.go
@@ -883,7 +883,15 @@ var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)
 
 var deviceLists = map[string][]uint32{}
 
+// maxSendAttempts limits how often a message is sent again because the server
+// reported other devices than the ones it was encrypted for.
+const maxSendAttempts = 10
+
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
+	return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, 1)
+}
+
+func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64, attempt int) (*sendMessageResponse, error) {
 
 	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
 	if err != nil {
@@ -910,6 +918,9 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 		return nil, err
 	}
 
+	if attempt >= maxSendAttempts && resp.IsError() {
+		return nil, resp
+	}
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
@@ -929,7 +940,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 			}
 		}
 		deviceLists[uuid] = append(devs, j.MissingDevices...)
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, attempt+1)
 	}
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
@@ -943,7 +954,7 @@ func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timesta
 			}
 			textSecureStore.DeleteSession(uuidCleanup, id)
 		}
-		return buildAndSendMessage(uuid, paddedMessage, isSync, timestamp)
+		return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, attempt+1)
 	}
 	if resp.IsError() {
 		return nil, resp
-- 
2.43.0


From ee2b077570014d3134712932e2cc0a8847d77342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 031/130] fix: send one message to a device that is reported
 missing twice

---
 server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index f6dc281..006fca2 100644
--- a/server.go
+++ b/server.go
@@ -939,7 +939,19 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 				devs = append(devs, id)
 			}
 		}
-		deviceLists[uuid] = append(devs, j.MissingDevices...)
+		for _, id := range j.MissingDevices {
+			known := false
+			for _, did := range devs {
+				if did == id {
+					known = true
+					break
+				}
+			}
+			if !known {
+				devs = append(devs, id)
+			}
+		}
+		deviceLists[uuid] = devs
 		return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, attempt+1)
 	}
 	if resp.Status == staleDevicesStatus {
-- 
2.43.0


From 6f22a49eb624bc302353d8d31bb0210203e7c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 032/130] fix: report an unreadable list of devices as an error

---
 server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 006fca2..5413151 100644
--- a/server.go
+++ b/server.go
@@ -924,7 +924,10 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 	if resp.Status == mismatchedDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonMismatchedDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		devs := []uint32{}
 		for _, id := range deviceLists[uuid] {
@@ -957,7 +960,10 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 	if resp.Status == staleDevicesStatus {
 		dec := json.NewDecoder(resp.Body)
 		var j jsonStaleDevices
-		dec.Decode(&j)
+		err = dec.Decode(&j)
+		if err != nil {
+			return nil, err
+		}
 		log.Debugf("[textsecure] Stale devices: %+v\n", j)
 		for _, id := range j.StaleDevices {
 			uuidCleanup, err := recID(uuid)
-- 
2.43.0


From 74396b490ed3e450814d419275af7539aeff6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 033/130] fix: hand all flags of a message to the application

---
 textsecure.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 0dc7701..8cbbb51 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -492,9 +492,8 @@ var EndSessionFlag uint32 = 1
 var ProfileKeyUpdatedFlag = signalservice.DataMessage_PROFILE_KEY_UPDATE
 
 func handleFlags(src string, dm *signalservice.DataMessage) (uint32, error) {
-	flags := uint32(0)
-	if dm.GetFlags() == uint32(signalservice.DataMessage_END_SESSION) {
-		flags = EndSessionFlag
+	flags := dm.GetFlags()
+	if flags&uint32(signalservice.DataMessage_END_SESSION) != 0 {
 		srcClean, err := recID(src)
 		if err != nil {
 			return 0, err
@@ -502,12 +501,11 @@ func handleFlags(src string, dm *signalservice.DataMessage) (uint32, error) {
 		textSecureStore.DeleteAllSessions(srcClean)
 		textSecureStore.DeleteAllSessions(src)
 	}
-	if dm.GetFlags() == uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) {
+	if flags&uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) != 0 {
 		err := contacts.UpdateProfileKey(src, dm.GetProfileKey())
 		if err != nil {
 			return 0, err
 		}
-		flags = uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE)
 	}
 	return flags, nil
 }
-- 
2.43.0


From 7d6152f1cd9f1b12692905b73590d8bf3219ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 034/130] fix: report a message without a timestamp as an error

---
 handler.go | 5 +++++
 sync.go    | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/handler.go b/handler.go
index c931b58..cef2cb7 100644
--- a/handler.go
+++ b/handler.go
@@ -1,6 +1,8 @@
 package textsecure
 
 import (
+	"errors"
+
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
@@ -73,6 +75,9 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 
 // handleDataMessage handles an incoming DataMessage and calls client callbacks
 func handleDataMessage(src string, srcUUID string, timestamp uint64, dm *signalservice.DataMessage) error {
+	if dm.Timestamp == nil {
+		return errors.New("data message without a timestamp")
+	}
 	flags, err := handleFlags(srcUUID, dm)
 	if err != nil {
 		return err
diff --git a/sync.go b/sync.go
index d764ac7..4592460 100644
--- a/sync.go
+++ b/sync.go
@@ -91,6 +91,9 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if dm == nil {
 		return fmt.Errorf("DataMessage was nil for SyncMessage_Sent")
 	}
+	if dm.Timestamp == nil {
+		return fmt.Errorf("data message without a timestamp")
+	}
 
 	flags, err := handleFlags(dest, dm)
 	if err != nil {
-- 
2.43.0


From 86b4a0284fc0890e70c4088980af2b01a50f95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 035/130] fix: report an incomplete receipt message as an error

---
 handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/handler.go b/handler.go
index cef2cb7..bee0243 100644
--- a/handler.go
+++ b/handler.go
@@ -54,6 +54,9 @@ func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signa
 	return nil
 }
 func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.ReceiptMessage) error {
+	if cm.Type == nil || len(cm.GetTimestamp()) == 0 {
+		return errors.New("receipt message without a type or a timestamp")
+	}
 	msg := &Message{
 		source:     src,
 		sourceUUID: srcUUID,
-- 
2.43.0


From 4b638687614a8516836de888ddf3320e96878845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 036/130] fix: report the receipt of every message of a receipt
 message

---
 handler.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/handler.go b/handler.go
index bee0243..682160a 100644
--- a/handler.go
+++ b/handler.go
@@ -57,20 +57,24 @@ func handleReceiptMessage(src string, srcUUID string, timestamp uint64, cm *sign
 	if cm.Type == nil || len(cm.GetTimestamp()) == 0 {
 		return errors.New("receipt message without a type or a timestamp")
 	}
-	msg := &Message{
-		source:     src,
-		sourceUUID: srcUUID,
-		message:    "sentReceiptMessage",
-		timestamp:  cm.GetTimestamp()[0],
-	}
+	message := "sentReceiptMessage"
 	if *cm.Type == signalservice.ReceiptMessage_READ {
-		msg.message = "readReceiptMessage"
+		message = "readReceiptMessage"
 	}
 	if *cm.Type == signalservice.ReceiptMessage_DELIVERY {
-		msg.message = "deliveryReceiptMessage"
-	}
-	if client.ReceiptMessageHandler != nil {
-		client.ReceiptMessageHandler(msg)
+		message = "deliveryReceiptMessage"
+	}
+	// a receipt can be for several messages
+	for _, ts := range cm.GetTimestamp() {
+		msg := &Message{
+			source:     src,
+			sourceUUID: srcUUID,
+			message:    message,
+			timestamp:  ts,
+		}
+		if client.ReceiptMessageHandler != nil {
+			client.ReceiptMessageHandler(msg)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 82f1c6ac71194204fd29939668b6827e5b43d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 037/130] fix: hand call messages to the handler for call
 messages

---
 handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 682160a..e4e7f2d 100644
--- a/handler.go
+++ b/handler.go
@@ -156,7 +156,9 @@ func handleCallMessage(src string, srcUUID string, timestamp uint64, cm *signals
 		timestamp:  timestamp,
 	}
 
-	if client.MessageHandler != nil {
+	if client.CallMessageHandler != nil {
+		client.CallMessageHandler(msg)
+	} else if client.MessageHandler != nil {
 		client.MessageHandler(msg)
 	}
 	return nil
-- 
2.43.0


From dde2503f4dc2006a001c32227b6243b94ce94750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 038/130] fix: accept sync messages only from devices of the
 own account

---
 handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/handler.go b/handler.go
index e4e7f2d..8721090 100644
--- a/handler.go
+++ b/handler.go
@@ -2,8 +2,10 @@ package textsecure
 
 import (
 	"errors"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
+	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
@@ -22,6 +24,9 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	if dm := content.GetDataMessage(); dm != nil {
 		return handleDataMessage(srcE164, srcUUID, timestamp, dm)
 	} else if sm := content.GetSyncMessage(); sm != nil {
+		if !isOwnUUID(srcUUID) {
+			return errors.New("sync message from another account")
+		}
 		return handleSyncMessage(srcE164, srcUUID, timestamp, sm)
 	} else if cm := content.GetCallMessage(); cm != nil {
 		return handleCallMessage(srcE164, srcUUID, timestamp, cm)
@@ -39,6 +44,11 @@ func handleMessage(srcE164 string, srcUUID string, timestamp uint64, b []byte) e
 	return nil
 }
 
+// isOwnUUID tells whether a message comes from another device of our own account
+func isOwnUUID(uuid string) bool {
+	return config.ConfigFile.UUID == "" || strings.EqualFold(uuid, config.ConfigFile.UUID)
+}
+
 func handleTypingMessage(src string, srcUUID string, timestamp uint64, cm *signalservice.TypingMessage) error {
 
 	msg := &Message{
-- 
2.43.0


From 47e955973ec00cacb2daf42ac20e338cfbf3aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 039/130] fix: find the destination of a sent message that
 ended a session by its uuid

---
 sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sync.go b/sync.go
index 4592460..25f8ebe 100644
--- a/sync.go
+++ b/sync.go
@@ -95,7 +95,11 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 		return fmt.Errorf("data message without a timestamp")
 	}
 
-	flags, err := handleFlags(dest, dm)
+	flagsDest := destUUID
+	if flagsDest == "" {
+		flagsDest = dest
+	}
+	flags, err := handleFlags(flagsDest, dm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8a4f0bdc8e1efdb702af5c613410d9324bb53faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 040/130] fix: handle messages too short for the signaling key

---
 textsecure.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index 8cbbb51..6977fda 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -526,6 +526,10 @@ var ErrInvalidMACForMessage = errors.New("invalid MAC for incoming message")
 func decryptReceivedMessage(msg []byte) ([]byte, error) {
 	// decrypt signalservice envelope
 	macpos := len(msg) - 10
+	if macpos < 1 || len(registration.Registration.SignalingKey) < 32 {
+		// too short to be encrypted with the signaling key
+		return msg, nil
+	}
 	tmac := msg[macpos:]
 	aesKey := registration.Registration.SignalingKey[:32]
 	macKey := registration.Registration.SignalingKey[32:]
-- 
2.43.0


From cd967c6eeb12b8571f99d98ae004e90be5fbcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 041/130] fix: report an envelope that cannot be read or has no
 type as an error

---
 textsecure.go | 3 +++
 websocket.go  | 4 +---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 6977fda..0744acd 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -566,6 +566,9 @@ func createEnvelope(plaintext []byte) (*signalservice.Envelope, error) {
 // Authenticate and decrypt a received message
 func handleReceivedMessage(env *signalservice.Envelope) error {
 
+	if env == nil || env.Type == nil {
+		return errors.New("envelope without a type")
+	}
 	recid := env.GetSourceUuid()
 
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
diff --git a/websocket.go b/websocket.go
index a687768..fd8fd32 100644
--- a/websocket.go
+++ b/websocket.go
@@ -195,9 +195,7 @@ func StartListening() error {
 					log.WithFields(log.Fields{
 						"error": err,
 					}).Error("[textsecure] Failed to create envelope")
-				}
-				err = handleReceivedMessage(env)
-				if err != nil {
+				} else if err = handleReceivedMessage(env); err != nil {
 					log.Debugf("[textsecure] Failed to handle received message: %+v", env)
 					log.WithFields(log.Fields{
 						"error": err,
-- 
2.43.0


From f21f2c7621e9e4f02ff99d530ba7b1e159f7e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 042/130] fix: report an incomplete unidentified sender message
 as an error

---
 textsecure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 0744acd..698484f 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -644,12 +644,15 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		}
 	case signalservice.Envelope_UNIDENTIFIED_SENDER:
 
-		if registration.Registration.SignalingKey[0] != 1 {
+		if key := registration.Registration.SignalingKey; len(key) == 0 || key[0] != 1 {
 			log.Errorln("failed to handle message, signalingkey has wrong version, please re-register to update your signaling-key")
 		}
 
 		p, _ := proto.Marshal(env)
-		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", *env.DestinationUuid)
+		log.Debugf("[textsecure] Incoming UnidentifiedSenderMessage %s.\n", env.GetDestinationUuid())
+		if crayfish.Instance == nil {
+			return errors.New("no crayfish backend to handle an unidentified sender message")
+		}
 		data, err := crayfish.Instance.HandleEnvelope(p)
 		if err != nil {
 			return err
-- 
2.43.0


From 5fe243ccc748e0b2b824076e20a4330efadfd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 043/130] fix: refuse group contexts with a malformed master
 key

An empty master key made the zkgroup binding panic, a longer one made two
groups out of one.
---
 groupsv2/createGroupChange.go |  4 ++--
 groupsv2/decrypt.go           |  6 +++---
 groupsv2/groupsv2.go          |  7 +++++--
 groupsv2/groupsv2api.go       |  2 +-
 groupsv2/helpers.go           | 16 +++++++++++++++-
 5 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 8de5607..f04b37c 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -73,7 +73,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 		return err
 	}
 
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return err
 	}
@@ -109,7 +109,7 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 }
 func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1b3df34..71cce75 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -23,7 +23,7 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	log.Debugln("[textsecure][groupsv2] decrypt group")
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -65,7 +65,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 	var err error
 	decryptedMember := &signalservice.DecryptedMember{}
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
@@ -112,7 +112,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return nil, err
 		}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index dae5b87..a187d46 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -131,7 +131,7 @@ func uuidToByte(id string) []byte {
 	return s.Bytes()
 }
 func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte) (*signalservice.DecryptedGroupJoinInfo, error) {
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(masterKey)
+	groupSecretParams, err := newGroupSecretParams(masterKey)
 	if err != nil {
 		return nil, err
 	}
@@ -162,7 +162,7 @@ func (g *GroupV2) getGroupJoinInfoFromServer(masterKey, groupLinkPassword []byte
 }
 func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer")
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 	if err != nil {
 		return nil, err
 	}
@@ -241,6 +241,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	if groupContext == nil {
 		return nil, nil
 	}
+	if len(groupContext.GetMasterKey()) != masterKeyLength {
+		return nil, fmt.Errorf("group context with a master key of %d bytes", len(groupContext.GetMasterKey()))
+	}
 	hexid := idToHex(groupContext.GetMasterKey())
 	// search for group
 	group, err := loadGroupV2(hexid)
diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 28299e0..3ebf1c2 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -17,7 +17,7 @@ type GroupsV2Authorization struct {
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
 	group := groupsV2[hexid]
-	groupSecretParams, err := zkgroup.NewGroupSecretParams(group.MasterKey)
+	groupSecretParams, err := newGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
 
diff --git a/groupsv2/helpers.go b/groupsv2/helpers.go
index 9619ac4..9921772 100644
--- a/groupsv2/helpers.go
+++ b/groupsv2/helpers.go
@@ -1,12 +1,17 @@
 package groupsv2
 
 import (
+	"fmt"
+
 	zkgroup "github.com/nanu-c/zkgroup"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/helpers"
 	log "github.com/sirupsen/logrus"
 )
 
+// masterKeyLength is the length of the master key of a group
+const masterKeyLength = 32
+
 // todo handle group join requests via link
 func (g *GroupV2) CheckJoinStatus() error {
 	log.Debugln("[textsecure][groupsv2] check join status")
@@ -38,9 +43,18 @@ func (g *GroupV2) CheckJoinStatus() error {
 	return nil
 }
 
+// newGroupSecretParams derives the secret params of a group from its master key.
+// zkgroup neither accepts an empty key nor notices one that is too long.
+func newGroupSecretParams(masterKey []byte) (zkgroup.GroupSecretParams, error) {
+	if len(masterKey) != masterKeyLength {
+		return nil, fmt.Errorf("group master key has %d bytes", len(masterKey))
+	}
+	return zkgroup.NewGroupSecretParams(masterKey)
+}
+
 func (g *GroupV2) checkCipher() error {
 	if g.cipher == nil {
-		groupSecretParams, err := zkgroup.NewGroupSecretParams(g.MasterKey)
+		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 64450ea619be7afd0b01b72b53af28be5927aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 044/130] fix: do not crash on empty encrypted values in groups
 and group changes

The zkgroup binding panics on empty or too short ciphertexts, which a member
of the group or the server can put into a group state or a group change.
---
 groupsv2/decrypt.go      | 41 +++++++++++++++++++++++++++++++++++-----
 groupsv2/groupActions.go |  7 ++++++-
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 71cce75..3cdcba2 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"errors"
+	"fmt"
 	"strings"
 	"unicode"
 
@@ -9,6 +11,9 @@ import (
 	log "github.com/sirupsen/logrus"
 )
 
+// minBlobLength is the length of an encrypted empty attribute
+const minBlobLength = 33
+
 func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 	newGroup := &GroupV2{
 		MasterKey:    g.MasterKey,
@@ -40,7 +45,7 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.cipher.DecryptBlob(g.GroupContext.GetTitle())
+	title, err := g.decryptBlob(g.GroupContext.GetTitle())
 	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
 	if err != nil {
 		return nil, err
@@ -80,7 +85,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 		if err != nil {
 			return nil, err
 		}
-		decryptedMember.ProfileKey, err = g.cipher.DecryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
+		decryptedMember.ProfileKey, err = g.decryptProfileKey(member.GetProfileKey(), decryptedMember.Uuid)
 
 	} else {
 		//TODO: check valid presentation
@@ -110,7 +115,33 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 }
 
+// decryptBlob decrypts an attribute of the group. The zkgroup library can not
+// cope with less than an encrypted empty blob.
+func (g *GroupV2) decryptBlob(blob []byte) ([]byte, error) {
+	if err := g.checkCipher(); err != nil {
+		return nil, err
+	}
+	if len(blob) < minBlobLength {
+		return nil, fmt.Errorf("encrypted group attribute of %d bytes", len(blob))
+	}
+	return g.cipher.DecryptBlob(blob)
+}
+
+// decryptProfileKey decrypts the profile key of a member
+func (g *GroupV2) decryptProfileKey(profileKey, uuid []byte) ([]byte, error) {
+	if err := g.checkCipher(); err != nil {
+		return nil, err
+	}
+	if len(profileKey) == 0 {
+		return nil, errors.New("empty encrypted profile key")
+	}
+	return g.cipher.DecryptProfileKey(profileKey, uuid)
+}
+
 func (g *GroupV2) decryptUUID(uuid []byte) ([]byte, error) {
+	if len(uuid) == 0 {
+		return nil, errors.New("empty encrypted uuid")
+	}
 	if g.cipher == nil {
 		groupSecretParams, err := newGroupSecretParams(g.MasterKey)
 		if err != nil {
@@ -127,11 +158,11 @@ func (g *GroupV2) decryptPendingMembers(pendingMembers []*signalservice.GroupCha
 		added := pendingMember.GetAdded()
 		member := added.GetMember()
 		uuidCipherText := member.GetUserId()
-		uuid, err := g.cipher.DecryptUUID(uuidCipherText)
+		uuid, err := g.decryptUUID(uuidCipherText)
 		if err != nil {
 			log.Errorln(err)
 		}
-		addedByUuid, err := g.cipher.DecryptUUID(added.GetAddedByUserId())
+		addedByUuid, err := g.decryptUUID(added.GetAddedByUserId())
 		if err != nil {
 			log.Errorln(err)
 		}
@@ -153,7 +184,7 @@ func (g *GroupV2) decryptDeletePendingMembers(deletedPendingMembers []*signalser
 	pendingMembersRemoval := []*signalservice.DecryptedPendingMemberRemoval{}
 	for _, deletedPendingMember := range deletedPendingMembers {
 
-		uuid, err := g.cipher.DecryptUUID(deletedPendingMember.DeletedUserId)
+		uuid, err := g.decryptUUID(deletedPendingMember.DeletedUserId)
 		if err != nil {
 			log.Errorln(err)
 		}
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index b54cacb..e0be4f4 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -1,6 +1,8 @@
 package groupsv2
 
 import (
+	"fmt"
+
 	zkgroup "github.com/nanu-c/zkgroup"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
@@ -9,6 +11,9 @@ import (
 
 func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInfo, groupSecretParams zkgroup.GroupSecretParams) (*signalservice.DecryptedGroupJoinInfo, error) {
 	decryptedGroupJoinInfo := new(signalservice.DecryptedGroupJoinInfo)
+	if len(groupJoinInfo.GetTitle()) < minBlobLength {
+		return nil, fmt.Errorf("encrypted group title of %d bytes", len(groupJoinInfo.GetTitle()))
+	}
 	clientZkGroupCipher := zkgroup.NewClientZkGroupCipher(groupSecretParams)
 	title, err := clientZkGroupCipher.DecryptBlob(groupJoinInfo.GetTitle())
 	if err != nil {
@@ -46,7 +51,7 @@ func (g *GroupV2) decryptGroupChangeActions(groupActions *signalservice.GroupCha
 		Revision: groupActions.GetRevision(),
 	}
 	if groupActions.SourceUuid != nil {
-		uuid, err := g.cipher.DecryptUUID(groupActions.SourceUuid)
+		uuid, err := g.decryptUUID(groupActions.SourceUuid)
 		log.Debugln("[textsecure][groupsv2] SourceUuid", idToHex(uuid), err)
 	}
 	log.Debugln("[textsecure][groupsv2] Revision", groupActions.Revision)
-- 
2.43.0


From 24ff95798d278126c50af5734a8d8e9f953cc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 045/130] fix: refuse group changes without a signature

Verifying an empty signature panics in the zkgroup binding.
---
 groupsv2/groupsv2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index a187d46..b249d26 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/url"
@@ -283,6 +284,9 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 			log.Errorln("[textsecure][groupsv2] server public params", err)
 		} else {
 			if len(groupChange.GetActions()) != 0 {
+				if len(groupChange.GetServerSignature()) == 0 {
+					return nil, errors.New("group change without a server signature")
+				}
 				err = serverPublicParams.VerifySignature(groupChange.GetActions(), groupChange.GetServerSignature())
 				if err != nil {
 					log.Errorln("[textsecure][groupsv2] signature verification failed", err)
-- 
2.43.0


From 70b4ebaca7519f688444ae05abcb034cca568601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 046/130] fix: do not crash on groups that could not be fetched
 yet

---
 groups.go            | 2 +-
 groupsv2/groupsv2.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/groups.go b/groups.go
index 27fc314..c00f655 100644
--- a/groups.go
+++ b/groups.go
@@ -223,7 +223,7 @@ func sendGroupV2Helper(hexid string, msg string, attachmentPointer *attachmentPo
 			return 0, err
 		}
 	}
-	if len(g.DecryptedGroup.Members) == 0 {
+	if len(g.DecryptedGroup.GetMembers()) == 0 {
 		return 0, fmt.Errorf("[textsecure] sendGroupV2Helper empty members list")
 	}
 	timestamp := uint64(time.Now().UnixNano() / 1000000)
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index b249d26..8420bc3 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -235,7 +235,7 @@ func GetGroupV2MembersForGroup(group string) ([]*signalservice.DecryptedMember,
 		log.Debugln("[textsecure] could not update group from server")
 	}
 
-	return g.DecryptedGroup.Members, nil
+	return g.DecryptedGroup.GetMembers(), nil
 }
 func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error) {
 	groupContext := dm.GetGroupV2()
@@ -317,7 +317,7 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 		} else {
 			group.GroupAction = nil
 		}
-	} else if group.DecryptedGroup.Revision != groupContext.GetRevision() {
+	} else if group.DecryptedGroup.GetRevision() != groupContext.GetRevision() {
 		log.Debugln("[textsecure][groupsv2] outdated group, update")
 		group.UpdateGroupFromServer()
 	}
-- 
2.43.0


From 0b81887bd23e896fef5fcdb88680464d2c83dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 047/130] fix: keep the known state of a group when the
 server's answer is unreadable

---
 groupsv2/decrypt.go  | 3 +++
 groupsv2/groupsv2.go | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 3cdcba2..1932025 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -20,6 +20,9 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 		GroupContext: *group,
 	}
 	decryptedGroup, err := newGroup.decryptGroup()
+	if err != nil {
+		return err
+	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
 	g.CheckJoinStatus()
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 8420bc3..3ff7d15 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -186,10 +186,15 @@ func (g *GroupV2) queryGroupChangeFromServer() (*signalservice.Group, error) {
 		return nil, resp
 	}
 	buf := new(bytes.Buffer)
-	buf.ReadFrom(resp.Body)
+	if _, err = buf.ReadFrom(resp.Body); err != nil {
+		return nil, err
+	}
 
 	group := &signalservice.Group{}
 	err = proto.Unmarshal(buf.Bytes(), group)
+	if err != nil {
+		return nil, err
+	}
 	g.cipher = zkgroup.NewClientZkGroupCipher(groupSecretParams)
 
 	log.Debugln("[textsecure][groupsv2] queryGroupChangeFromServer group")
-- 
2.43.0


From 8592f43dbee8393aecfd898ec1f517c0274dd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 048/130] fix: report when an updated group can not be stored

---
 groupsv2/groupsv2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 3ff7d15..b20b844 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -224,7 +224,9 @@ func (g *GroupV2) UpdateGroupFromServer() error {
 		return err
 	}
 	groupsV2[hexid] = group
-	saveGroupV2(hexid)
+	if err = saveGroupV2(hexid); err != nil {
+		return err
+	}
 	log.Debugln("[textsecure][groupsv2] update group from server")
 	g = group
 
-- 
2.43.0


From 9ac244af7435c9e07c4a95c6dc36412ca4a1524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 049/130] fix: find stored groups also when another group is
 known already

After a restart only the first group that was looked up was found.
---
 groupsv2/groupsv2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index b20b844..2558552 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -102,7 +102,7 @@ func createAcceptInviteChange() {
 
 }
 func FindGroup(hexid string) *GroupV2 {
-	if len(groupsV2) == 0 {
+	if groupsV2[hexid] == nil {
 		group, err := loadGroupV2(hexid)
 		if err != nil {
 			log.Debugln("[textsecure][groupsv2] FindGroup", err)
-- 
2.43.0


From e90ea31089271eb36460d0fd61eb37b9b9d2b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 050/130] fix: read the presentations of group members as
 profile key presentations

---
 groupsv2/decrypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 1932025..5d80e08 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -92,7 +92,7 @@ func (g *GroupV2) decryptMember(member *signalservice.Member) (*signalservice.De
 
 	} else {
 		//TODO: check valid presentation
-		profileKeyCredentialPresentation, err := zkgroup.NewAuthCredentialPresentation(member.GetPresentation())
+		profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(member.GetPresentation())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 219a43549325d991d4c3064f13edd426be80895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 051/130] fix: decode the title of a group

The decrypted title is a GroupAttributeBlob. Taking its encoding as text left
the length byte of longer titles in front of them, and dropping what is not
graphic took parts like joiners out of titles.
---
 groupsv2/decrypt.go      | 30 +++++++++++++++++-------------
 groupsv2/groupActions.go |  6 +++++-
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index 5d80e08..ed17e28 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -3,12 +3,11 @@ package groupsv2
 import (
 	"errors"
 	"fmt"
-	"strings"
-	"unicode"
 
 	"github.com/nanu-c/zkgroup"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
+	"google.golang.org/protobuf/proto"
 )
 
 // minBlobLength is the length of an encrypted empty attribute
@@ -48,20 +47,12 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	}
 	// TODO: decrypt pending and requesting members
 	decryptedGroup := &signalservice.DecryptedGroup{}
-	title, err := g.decryptBlob(g.GroupContext.GetTitle())
-	log.Debugln("[textsecure][groupsv2] decrypt group title", string(title))
+	title, err := g.decryptAttribute(g.GroupContext.GetTitle())
 	if err != nil {
 		return nil, err
 	}
-	cleanTitle := strings.Map(func(r rune) rune {
-		if unicode.IsGraphic(r) {
-			return r
-		}
-		return -1
-	}, string(title))
-	log.Debugln("[textsecure][groupsv2] decrypt group title", cleanTitle)
-
-	decryptedGroup.Title = cleanTitle
+	decryptedGroup.Title = title.GetTitle()
+	log.Debugln("[textsecure][groupsv2] decrypt group title", decryptedGroup.Title)
 	decryptedGroup.Revision = g.GroupContext.Revision
 	decryptedGroup.Avatar = g.GroupContext.GetAvatar()
 	decryptedGroup.AccessControl = g.GroupContext.GetAccessControl()
@@ -130,6 +121,19 @@ func (g *GroupV2) decryptBlob(blob []byte) ([]byte, error) {
 	return g.cipher.DecryptBlob(blob)
 }
 
+// decryptAttribute decrypts and decodes an attribute of the group
+func (g *GroupV2) decryptAttribute(blob []byte) (*signalservice.GroupAttributeBlob, error) {
+	b, err := g.decryptBlob(blob)
+	if err != nil {
+		return nil, err
+	}
+	attribute := &signalservice.GroupAttributeBlob{}
+	if err := proto.Unmarshal(b, attribute); err != nil {
+		return nil, err
+	}
+	return attribute, nil
+}
+
 // decryptProfileKey decrypts the profile key of a member
 func (g *GroupV2) decryptProfileKey(profileKey, uuid []byte) ([]byte, error) {
 	if err := g.checkCipher(); err != nil {
diff --git a/groupsv2/groupActions.go b/groupsv2/groupActions.go
index e0be4f4..044077c 100644
--- a/groupsv2/groupActions.go
+++ b/groupsv2/groupActions.go
@@ -19,7 +19,11 @@ func (g *GroupV2) decryptGroupJoinInfo(groupJoinInfo *signalservice.GroupJoinInf
 	if err != nil {
 		return nil, err
 	}
-	decryptedGroupJoinInfo.Title = string(title)
+	attribute := &signalservice.GroupAttributeBlob{}
+	if err := proto.Unmarshal(title, attribute); err != nil {
+		return nil, err
+	}
+	decryptedGroupJoinInfo.Title = attribute.GetTitle()
 	return decryptedGroupJoinInfo, nil
 }
 
-- 
2.43.0


From 936edf2220995b2f7ff6e6be75145b782a051b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 052/130] fix: show the description, timer, invite link
 password and announcement setting of a group

---
 groupsv2/decrypt.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/groupsv2/decrypt.go b/groupsv2/decrypt.go
index ed17e28..59ceed9 100644
--- a/groupsv2/decrypt.go
+++ b/groupsv2/decrypt.go
@@ -24,6 +24,7 @@ func (g *GroupV2) decryptGroupFromServer(group *signalservice.Group) error {
 	}
 	g.GroupContext = newGroup.GroupContext
 	g.DecryptedGroup = decryptedGroup
+	g.AnnouncementsOnly = g.GroupContext.GetAnnouncementsOnly()
 	g.CheckJoinStatus()
 	return err
 }
@@ -57,6 +58,25 @@ func (g *GroupV2) decryptGroup() (*signalservice.DecryptedGroup, error) {
 	decryptedGroup.Avatar = g.GroupContext.GetAvatar()
 	decryptedGroup.AccessControl = g.GroupContext.GetAccessControl()
 	decryptedGroup.Members = decryptedMembers
+	decryptedGroup.InviteLinkPassword = g.GroupContext.GetInviteLinkPassword()
+	decryptedGroup.IsAnnouncementGroup = signalservice.EnabledState_DISABLED
+	if g.GroupContext.GetAnnouncementsOnly() {
+		decryptedGroup.IsAnnouncementGroup = signalservice.EnabledState_ENABLED
+	}
+	if len(g.GroupContext.GetDescription()) > 0 {
+		description, err := g.decryptAttribute(g.GroupContext.GetDescription())
+		if err != nil {
+			return nil, err
+		}
+		decryptedGroup.Description = description.GetDescription()
+	}
+	if len(g.GroupContext.GetDisappearingMessagesTimer()) > 0 {
+		timer, err := g.decryptAttribute(g.GroupContext.GetDisappearingMessagesTimer())
+		if err != nil {
+			return nil, err
+		}
+		decryptedGroup.DisappearingMessagesTimer = &signalservice.DecryptedTimer{Duration: timer.GetDisappearingMessagesDuration()}
+	}
 	return decryptedGroup, nil
 }
 
-- 
2.43.0


From e7c02bdfd09eddfbe211940438b7ca37594f2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 053/130] fix: report unusable group credentials as errors

The errors were logged and the zkgroup binding then panicked on the missing values.
---
 groupsv2/groupsv2api.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/groupsv2/groupsv2api.go b/groupsv2/groupsv2api.go
index 3ebf1c2..2f68b9e 100644
--- a/groupsv2/groupsv2api.go
+++ b/groupsv2/groupsv2api.go
@@ -16,11 +16,14 @@ type GroupsV2Authorization struct {
 }
 
 func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Authorization, error) {
-	group := groupsV2[hexid]
+	group := FindGroup(hexid)
+	if group == nil {
+		return nil, fmt.Errorf("group not found %s", hexid)
+	}
 	groupSecretParams, err := newGroupSecretParams(group.MasterKey)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup", err.Error())
-
+		return nil, err
 	}
 
 	return NewGroupsV2Authorization(uuid, groupSecretParams)
@@ -28,27 +31,33 @@ func NewGroupsV2AuthorizationForGroup(uuid []byte, hexid string) (*GroupsV2Autho
 
 func NewGroupsV2Authorization(uuid []byte, groupSecretParams zkgroup.GroupSecretParams) (*GroupsV2Authorization, error) {
 	publicGroupParams, err := groupSecretParams.PublicParams()
+	if err != nil {
+		return nil, err
+	}
 	today := time.Now().Unix() / 86400
 	credential, err := GetCredentialForRedemption(today)
 	if err != nil {
 		return nil, err
 
 	}
+	if len(credential.Credential) == 0 {
+		return nil, fmt.Errorf("empty auth credential")
+	}
 	authCredentialResponse, err := zkgroup.NewAuthCredentialResponse(credential.Credential)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	zkGroupServerPublicParams, _ := base64.StdEncoding.DecodeString(config.ZKGROUP_SERVER_PUBLIC_PARAMS)
 	serverPublicParams, err := zkgroup.NewServerPublicParams(zkGroupServerPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup1", err.Error())
-
+		return nil, err
 	}
 	clientZkAuthOperations, err := zkgroup.NewClientZkAuthOperations(serverPublicParams)
 	if err != nil {
 		log.Warnln("[textsecure] NewGroupsV2AuthorizationForGroup2", err.Error())
-
+		return nil, err
 	}
 	authCredential, err := clientZkAuthOperations.ReceiveAuthCredential(uuid, (uint32)(today), authCredentialResponse)
 	if err != nil {
-- 
2.43.0


From c5b203bd923955efa81c2e165b7b37cc460b1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 054/130] fix: do not keep an unreadable answer as the group
 credentials

---
 groupsv2/credentials.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index ed64565..bdde8db 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -74,7 +74,9 @@ func GetGroupAuthCredentials(startDay int64, endDay int64) error {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response GroupCredentials
-	dec.Decode(&response)
+	if err := dec.Decode(&response); err != nil {
+		return err
+	}
 	Credentials = &response
 	return nil
 }
-- 
2.43.0


From d883b8e377fe70e670bef630c6d96ce608723ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 055/130] fix: fetch new group credentials when the known ones
 are used up

The credentials of a week were fetched once, after that no group could be
fetched until a restart.
---
 groupsv2/credentials.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/groupsv2/credentials.go b/groupsv2/credentials.go
index bdde8db..d5c0ce6 100644
--- a/groupsv2/credentials.go
+++ b/groupsv2/credentials.go
@@ -32,12 +32,21 @@ type GroupExternalCredential struct {
 
 var Credentials *GroupCredentials
 
+func (c *GroupCredentials) contain(day int64) bool {
+	for _, credential := range c.Credentials {
+		if credential.RedemptionTime == day {
+			return true
+		}
+	}
+	return false
+}
+
 func getToday() int64 {
 	return time.Now().UnixNano() / int64(time.Millisecond) / (1000 * 60 * 60 * 24)
 }
 
 func GetCredentialForRedemption(day int64) (*GroupCredential, error) {
-	if Credentials == nil {
+	if Credentials == nil || !Credentials.contain(day) {
 		today := getToday()
 		err := GetGroupAuthCredentials(today, today+7)
 		if err != nil {
-- 
2.43.0


From 19624b6c438e8dee52dd87997dad9e2a20197b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 056/130] fix: report when joining a group fails

The group was taken for joined whatever the server answered.
---
 groupsv2/createGroupChange.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index f04b37c..0d64e0a 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -97,11 +97,9 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	if err != nil {
 		return err
 	}
-	if err != nil {
-		return err
-	}
 	err = PatchGroupV2(out, auth)
 	if err != nil {
+		return err
 	}
 	g.JoinStatus = GroupV2JoinsStatusMember
 	g.UpdateGroupFromServer()
-- 
2.43.0


From 4b63ff1920b47d7c1c315c0431b85fb5691c5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 057/130] fix: do not crash when joining a group without a
 profile key credential

---
 groupsv2/createGroupChange.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groupsv2/createGroupChange.go b/groupsv2/createGroupChange.go
index 0d64e0a..3e2d493 100644
--- a/groupsv2/createGroupChange.go
+++ b/groupsv2/createGroupChange.go
@@ -77,6 +77,9 @@ func (g *GroupV2) AddPendingMembers(uuid []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(config.ConfigFile.ProfileKeyCredential) == 0 {
+		return fmt.Errorf("no profile key credential")
+	}
 	presentation, err := serverPublicParams.CreateProfileKeyCredentialPresentation(groupSecretParams, config.ConfigFile.ProfileKeyCredential)
 	if err != nil {
 		return err
@@ -117,7 +120,7 @@ func (g *GroupV2) EncryptUUID(uuid []byte) ([]byte, error) {
 }
 func (g *GroupV2) findMemberByUuid(uuid string) (*signalservice.Member, error) {
 	for _, member := range g.GroupContext.PendingMembers {
-		d, err := g.decryptUUID(member.Member.UserId)
+		d, err := g.decryptUUID(member.GetMember().GetUserId())
 		if err != nil {
 			return nil, err
 		} else {
-- 
2.43.0


From fed1039d5f2eb86f27add62912f5c0fba0ca55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 058/130] fix: do not show the group change of an earlier
 message again

---
 groupsv2/groupsv2.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index 2558552..c0ae971 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -277,6 +277,8 @@ func HandleGroupsV2(src string, dm *signalservice.DataMessage) (*GroupV2, error)
 	} else if string(group.GroupContext.Title) == "" {
 		err = group.UpdateGroupFromServer()
 	}
+	// the change of an earlier message does not belong to this one
+	group.GroupAction = nil
 	// handle group changes
 	if len(groupContext.GroupChange) > 0 {
 		groupChange := &signalservice.GroupChange{}
-- 
2.43.0


From 346ecbfb002a0035d13d6f6fe28ce1de1f9ff627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 059/130] fix: forget the device list of a recipient when a
 message can not be built for it

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 5413151..2ce9cdb 100644
--- a/server.go
+++ b/server.go
@@ -895,6 +895,8 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 
 	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
 	if err != nil {
+		// a device in the list may be gone: start over with the next message
+		delete(deviceLists, uuid)
 		return nil, err
 	}
 	m := make(map[string]interface{})
-- 
2.43.0


From cef4e2a72d2113200d0137a17b13000248271805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 060/130] fix: keep concurrent sends from corrupting the device
 lists

---
 sender.go | 12 ------------
 server.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/sender.go b/sender.go
index 2ccab88..1b6aabd 100644
--- a/sender.go
+++ b/sender.go
@@ -13,10 +13,6 @@ import (
 func sendMessage(msg *outgoingMessage) (uint64, error) {
 	// todo use UnidentifiedSenderMessage
 
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
-
 	dm := createMessage(msg)
 
 	content := &signalservice.Content{
@@ -70,10 +66,6 @@ func sendSyncMessage(sm *signalservice.SyncMessage, timestamp *uint64) (uint64,
 	if config.ConfigFile.UUID != "" {
 		user = config.ConfigFile.UUID
 	}
-	if _, ok := deviceLists[user]; !ok {
-		deviceLists[user] = []uint32{1}
-	}
-
 	content := &signalservice.Content{
 		SyncMessage: sm,
 	}
@@ -107,10 +99,6 @@ type outgoingNullMessage struct {
 }
 
 func sendNullMessage(msg *outgoingNullMessage) (uint64, error) {
-	if _, ok := deviceLists[msg.destination]; !ok {
-		deviceLists[msg.destination] = []uint32{1}
-	}
-
 	content := &signalservice.Content{
 		NullMessage: msg.msg,
 	}
diff --git a/server.go b/server.go
index 2ce9cdb..1b8f595 100644
--- a/server.go
+++ b/server.go
@@ -16,6 +16,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/signal-golang/textsecure/axolotl"
@@ -881,22 +882,64 @@ type sendMessageResponse struct {
 // ErrRemoteGone is returned when the peer reinstalled and lost its session state.
 var ErrRemoteGone = errors.New("the remote device is gone (probably reinstalled)")
 
-var deviceLists = map[string][]uint32{}
+var (
+	deviceLists      = map[string][]uint32{}
+	deviceListsMutex sync.Mutex
+	sendMutexes      = map[string]*sync.Mutex{}
+)
+
+// sendMutex is held while a message is sent to a recipient: another message
+// to the same one waits until the devices and sessions are up to date.
+func sendMutex(uuid string) *sync.Mutex {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	m, ok := sendMutexes[uuid]
+	if !ok {
+		m = &sync.Mutex{}
+		sendMutexes[uuid] = m
+	}
+	return m
+}
+
+// getDeviceList returns the known devices of a recipient, at first only the primary one
+func getDeviceList(uuid string) []uint32 {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	if devs, ok := deviceLists[uuid]; ok {
+		return devs
+	}
+	return []uint32{1}
+}
+
+func setDeviceList(uuid string, devs []uint32) {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	deviceLists[uuid] = devs
+}
+
+func forgetDeviceList(uuid string) {
+	deviceListsMutex.Lock()
+	defer deviceListsMutex.Unlock()
+	delete(deviceLists, uuid)
+}
 
 // maxSendAttempts limits how often a message is sent again because the server
 // reported other devices than the ones it was encrypted for.
 const maxSendAttempts = 10
 
 func buildAndSendMessage(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64) (*sendMessageResponse, error) {
+	m := sendMutex(uuid)
+	m.Lock()
+	defer m.Unlock()
 	return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, 1)
 }
 
 func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool, timestamp *uint64, attempt int) (*sendMessageResponse, error) {
 
-	bm, err := buildMessage(uuid, paddedMessage, deviceLists[uuid], isSync)
+	bm, err := buildMessage(uuid, paddedMessage, getDeviceList(uuid), isSync)
 	if err != nil {
 		// a device in the list may be gone: start over with the next message
-		delete(deviceLists, uuid)
+		forgetDeviceList(uuid)
 		return nil, err
 	}
 	m := make(map[string]interface{})
@@ -932,7 +975,7 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 		}
 		log.Debugf("[textsecure] Mismatched devices: %+v\n", j)
 		devs := []uint32{}
-		for _, id := range deviceLists[uuid] {
+		for _, id := range getDeviceList(uuid) {
 			in := true
 			for _, eid := range j.ExtraDevices {
 				if id == eid {
@@ -956,7 +999,7 @@ func buildAndSendMessageAttempt(uuid string, paddedMessage []byte, isSync bool,
 				devs = append(devs, id)
 			}
 		}
-		deviceLists[uuid] = devs
+		setDeviceList(uuid, devs)
 		return buildAndSendMessageAttempt(uuid, paddedMessage, isSync, timestamp, attempt+1)
 	}
 	if resp.Status == staleDevicesStatus {
-- 
2.43.0


From 36361b60e70536acf8142b03a45b013e0af776b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 061/130] fix: refuse server receipts without a source or
 timestamp

---
 textsecure.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 698484f..2da6902 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -467,10 +467,14 @@ func registerDevice() error {
 	return nil
 }
 
-func handleReceipt(env *signalservice.Envelope) {
+func handleReceipt(env *signalservice.Envelope) error {
+	if env.GetSourceUuid() == "" || env.Timestamp == nil {
+		return errors.New("receipt without a source or timestamp")
+	}
 	if client.ReceiptHandler != nil {
 		client.ReceiptHandler(env.GetSourceUuid(), env.GetSourceDevice(), env.GetTimestamp())
 	}
+	return nil
 }
 
 // recID removes the + from phone numbers
@@ -574,8 +578,7 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 	sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
 	switch *env.Type {
 	case signalservice.Envelope_RECEIPT:
-		handleReceipt(env)
-		return nil
+		return handleReceipt(env)
 	case signalservice.Envelope_CIPHERTEXT:
 		msg := env.GetContent()
 		if msg == nil {
-- 
2.43.0


From cfe709e7189f42510c99db138f143a712ecb9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 062/130] fix: do not lose the group of a message another own
 device sent

The first message of a group can come from another own device.
---
 groups.go | 13 -------------
 sync.go   |  3 ++-
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/groups.go b/groups.go
index c00f655..97ebf1c 100644
--- a/groups.go
+++ b/groups.go
@@ -174,19 +174,6 @@ var GroupUpdateFlag uint32 = 1
 // GroupLeaveFlag signals that this message is a group leave message
 var GroupLeaveFlag uint32 = 2
 
-// handleGroups is the main entry point for handling the group metadata on messages.
-func handleGroupsV2(src string, dm *signalservice.DataMessage) (*groupsv2.GroupV2, error) {
-	gr := dm.GetGroupV2()
-	if gr == nil {
-		return nil, nil
-	}
-	hexid := idToHex(gr.GetMasterKey())
-	log.Debugln("[textsecure] handle groupv2", hexid)
-	// TODO handle group changes
-
-	return groupsv2.FindGroup(hexid), nil
-}
-
 type groupMessage struct {
 	id      []byte
 	name    string
diff --git a/sync.go b/sync.go
index 25f8ebe..b767ef2 100644
--- a/sync.go
+++ b/sync.go
@@ -9,6 +9,7 @@ import (
 	"github.com/golang/protobuf/proto"
 	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/contacts"
+	"github.com/signal-golang/textsecure/groupsv2"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/unidentifiedAccess"
 	log "github.com/sirupsen/logrus"
@@ -108,7 +109,7 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if err != nil {
 		return err
 	}
-	grV2, err := handleGroupsV2(dest, dm)
+	grV2, err := groupsv2.HandleGroupsV2(dest, dm)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5359de732e0342c73b3ed3274541148e991969ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 063/130] fix: do not lose the contacts shared in a message
 another own device sent

---
 contacts/contacts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index 950cb10..ef17b1e 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -157,7 +157,7 @@ func HandleContacts(src string, dm *signalservice.DataMessage) ([]*signalservice
 
 		log.Debugln("[textsecure] handle Contact", c.GetName())
 	}
-	return nil, nil
+	return cs, nil
 }
 
 func UpdateProfileKey(src string, profileKey []byte) error {
-- 
2.43.0


From d31ee9add2d4f10f0e639d21de8e3ccd7ef13ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 064/130] fix: leave numbers that can not be looked up out of
 the contact discovery

One number like "+49 151 234" in the address book made it fail as a whole.
---
 server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 1b8f595..2f8afc9 100644
--- a/server.go
+++ b/server.go
@@ -648,7 +648,8 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	for _, c := range localContacts {
 		t := c.Tel
 		// check if the contact is a valid phone number and if it is not a duplicate
-		if t != "" && re.MatchString(t) && tokensMap[t] == nil {
+		n, err := strconv.ParseInt(t, 10, 64)
+		if err == nil && n >= 0 && re.MatchString(t) && tokensMap[t] == nil {
 			tokens = append(tokens, t)
 			tokensMap[t] = &t
 		} else {
-- 
2.43.0


From b32d6091438651b8ad4b9bad20a9f64ef4a5c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 065/130] fix: do not give our profile key to the contact
 another own device wrote to

---
 sync.go       |  4 +++-
 textsecure.go | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/sync.go b/sync.go
index b767ef2..087a0fb 100644
--- a/sync.go
+++ b/sync.go
@@ -100,7 +100,9 @@ func handleSyncSent(s *signalservice.SyncMessage_Sent, ts uint64) error {
 	if flagsDest == "" {
 		flagsDest = dest
 	}
-	flags, err := handleFlags(flagsDest, dm)
+	// the profile key in the message is our own, not the one of the destination
+	flags := dm.GetFlags()
+	err := handleEndSession(flagsDest, flags)
 	if err != nil {
 		return err
 	}
diff --git a/textsecure.go b/textsecure.go
index 2da6902..56e83f1 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -497,13 +497,9 @@ var ProfileKeyUpdatedFlag = signalservice.DataMessage_PROFILE_KEY_UPDATE
 
 func handleFlags(src string, dm *signalservice.DataMessage) (uint32, error) {
 	flags := dm.GetFlags()
-	if flags&uint32(signalservice.DataMessage_END_SESSION) != 0 {
-		srcClean, err := recID(src)
-		if err != nil {
-			return 0, err
-		}
-		textSecureStore.DeleteAllSessions(srcClean)
-		textSecureStore.DeleteAllSessions(src)
+	err := handleEndSession(src, flags)
+	if err != nil {
+		return 0, err
 	}
 	if flags&uint32(signalservice.DataMessage_PROFILE_KEY_UPDATE) != 0 {
 		err := contacts.UpdateProfileKey(src, dm.GetProfileKey())
@@ -514,6 +510,19 @@ func handleFlags(src string, dm *signalservice.DataMessage) (uint32, error) {
 	return flags, nil
 }
 
+// handleEndSession resets the sessions with a contact if the flags of a message say so
+func handleEndSession(src string, flags uint32) error {
+	if flags&uint32(signalservice.DataMessage_END_SESSION) != 0 {
+		srcClean, err := recID(src)
+		if err != nil {
+			return err
+		}
+		textSecureStore.DeleteAllSessions(srcClean)
+		textSecureStore.DeleteAllSessions(src)
+	}
+	return nil
+}
+
 // MessageTypeNotImplementedError is raised in the unlikely event that an unhandled protocol message type is received.
 type MessageTypeNotImplementedError struct {
 	typ uint32
-- 
2.43.0


From b233ca3f33ef60262e930c3ca07dd8c8d53816fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 066/130] fix: report when the server refuses credentials or a
 sender certificate

---
 transport/credentials.go      | 8 +++++++-
 transport/unidentifiedCert.go | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/transport/credentials.go b/transport/credentials.go
index 8e9cad3..7c29eca 100644
--- a/transport/credentials.go
+++ b/transport/credentials.go
@@ -33,9 +33,15 @@ func GetCredendtails(path string) (*AuthCredentials, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var a AuthCredentials
-	dec.Decode(&a)
+	err = dec.Decode(&a)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugln("[textsecure] getCredentials ")
 	return &a, nil
 
diff --git a/transport/unidentifiedCert.go b/transport/unidentifiedCert.go
index bc21a5b..d8f8326 100644
--- a/transport/unidentifiedCert.go
+++ b/transport/unidentifiedCert.go
@@ -23,10 +23,13 @@ func GetSenderCertificate() (*SenderCertificate, error) {
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&certificates)
+	err = dec.Decode(certificates)
 	if err != nil {
-		return certificates, nil
+		return nil, err
 	}
 
 	return certificates, nil
-- 
2.43.0


From a0f1617b33792cbfb87abedea1254c03f9bb4c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 067/130] fix: refuse malformed attestations instead of
 crashing

---
 contactsDiscovery/remoteAttestationUtil.go | 15 ++++++++++++++-
 crypto/aesgcm.go                           |  7 ++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/contactsDiscovery/remoteAttestationUtil.go b/contactsDiscovery/remoteAttestationUtil.go
index 41a0309..720c3ff 100644
--- a/contactsDiscovery/remoteAttestationUtil.go
+++ b/contactsDiscovery/remoteAttestationUtil.go
@@ -2,6 +2,7 @@ package contactsDiscovery
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	axolotl "github.com/signal-golang/textsecure/axolotl"
@@ -80,10 +81,13 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 		return nil, err
 	}
 
+	if resp.IsError() {
+		return nil, resp
+	}
 	multiRemoteAttestationResponse := &MultiRemoteAttestationResponse{}
 	dec := json.NewDecoder(resp.Body)
 	// log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp", resp)
-	err = dec.Decode(&multiRemoteAttestationResponse)
+	err = dec.Decode(multiRemoteAttestationResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -108,6 +112,9 @@ func (r *RemoteAttestation) GetAndVerifyMultiRemoteAttestation(
 
 		}
 	}
+	if len(assestations) == 0 {
+		return nil, errors.New("no valid attestation")
+	}
 
 	return assestations, nil
 }
@@ -119,6 +126,9 @@ func validateAndBuildRemoteAttestation(
 	keyPair *axolotl.ECKeyPair,
 	enclaveName string,
 ) (*RemoteAttestation, error) {
+	if remoteAttestation == nil {
+		return nil, errors.New("empty attestation")
+	}
 	keys, err := remoteAttestationKeys(keyPair, remoteAttestation.ServerEphemeralPublic, remoteAttestation.ServerStaticPublic)
 	log.Debugln("[textsecure] validateAndBuildRemoteAttestation ")
 	if err != nil {
@@ -142,6 +152,9 @@ func validateAndBuildRemoteAttestation(
 }
 
 func remoteAttestationKeys(keyPair *axolotl.ECKeyPair, serverPublicEphemarl []byte, serverPublicStatic []byte) (*RemoteAttestationKeys, error) {
+	if len(serverPublicEphemarl) != 32 || len(serverPublicStatic) != 32 {
+		return nil, fmt.Errorf("attestation with public keys of %d and %d bytes", len(serverPublicEphemarl), len(serverPublicStatic))
+	}
 
 	ephemeralToEphemeral := [32]byte{}
 	serverPublicEphemarlPublicKey := axolotl.NewECPublicKey(serverPublicEphemarl).GetKey()
diff --git a/crypto/aesgcm.go b/crypto/aesgcm.go
index 5891af8..32b4a8d 100644
--- a/crypto/aesgcm.go
+++ b/crypto/aesgcm.go
@@ -3,6 +3,7 @@ package crypto
 import (
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 )
 
 const TAG_LENGTH_BYTES = 16
@@ -18,7 +19,11 @@ func AesgcmDecrypt(key, nonce, data, mac []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	ciphertext := append(data, mac...)
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("wrong nonce length")
+	}
+	ciphertext := make([]byte, 0, len(data)+len(mac))
+	ciphertext = append(append(ciphertext, data...), mac...)
 
 	return aesgcm.Open(nil, nonce, ciphertext, nil)
 }
-- 
2.43.0


From b011dd5169a5d03659e39f67d08b21d8d41ae5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 068/130] fix: refuse malformed contact discovery answers
 instead of crashing

---
 contactDiscoveryCrypto/contactDiscoveryCrypto.go | 6 +++++-
 server.go                                        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/contactDiscoveryCrypto/contactDiscoveryCrypto.go b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
index d8136f6..6bfeed5 100644
--- a/contactDiscoveryCrypto/contactDiscoveryCrypto.go
+++ b/contactDiscoveryCrypto/contactDiscoveryCrypto.go
@@ -195,6 +195,10 @@ func aesDecrypt(key, nonce, data, mac, aad []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	ciphertext := append(data, mac...)
+	if len(nonce) != aesgcm.NonceSize() {
+		return nil, errors.New("wrong nonce length")
+	}
+	ciphertext := make([]byte, 0, len(data)+len(mac))
+	ciphertext = append(append(ciphertext, data...), mac...)
 	return aesgcm.Open(nil, nonce, ciphertext, aad)
 }
diff --git a/server.go b/server.go
index 2f8afc9..8e2c390 100644
--- a/server.go
+++ b/server.go
@@ -607,7 +607,7 @@ func getContactDiscoveryRegisteredUsers(authorization string, request *contactDi
 	discoveryResponse := &contactDiscoveryCrypto.DiscoveryResponse{}
 	dec := json.NewDecoder(resp.Body)
 	log.Debugln("[textsecure] GetAndVerifyMultiRemoteAttestation resp")
-	err = dec.Decode(&discoveryResponse)
+	err = dec.Decode(discoveryResponse)
 	if err != nil {
 		return nil, err
 	}
@@ -688,6 +688,9 @@ func GetRegisteredContacts() ([]contacts.Contact, error) {
 	}
 	uuidlength := 16
 	ind := 0
+	if len(responseData) != len(tokens)*uuidlength {
+		return nil, fmt.Errorf("contact discovery answers %d bytes for %d numbers", len(responseData), len(tokens))
+	}
 
 	contacts.Contacts = map[string]contacts.Contact{}
 	for _, phone := range tokens {
-- 
2.43.0


From 7780bce3d0a9de5eba8e12603c98bce358c95c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 069/130] fix: give a linked device the profile key of the
 account

---
 server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server.go b/server.go
index 8e2c390..0b4a2b6 100644
--- a/server.go
+++ b/server.go
@@ -484,6 +484,7 @@ func addNewDevice(ephemeralId, publicKey, verificationCode string) error {
 		Aci:                   &config.ConfigFile.UUID,
 		ProvisioningCode:      &verificationCode,
 		Number:                &config.ConfigFile.Tel,
+		ProfileKey:            config.ConfigFile.ProfileKey,
 	}
 
 	ciphertext, err := provisioningCipher(pm, theirPublicKey)
-- 
2.43.0


From 163519a87e93d17d178f6f041e72c2817e9d03d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 070/130] fix: report when the server refuses to list, link or
 unlink devices

---
 server.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 0b4a2b6..6974e91 100644
--- a/server.go
+++ b/server.go
@@ -427,9 +427,18 @@ func getNewDeviceVerificationCode() (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if resp.IsError() {
+		return "", resp
+	}
 	dec := json.NewDecoder(resp.Body)
 	var c jsonDeviceCode
-	dec.Decode(&c)
+	err = dec.Decode(&c)
+	if err != nil {
+		return "", err
+	}
+	if c.VerificationCode == "" {
+		return "", errors.New("no verification code")
+	}
 	return c.VerificationCode, nil
 
 }
@@ -452,21 +461,27 @@ func getLinkedDevices() ([]DeviceInfo, error) {
 	if err != nil {
 		return devices.DeviceList, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&devices)
+	err = dec.Decode(devices)
 	if err != nil {
-		return devices.DeviceList, nil
+		return nil, err
 	}
 
 	return devices.DeviceList, nil
 }
 
 func unlinkDevice(id int) error {
-	_, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
+	resp, err := transport.Transport.Del(fmt.Sprintf(devicePath, strconv.Itoa(id)))
 	if err != nil {
 		return err
 	}
+	if resp.IsError() {
+		return resp
+	}
 	return nil
 }
 
-- 
2.43.0


From 282041fa1b4967e865c6d47cb76e44fe90b98a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 071/130] fix: escape the address of a new device in the
 request path

---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 6974e91..38fa66a 100644
--- a/server.go
+++ b/server.go
@@ -13,6 +13,7 @@ import (
 	"fmt"
 	"io"
 	"mime/quotedprintable"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -514,8 +515,8 @@ func addNewDevice(ephemeralId, publicKey, verificationCode string) error {
 		return err
 	}
 
-	url := fmt.Sprintf(provisioningMessagePath, ephemeralId)
-	resp, err := transport.Transport.PutJSON(url, body)
+	path := fmt.Sprintf(provisioningMessagePath, url.PathEscape(ephemeralId))
+	resp, err := transport.Transport.PutJSON(path, body)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3ee24450dccead3b49f09ea7855faa9bb6910d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 072/130] fix: do not keep the verification code of a failed
 attempt to link a device

---
 link.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/link.go b/link.go
index c39b679..29e8c17 100644
--- a/link.go
+++ b/link.go
@@ -3,16 +3,22 @@
 package textsecure
 
 import (
+	"sync"
 	"time"
 
 	log "github.com/sirupsen/logrus"
 )
 
-var code2 string
+var (
+	code2     string
+	codeMutex sync.Mutex
+)
 
 // AddNewLinkedDevice adds a new signal desktop client
 func AddNewLinkedDevice(uuid string, publicKey string) error {
 	log.Printf("AddNewLinkedDevice")
+	codeMutex.Lock()
+	defer codeMutex.Unlock()
 	if code2 == "" {
 		code, err := getNewDeviceVerificationCode()
 		if err != nil {
@@ -24,12 +30,17 @@ func AddNewLinkedDevice(uuid string, publicKey string) error {
 	err := addNewDevice(uuid, publicKey, code2)
 	if err != nil {
 		log.Errorf(err.Error())
+		// do not use the code again when it has expired in the meantime
+		code2 = ""
 		return err
 	}
-	timer := time.NewTimer(10 * time.Second)
-	go func() {
-		<-timer.C
-		code2 = ""
-	}()
+	used := code2
+	time.AfterFunc(10*time.Second, func() {
+		codeMutex.Lock()
+		defer codeMutex.Unlock()
+		if code2 == used {
+			code2 = ""
+		}
+	})
 	return nil
 }
-- 
2.43.0


From 04fda1459c4d8fe40773cb09c1667fec90ceb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 073/130] fix: keep groups that can not be stored and the lists
 of the caller as they were

---
 groups.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/groups.go b/groups.go
index 97ebf1c..7e8fe1a 100644
--- a/groups.go
+++ b/groups.go
@@ -337,15 +337,27 @@ func newPartlyGroup(id []byte) (*Group, error) {
 	return groups[hexid], nil
 }
 
+// withOwnNumber returns the members and our phone number.
+func withOwnNumber(members []string) []string {
+	all := make([]string, 0, len(members)+1)
+	all = append(all, members...)
+	return append(all, config.ConfigFile.Tel)
+}
+
 func changeGroup(hexid, name string, members []string) (*Group, error) {
 	g, ok := groups[hexid]
 	if !ok {
 		return nil, UnknownGroupIDError{hexid}
 	}
 
+	oldName, oldMembers := g.Name, g.Members
 	g.Name = name
-	g.Members = append(members, config.ConfigFile.Tel)
-	saveGroup(hexid)
+	g.Members = withOwnNumber(members)
+	err := saveGroup(hexid)
+	if err != nil {
+		g.Name, g.Members = oldName, oldMembers
+		return nil, err
+	}
 
 	return g, nil
 }
@@ -378,10 +390,11 @@ func newGroup(name string, members []string) (*Group, error) {
 		ID:      id,
 		Hexid:   hexid,
 		Name:    name,
-		Members: append(members, config.ConfigFile.Tel),
+		Members: withOwnNumber(members),
 	}
 	err := saveGroup(hexid)
 	if err != nil {
+		delete(groups, hexid)
 		return nil, err
 	}
 	return groups[hexid], nil
-- 
2.43.0


From f47403a72557e44b860bebb0d14d39faa3ebed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 074/130] fix: do not change the member list of a message when
 a member quits

---
 groups.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/groups.go b/groups.go
index 7e8fe1a..a748895 100644
--- a/groups.go
+++ b/groups.go
@@ -113,8 +113,9 @@ func setupGroups() error {
 func removeMember(tel string, members []string) []string {
 	for i, m := range members {
 		if m == tel {
-			members = append(members[:i], members[i+1:]...)
-			break
+			left := make([]string, 0, len(members)-1)
+			left = append(left, members[:i]...)
+			return append(left, members[i+1:]...)
 		}
 	}
 	return members
@@ -141,7 +142,7 @@ func updateGroup(gr *signalservice.GroupContext) error {
 		ID:      gr.GetId(),
 		Hexid:   hexid,
 		Name:    gr.GetName(),
-		Members: gr.GetMembersE164(),
+		Members: append([]string{}, gr.GetMembersE164()...),
 		Avatar:  buf.Bytes(),
 	}
 	return saveGroup(hexid)
-- 
2.43.0


From 3ae7adf15fcd29ed4158a99fac6a63c3351d2960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 075/130] fix: forget a group that was left

---
 groups.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groups.go b/groups.go
index a748895..81d67e4 100644
--- a/groups.go
+++ b/groups.go
@@ -461,6 +461,7 @@ func removeGroup(id []byte) error {
 	if err != nil {
 		return err
 	}
+	delete(groups, hexid)
 	return nil
 }
 
@@ -495,8 +496,7 @@ func LeaveGroup(hexid string) error {
 			}
 		}
 	}
-	removeGroup(g.ID)
-	return nil
+	return removeGroup(g.ID)
 }
 
 func JoinGroup(hexID string) (*groupsv2.GroupV2, error) {
-- 
2.43.0


From cd1ad6939804406fecd99570d3e1dbacdb41304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 076/130] fix: load the groups of a storage directory with
 "avatar" in its path

---
 groups.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groups.go b/groups.go
index 81d67e4..5594f80 100644
--- a/groups.go
+++ b/groups.go
@@ -99,7 +99,7 @@ func setupGroups() error {
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
 		if !fi.IsDir() {
-			if !strings.Contains(path, "avatar") {
+			if !strings.Contains(fi.Name(), "avatar") {
 				loadGroup(path)
 			}
 		}
-- 
2.43.0


From f8f6eaf63f73114e4d8ed3037e93b3e42c9d1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 077/130] fix: keep contacts without an account apart when they
 are read back

---
 contacts/contacts.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/contacts/contacts.go b/contacts/contacts.go
index ef17b1e..0164369 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -41,6 +41,9 @@ func (c *Contact) GetProfileKey() []byte {
 	return c.ProfileKey
 }
 
+// unregisteredUUID is what the contact discovery gives a contact without an account
+const unregisteredUUID = "00000000-0000-0000-0000-000000000000"
+
 type yamlContacts struct {
 	Contacts []Contact
 }
@@ -53,13 +56,16 @@ var (
 // LoadContacts reads a YAML contacts file
 func LoadContacts(contactsYaml *yamlContacts) {
 	for _, c := range contactsYaml.Contacts {
-		if c.UUID != "" && c.UUID != "0" && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
-			Contacts[c.UUID] = c
+		Contacts[contactKey(&c)] = c
+	}
+}
 
-		} else {
-			Contacts[c.Tel] = c
-		}
+// contactKey is the UUID of a contact or, when it has none, its phone number
+func contactKey(c *Contact) string {
+	if c.UUID != "" && c.UUID != "0" && c.UUID != unregisteredUUID && (c.UUID[0] != 0 || c.UUID[len(c.UUID)-1] != 0) {
+		return c.UUID
 	}
+	return c.Tel
 }
 
 var filePath string
@@ -129,7 +135,7 @@ func updateContact(c *signalservice.ContactDetails) error {
 	// }
 	// avatar, _ := io.ReadAll(buf)
 
-	Contacts[c.GetUuid()] = Contact{
+	contact := Contact{
 		Tel:  c.GetNumber(),
 		UUID: c.GetUuid(),
 		Name: c.GetName(),
@@ -143,6 +149,7 @@ func updateContact(c *signalservice.ContactDetails) error {
 		InboxPosition: c.GetInboxPosition(),
 		Archived:      c.GetArchived(),
 	}
+	Contacts[contactKey(&contact)] = contact
 	// log.Debugln("[textsecure] avatar", c.GetAvatar())
 	return WriteContactsToPath()
 }
-- 
2.43.0


From d1b48ba287b84c3b0fa9e9f9abc4353bd804842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 078/130] fix: make profile keys and nonces from the system's
 randomness

---
 profiles/profile.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 092628b..1469c97 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -2,13 +2,13 @@ package profiles
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
-	"math/rand"
 
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
@@ -43,7 +43,9 @@ type ProfileSettings struct {
 // GenerateProfileKey generates a new ProfileKey
 func GenerateProfileKey() []byte {
 	profileKey := make([]byte, 32)
-	rand.Read(profileKey)
+	if _, err := rand.Read(profileKey); err != nil {
+		panic(err)
+	}
 	return profileKey
 }
 func uuidToByte(id string) []byte {
@@ -108,7 +110,9 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	}
 	padded := append(input, make([]byte, paddedLength-inputLength)...)
 	nonce := make([]byte, 12)
-	rand.Read(nonce)
+	if _, err := rand.Read(nonce); err != nil {
+		return nil, err
+	}
 	ciphertext, err := crypto.AesgcmEncrypt(key, nonce, padded)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5fceae4dd2c8a3f319d2530fbc7974c1470592c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 079/130] fix: pad a name outside of the caller's data

---
 profiles/profile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 1469c97..a046ec4 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -108,7 +108,8 @@ func encryptName(key, input []byte, paddedLength int) ([]byte, error) {
 	if inputLength > paddedLength {
 		return nil, errors.New("Input too long")
 	}
-	padded := append(input, make([]byte, paddedLength-inputLength)...)
+	padded := make([]byte, paddedLength)
+	copy(padded, input)
 	nonce := make([]byte, 12)
 	if _, err := rand.Read(nonce); err != nil {
 		return nil, err
-- 
2.43.0


From f2a994f20400830b49b18ffa2a139fc4733cdcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 080/130] fix: refuse an avatar or an avatar key that is too
 short

---
 profiles/avatars.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index 448a5ea..ae35b89 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -118,6 +118,9 @@ func setupAvatarsPath() error {
 }
 
 func decryptAvatar(avatar []byte, identityKey []byte) ([]byte, error) {
+	if len(avatar) < NONCE_LEN || len(identityKey) < 32 {
+		return nil, fmt.Errorf("avatar or its key is too short")
+	}
 	nonce := avatar[:NONCE_LEN]
 	encrypted_avatar := avatar[NONCE_LEN:]
 	decryptedAvatar, err := decrypt(identityKey[:32], encrypted_avatar, nonce)
-- 
2.43.0


From 61da37cc834a059280abe2c83263534f4be3c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 081/130] fix: decrypt the about text of a profile without a
 name

---
 profiles/profile.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index a046ec4..f34f984 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -294,24 +294,23 @@ func decryptProfile(profileKey []byte, profile *Profile) error {
 			return err
 		}
 		profile.Name = name
-
-		if profile.About != "" {
-			about, err := decryptString(profileKey, profile.About)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile about", err)
-				return err
-			}
-			profile.About = about
+	}
+	if profile.About != "" {
+		about, err := decryptString(profileKey, profile.About)
+		if err != nil {
+			log.Debugln("[textsecure] decryptProfile about", err)
+			return err
 		}
-		if profile.AboutEmoji != "" {
+		profile.About = about
+	}
+	if profile.AboutEmoji != "" {
 
-			emoji, err := decryptString(profileKey, profile.AboutEmoji)
-			if err != nil {
-				log.Debugln("[textsecure] decryptProfile aboutEmoji", err)
-				return err
-			}
-			profile.AboutEmoji = emoji
+		emoji, err := decryptString(profileKey, profile.AboutEmoji)
+		if err != nil {
+			log.Debugln("[textsecure] decryptProfile aboutEmoji", err)
+			return err
 		}
+		profile.AboutEmoji = emoji
 	}
 	identityKey, err := base64.StdEncoding.DecodeString(profile.IdentityKey)
 	if err != nil {
-- 
2.43.0


From fe3879292164e17b11095f07dadbeb7ecd0df764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 082/130] fix: do not take a server's error answer for a
 profile or an avatar

---
 profiles/avatars.go | 3 +++
 profiles/profile.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/profiles/avatars.go b/profiles/avatars.go
index ae35b89..5424b5e 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -34,6 +34,9 @@ func GetRemoteAvatar(avatarURL string) (io.ReadCloser, error) {
 
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 
 	return resp.Body, nil
 }
diff --git a/profiles/profile.go b/profiles/profile.go
index f34f984..5ccaa42 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -171,6 +171,9 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 	if err != nil {
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -242,6 +245,9 @@ func GetProfileAndCredential(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfileAndCredential", err)
 		return nil, err
 	}
+	if resp.IsError() {
+		return nil, resp
+	}
 	profile := &Profile{}
 	bytes, err := io.ReadAll(resp.Body)
 	if err != nil {
@@ -400,6 +406,9 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid fetch profile:", err)
 			return nil, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 
 		dec := json.NewDecoder(resp.Body)
 		err = dec.Decode(&profile)
-- 
2.43.0


From 97ea2028cef4ffba327318120401551a703a8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 083/130] fix: return the decrypted profile

---
 profiles/profile.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 5ccaa42..3f3a004 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -185,15 +185,13 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 		log.Debugln("[textsecure] GetProfile decode error", err)
 		return nil, err
 	} else {
-		err = decryptProfile(profileKey, profile)
-		if err != nil {
-			log.Errorln("[textsecure] decrypt profile error", err)
-			// return nil, err
-		}
 		resp, err = transport.Transport.GetWithUnidentifiedAccessKey(fmt.Sprintf(PROFILE_PATH, UUID), []byte(profile.UnidentifiedAccess))
 		if err != nil {
 			return profile, err
 		}
+		if resp.IsError() {
+			return nil, resp
+		}
 		bytes, err := io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, err
@@ -203,6 +201,11 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 			log.Debugln("[textsecure] GetProfile decode error", err)
 			return nil, err
 		}
+		err = decryptProfile(profileKey, profile)
+		if err != nil {
+			log.Errorln("[textsecure] decrypt profile error", err)
+			// return nil, err
+		}
 	}
 	return profile, nil
 
-- 
2.43.0


From 516d86e885153c2eeda2e52b3d2599a1a3ee28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 084/130] fix: keep a fetched profile under the account it was
 asked for

---
 profiles/profile.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 3f3a004..5ef1add 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -442,14 +442,15 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 						log.Errorln("[textsecure] GetProfileUuid Avatar decryption failed", err)
 						profile.Avatar = ""
 
-					}
-					err = saveLocalAvatar(profile.UUID, avatarDecrypted)
-					if err != nil {
-						log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+					} else {
+						err = saveLocalAvatar(uuid, avatarDecrypted)
+						if err != nil {
+							log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+						}
 					}
 				} else {
 					log.Errorln("[textsecure] GetProfileUuid decrypting avatar failed: avatar is empty")
-
+					profile.Avatar = ""
 				}
 			}
 		}
@@ -466,7 +467,7 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 	if c.Name == "" {
 		c.Name = profile.Name
 	}
-	c.UUID = profile.UUID
+	c.UUID = uuid
 	if profile.Avatar != "" {
 		c.HasAvatar = true
 		c.AvatarImg = avatarDecrypted
-- 
2.43.0


From a6f66187b826835fa5d7aad61a3e79de2295add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 085/130] fix: do not show the ciphertext of a profile as the
 contact's name

---
 profiles/profile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiles/profile.go b/profiles/profile.go
index 5ef1add..5f69e17 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -419,6 +419,10 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
 		}
+		// without the profile key only the ciphertext of these is known
+		profile.Name = c.Username
+		profile.About = ""
+		profile.AboutEmoji = ""
 	}
 	var avatarDecrypted []byte
 
-- 
2.43.0


From 91ca9c881733684c250513d389f16abe86225216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 086/130] fix: report that the profile of a phone number could
 not be fetched

---
 profiles/profile.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 5f69e17..4614c36 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -360,6 +360,10 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	resp, err := transport.Transport.Get(fmt.Sprintf(PROFILE_PATH, tel))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
+	}
+	if resp.IsError() {
+		return contacts.Contact{}, resp
 	}
 
 	profile := &Profile{}
@@ -368,9 +372,13 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 
-	avatar, _ := GetRemoteAvatar(profile.Avatar)
+	avatar, err := GetRemoteAvatar(profile.Avatar)
+	if err != nil {
+		return contacts.Contact{}, err
+	}
 	buf := new(bytes.Buffer)
 	buf.ReadFrom(avatar)
 
@@ -378,10 +386,12 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 	avatarDecrypted, err := decryptAvatar(buf.Bytes(), []byte(profile.IdentityKey))
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
+		return contacts.Contact{}, err
 	}
 	err = saveLocalAvatar(profile.UUID, avatarDecrypted)
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 saving avatar failed ", err)
+		return contacts.Contact{}, err
 	}
 	c.Name = profile.Name
 	c.UUID = profile.UUID
-- 
2.43.0


From 2ee7472abe79349dbb8ff7cf48bc5f4dd86c84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 087/130] fix: refuse group changes with absent parts instead
 of crashing

---
 groupsv2/groupAuth.go      | 24 ++++++++++++------------
 groupsv2/groupChange.go    | 18 +++++++++++++++---
 groupsv2/groupValidator.go |  6 +++---
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/groupsv2/groupAuth.go b/groupsv2/groupAuth.go
index 97c0863..cce107e 100644
--- a/groupsv2/groupAuth.go
+++ b/groupsv2/groupAuth.go
@@ -14,12 +14,12 @@ func isPromoteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group
 
 func isDeleteMembersPendingAdminApprovalAllowed(user *entities.GroupUser, group *GroupV2, actions []*signalservice.GroupChange_Actions_DeleteRequestingMemberAction) bool {
 	return isAdminstrator(user, group) ||
-		len(actions) == 1 && user.IsMember(actions[0].DeletedUserId, group.MasterKey)
+		len(actions) == 1 && user.IsMember(actions[0].GetDeletedUserId(), group.MasterKey)
 
 }
 
 func isAddMembersPendingAdminApprovalAllowed(user *entities.GroupUser, inviteLinkPassword []byte, group *GroupV2) bool {
-	return group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ADMINISTRATOR &&
+	return group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ADMINISTRATOR &&
 		bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword)
 }
 
@@ -42,7 +42,7 @@ func isModifyAttributesAllowed(user *entities.GroupUser, group *GroupV2) bool {
 	if source == nil {
 		return false
 	}
-	switch group.DecryptedGroup.AccessControl.Attributes {
+	switch group.DecryptedGroup.GetAccessControl().GetAttributes() {
 	case signalservice.AccessControl_ANY:
 		return true
 	case signalservice.AccessControl_MEMBER:
@@ -58,7 +58,7 @@ func isDeleteMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *Gr
 	if isAdminstrator(user, group) {
 		return true
 	}
-	return len(actions) == 1 && user.IsMember(actions[0].DeletedUserId, group.MasterKey)
+	return len(actions) == 1 && user.IsMember(actions[0].GetDeletedUserId(), group.MasterKey)
 }
 func isAddMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *GroupV2) bool {
 
@@ -68,8 +68,8 @@ func isAddMembersPendingProfileKeyAllowed(user *entities.GroupUser, group *Group
 	}
 
 	return member.Role == signalservice.Member_ADMINISTRATOR ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-		group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+		group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 
 }
 
@@ -88,7 +88,7 @@ func isDeleteMemberAllowed(user *entities.GroupUser,
 	if isAdminstrator(user, group) {
 		return true
 	}
-	return len(members) == 1 && user.IsMember(members[0].DeletedUserId, group.MasterKey)
+	return len(members) == 1 && user.IsMember(members[0].GetDeletedUserId(), group.MasterKey)
 
 }
 func isAddMemberAllowed(user *entities.GroupUser,
@@ -101,19 +101,19 @@ func isAddMemberAllowed(user *entities.GroupUser,
 		case signalservice.Member_ADMINISTRATOR:
 			return true
 		case signalservice.Member_DEFAULT:
-			return group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_MEMBER ||
-				group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY
+			return group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_MEMBER ||
+				group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY
 		default:
 			return false
 
 		}
 	}
 
-	return (group.DecryptedGroup.AccessControl.Members == signalservice.AccessControl_ANY ||
-		(group.DecryptedGroup.AccessControl.AddFromInviteLink == signalservice.AccessControl_ANY &&
+	return (group.DecryptedGroup.GetAccessControl().GetMembers() == signalservice.AccessControl_ANY ||
+		(group.DecryptedGroup.GetAccessControl().GetAddFromInviteLink() == signalservice.AccessControl_ANY &&
 			bytes.Equal(group.DecryptedGroup.InviteLinkPassword, inviteLinkPassword))) &&
 		len(actions) == 1 &&
-		user.IsMember(actions[0].Added.UserId, group.MasterKey)
+		user.IsMember(actions[0].GetAdded().GetUserId(), group.MasterKey)
 
 }
 func IsAccessRequiredOneOf(valueToTest signalservice.AccessControl_AccessRequired, acceptableValues ...signalservice.AccessControl_AccessRequired) bool {
diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 344cef7..f0f62f8 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -139,7 +139,7 @@ func (g *GroupChangeApplicator) ApplyDeleteMembersPendingAdminApproval(user *ent
 	}
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range actions {
-		if actions == nil {
+		if item == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
 		}
 		key := getKey(item.DeletedUserId)
@@ -184,7 +184,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 	}
 	mapModifyUserId := make(map[string]struct{})
 	for _, item := range actions {
-		if actions == nil {
+		if item.GetAdded() == nil {
 			return entities.Status(http.StatusBadRequest, "nil ptr in request")
 		}
 		key := getKey(item.Added.UserId)
@@ -250,6 +250,9 @@ func (g *GroupChangeApplicator) ApplyModifyAddFromInviteLinkAccess(user *entitie
 		return entities.Status(http.StatusBadRequest, "  action.AddFromInviteLinkAccess invalid")
 	}
 
+	if group.DecryptedGroup.AccessControl == nil {
+		group.DecryptedGroup.AccessControl = &signalservice.AccessControl{}
+	}
 	group.DecryptedGroup.AccessControl.AddFromInviteLink = action.AddFromInviteLinkAccess
 
 	return nil
@@ -271,6 +274,9 @@ func (g *GroupChangeApplicator) ApplyModifyMembersAccess(user *entities.GroupUse
 	if !isAdminstrator(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
 	}
+	if group.DecryptedGroup.AccessControl == nil {
+		group.DecryptedGroup.AccessControl = &signalservice.AccessControl{}
+	}
 	group.DecryptedGroup.AccessControl.Members = modifyMembersAccess.MembersAccess
 
 	return nil
@@ -292,6 +298,9 @@ func (g *GroupChangeApplicator) ApplyModifyAttributesAccess(user *entities.Group
 	if !isAdminstrator(user, groupImmut) {
 		return entities.Status(http.StatusForbidden, "isAdminstrator(user,group)")
 	}
+	if group.DecryptedGroup.AccessControl == nil {
+		group.DecryptedGroup.AccessControl = &signalservice.AccessControl{}
+	}
 	group.DecryptedGroup.AccessControl.Attributes = modifyAttributesAccess.AttributesAccess
 
 	return nil
@@ -460,7 +469,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 	}
 	mapAddUserId := make(map[string]struct{})
 	for _, item := range addMembersPendingProfileKeys {
-		if item.Added.Member == nil {
+		if item.GetAdded().GetMember() == nil {
 			return entities.Status(http.StatusBadRequest, "No member")
 		}
 		if len(item.Added.Member.UserId) == 0 {
@@ -663,6 +672,9 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 
 	mapModifyUserId := make(map[string]struct{})
 	for _, action := range addMembers {
+		if action.GetAdded() == nil {
+			return entities.Status(http.StatusBadRequest, "nil ptr in request")
+		}
 		key := getKey(action.Added.UserId)
 		if _, ok := mapModifyUserId[key]; ok {
 			return entities.Status(http.StatusBadRequest, "BadRequset Duplicates userId")
diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 52fa7d8..900a4bb 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -67,15 +67,15 @@ func (g *GroupValidator) ValidateAccessControl(group *signalservice.DecryptedGro
 
 	accessControl := group.AccessControl
 	list := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_MEMBER, signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_ADMINISTRATOR}
-	if !IsAccessRequiredOneOf(accessControl.Attributes, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAttributes(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.Members, list...) {
+	if !IsAccessRequiredOneOf(accessControl.GetMembers(), list...) {
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.AddFromInviteLink, append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAddFromInviteLink(), append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
 		return errors.New("add from invite link access invalid")
 	}
 
-- 
2.43.0


From d5f8aed225110bdf8e2f899b120cdd625a69b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 088/130] fix: accept invitations without a profile key, not
 those with one

---
 groupsv2/groupChange.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index f0f62f8..1754ee4 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -475,10 +475,10 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		if len(item.Added.Member.UserId) == 0 {
 			return entities.Status(http.StatusBadRequest, "No user id")
 		}
-		if len(item.Added.Member.ProfileKey) == 0 {
+		if len(item.Added.Member.ProfileKey) != 0 {
 			return entities.Status(http.StatusBadRequest, "Profile key present for invitation")
 		}
-		if len(item.Added.Member.Presentation) == 0 {
+		if len(item.Added.Member.Presentation) != 0 {
 			return entities.Status(http.StatusBadRequest, "Presentation not empty for invitation")
 		}
 		if item.Added.Member.Role == signalservice.Member_UNKNOWN {
-- 
2.43.0


From 8cc56b2ca6045a5c07496c209bc8259d42ce4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 089/130] fix: an invited member who accepts becomes a member

---
 groupsv2/groupChange.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 1754ee4..5b76f33 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -401,14 +401,21 @@ func (g *GroupChangeApplicator) ApplyPromoteMembersPendingProfileKey(user *entit
 		profileKeyCiphertext, _ := item.ProfileKeyCiphertext()
 		mapModifyUserId[k] = profileKeyCiphertext
 	}
-	for _, item := range group.GroupContext.PendingMembers {
-		key := getKey(item.Member.UserId)
+	var memberShip []*signalservice.DecryptedPendingMember
+	for _, item := range group.DecryptedGroup.PendingMembers {
+		key := getKey(item.Uuid)
 		if value, ok := mapModifyUserId[key]; ok {
-			item.Member.Presentation = nil
-			item.Member.ProfileKey = value
-			item.Member.JoinedAtRevision = group.Revision + 1
+			group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+				Uuid:             item.Uuid,
+				Role:             item.Role,
+				ProfileKey:       value,
+				JoinedAtRevision: group.Revision + 1,
+			})
+		} else {
+			memberShip = append(memberShip, item)
 		}
 	}
+	group.DecryptedGroup.PendingMembers = memberShip
 
 	return nil
 }
-- 
2.43.0


From acfae84afec225595d4d5f56ba57701939396953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 090/130] fix: list who asks to join a group among the requests

---
 groupsv2/groupChange.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index 5b76f33..ef1e83f 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -226,7 +226,11 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingAdminApproval(user *entiti
 		return entities.Status(http.StatusBadRequest, "request contains non-self user ids")
 	}
 	for _, item := range actions {
-		group.GroupContext.RequestingMembers = append(group.GroupContext.RequestingMembers, item.Added)
+		group.DecryptedGroup.RequestingMembers = append(group.DecryptedGroup.RequestingMembers, &signalservice.DecryptedRequestingMember{
+			Uuid:       item.Added.UserId,
+			ProfileKey: item.Added.ProfileKey,
+			Timestamp:  item.Added.Timestamp,
+		})
 	}
 
 	return nil
-- 
2.43.0


From 90004fc143232fabbf5814c12f2772b97fe20114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 091/130] fix: add no member of a refused group change

---
 groupsv2/groupChange.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index ef1e83f..b53d8de 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -86,6 +86,7 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		mapMember[getKey(item.Uuid)] = struct{}{}
 	}
 
+	var promoted []*signalservice.DecryptedMember
 	mapModifyUserId := make(map[string]signalservice.Member_Role)
 	for _, item := range actions {
 		if item == nil {
@@ -108,13 +109,14 @@ func (g *GroupChangeApplicator) ApplyPromotePendingAdminApproval(user *entities.
 		}
 		mapModifyUserId[key] = item.Role
 
-		group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, &signalservice.DecryptedMember{
+		promoted = append(promoted, &signalservice.DecryptedMember{
 			Uuid:             item.UserId,
 			Role:             item.Role,
 			JoinedAtRevision: group.Revision + 1,
 			ProfileKey:       v,
 		})
 	}
+	group.DecryptedGroup.Members = append(group.DecryptedGroup.Members, promoted...)
 	var ship []*signalservice.DecryptedRequestingMember
 	for _, item := range group.DecryptedGroup.RequestingMembers {
 		if _, ok := mapModifyUserId[getKey(item.Uuid)]; !ok {
@@ -722,6 +724,9 @@ func (g *GroupChangeApplicator) ApplyAddMembers(user *entities.GroupUser,
 		if action.Added.Role == signalservice.Member_UNKNOWN {
 			return entities.Status(http.StatusBadRequest, "addMember role is unknown")
 		}
+	}
+	for _, action := range addMembers {
+		userId := action.Added.UserId
 		member := &signalservice.DecryptedMember{
 			Role:             action.Added.Role,
 			JoinedAtRevision: group.Revision + 1,
-- 
2.43.0


From 0717cd6fc6ab310dcd917176c9ed433ae16d7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 092/130] fix: refuse groups with unknown access settings

---
 groupsv2/groupValidator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 900a4bb..dff9a66 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -66,7 +66,7 @@ func (g *GroupValidator) ValidatePresentationUpdate(source *entities.GroupUser,
 func (g *GroupValidator) ValidateAccessControl(group *signalservice.DecryptedGroup) error {
 
 	accessControl := group.AccessControl
-	list := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_MEMBER, signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_ADMINISTRATOR}
+	list := []signalservice.AccessControl_AccessRequired{signalservice.AccessControl_MEMBER, signalservice.AccessControl_ADMINISTRATOR}
 	if !IsAccessRequiredOneOf(accessControl.GetAttributes(), list...) {
 		return errors.New("attribute access invalid")
 	}
@@ -75,7 +75,7 @@ func (g *GroupValidator) ValidateAccessControl(group *signalservice.DecryptedGro
 		return errors.New("attribute access invalid")
 	}
 
-	if !IsAccessRequiredOneOf(accessControl.GetAddFromInviteLink(), append(list, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
+	if !IsAccessRequiredOneOf(accessControl.GetAddFromInviteLink(), append(list, signalservice.AccessControl_UNKNOWN, signalservice.AccessControl_ANY, signalservice.AccessControl_UNSATISFIABLE)...) {
 		return errors.New("add from invite link access invalid")
 	}
 
-- 
2.43.0


From 3fa951806034b8f88052074a0386250ca20527df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 093/130] fix: limit a group's description by its own limit

---
 groupsv2/groupValidator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index dff9a66..3e8071d 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -29,7 +29,7 @@ func NewGroupValidator(profileOp *zkgroup.ServerZkProfileOperations, config *con
 		profileOperations:              profileOp,
 		maxGroupSize:                   config.Group.MaxGroupSize,
 		maxGroupTitleLengthBytes:       config.Group.MaxGroupTitleLengthBytes,
-		maxGroupDescriptionLengthBytes: config.Group.MaxGroupTitleLengthBytes,
+		maxGroupDescriptionLengthBytes: config.Group.MaxGroupDescriptionLengthBytes,
 	}
 }
 
-- 
2.43.0


From 69fcac2b2428557fe208dd6b5e5fb28446348b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 094/130] fix: do not take the encrypted id of a new member for
 a uuid

---
 groupsv2/groupValidator.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 3e8071d..53981c2 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -364,12 +364,6 @@ func (g *GroupValidator) ValidateMember(group *GroupV2, member *signalservice.Me
 		return nil, errors.New("6." + err.Error())
 	}
 
-	userUUid, err := utils.UUIDStr(member.UserId)
-	if err != nil {
-		log.Errorln("[textsecure] groupsv2-validator 7.", err)
-		return nil, errors.New("7." + err.Error())
-	}
-	member.UserId = []byte(userUUid)
 	member.JoinedAtRevision = group.Revision
 	member.Presentation = nil //todo
 	return member, nil
-- 
2.43.0


From 0fca3d3289aa73e6d1830141f0a80115e73c4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 095/130] fix: keep a group as it was when a change to it is
 refused

---
 groupsv2/groupModify.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index 4d0da18..1da6d4b 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -22,7 +22,29 @@ type ModifyGroupParams struct {
 	InviteLinkPassword string `form:"inviteLinkPassword,optional"`
 }
 
+// ModifyGroup applies the actions to the group; if one of them is refused the
+// group stays as it was.
 func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams, submittedActions *signalservice.GroupChange_Actions) (*entities.Resp, error) {
+	if submittedActions == nil || g.DecryptedGroup == nil {
+		return nil, entities.Status(http.StatusBadRequest, "no actions or no group")
+	}
+	groupImmut := &GroupV2{
+		MasterKey:         g.MasterKey,
+		Hexid:             g.Hexid,
+		DecryptedGroup:    proto.Clone(g.DecryptedGroup).(*signalservice.DecryptedGroup),
+		Revision:          g.Revision,
+		AnnouncementsOnly: g.AnnouncementsOnly,
+	}
+	resp, err := g.modifyGroup(user, params, submittedActions, groupImmut)
+	if err != nil {
+		g.DecryptedGroup = groupImmut.DecryptedGroup
+		g.Revision = groupImmut.Revision
+		g.AnnouncementsOnly = groupImmut.AnnouncementsOnly
+	}
+	return resp, err
+}
+
+func (g *GroupV2) modifyGroup(user *entities.GroupUser, params ModifyGroupParams, submittedActions *signalservice.GroupChange_Actions, groupImmut *GroupV2) (*entities.Resp, error) {
 	groupChangeApplicator := GroupChangeApplicator{}
 	groupValidator := GroupValidator{}
 	// check path param
@@ -56,8 +78,6 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		return nil, entities.Status(http.StatusBadRequest, err.Error())
 	}
 
-	groupImmut := g
-
 	// 1.AddMember
 	err = groupChangeApplicator.ApplyAddMembers(user, inviteLinkPassword, g, submittedActions.AddMembers, groupImmut)
 	if err != nil {
-- 
2.43.0


From 8e7b8efbcdfb433679b35a6b0a37af4d7789266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 096/130] fix: judge group changes by the configured limits

---
 groupsv2/groupModify.go    | 16 ++++++++--------
 groupsv2/groupValidator.go |  9 +++++++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/groupsv2/groupModify.go b/groupsv2/groupModify.go
index 1da6d4b..5397fc7 100644
--- a/groupsv2/groupModify.go
+++ b/groupsv2/groupModify.go
@@ -5,6 +5,7 @@ import (
 	"net/http"
 
 	zkgroup "github.com/nanu-c/zkgroup"
+	"github.com/signal-golang/textsecure/config"
 	"github.com/signal-golang/textsecure/entities"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/utils"
@@ -45,8 +46,8 @@ func (g *GroupV2) ModifyGroup(user *entities.GroupUser, params ModifyGroupParams
 }
 
 func (g *GroupV2) modifyGroup(user *entities.GroupUser, params ModifyGroupParams, submittedActions *signalservice.GroupChange_Actions, groupImmut *GroupV2) (*entities.Resp, error) {
-	groupChangeApplicator := GroupChangeApplicator{}
-	groupValidator := GroupValidator{}
+	groupValidator := NewGroupValidator(nil, config.ConfigFile)
+	groupChangeApplicator := NewGroupChangeApplicator(groupValidator)
 	// check path param
 	var inviteLinkPassword []byte
 	if len(params.InviteLinkPassword) != 0 {
@@ -240,11 +241,7 @@ func (g *GroupV2) modifyGroup(user *entities.GroupUser, params ModifyGroupParams
 	if err != nil {
 		return nil, err
 	}
-	zkServerSecretParams, err := zkgroup.GenerateServerSecretParamsDeterministic(zkServerSecret)
-	if err != nil {
-		return nil, err
-	}
-	signature, err := zkServerSecretParams.Sign(bb)
+	signature, err := zkServerSecret.Sign(bb)
 	if err != nil {
 		return nil, entities.Status(http.StatusInternalServerError, err.Error())
 	}
@@ -266,7 +263,10 @@ func (g *GroupV2) modifyGroup(user *entities.GroupUser, params ModifyGroupParams
 		return nil, entities.Status(http.StatusInternalServerError, err.Error())
 	}
 
-	saveGroupV2(g.Hexid)
+	err = saveGroupV2(g.Hexid)
+	if err != nil {
+		return nil, entities.Status(http.StatusInternalServerError, err.Error())
+	}
 	return &entities.Resp{Obj: signedGroupChange}, nil
 }
 
diff --git a/groupsv2/groupValidator.go b/groupsv2/groupValidator.go
index 53981c2..531a5f0 100644
--- a/groupsv2/groupValidator.go
+++ b/groupsv2/groupValidator.go
@@ -37,6 +37,9 @@ func (g *GroupValidator) ValidatePresentationUpdate(source *entities.GroupUser,
 	group *GroupV2,
 	presentationData []byte) (zkgroup.ProfileKeyCredentialPresentation, error) {
 
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations can not be verified")
+	}
 	var publicParams zkgroup.GroupPublicParams = group.MasterKey
 	if len(presentationData) == 0 {
 		return nil, errors.New("ValidatePresentationUpdate 1.  presentationData is empty")
@@ -212,6 +215,9 @@ func (g *GroupValidator) ValidateMemberPendingAdminApproval(user *entities.Group
 	if memberPendingAdminApproval.Timestamp != 0 {
 		return nil, errors.New("timestamp should not be set in request")
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations can not be verified")
+	}
 	var publicParams zkgroup.GroupPublicParams = group.MasterKey
 	profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(memberPendingAdminApproval.Presentation)
 	if err != nil {
@@ -341,6 +347,9 @@ func (g *GroupValidator) ValidateMember(group *GroupV2, member *signalservice.Me
 		log.Errorln("[textsecure] groupsv2-validator 2.Missing presentation")
 		return nil, errors.New("2.Missing presentation")
 	}
+	if g.profileOperations == nil {
+		return nil, errors.New("presentations can not be verified")
+	}
 	var publicParams zkgroup.GroupPublicParams = publicKey
 	profileKeyCredentialPresentation, err := zkgroup.NewProfileKeyCredentialPresentation(member.Presentation)
 	if err != nil {
-- 
2.43.0


From 1d4ea3f12b9bb781f3f7bc540975a3959367ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 097/130] fix: do not crash when who leaves a group invites
 others

---
 groupsv2/groupChange.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groupsv2/groupChange.go b/groupsv2/groupChange.go
index b53d8de..cd9534e 100644
--- a/groupsv2/groupChange.go
+++ b/groupsv2/groupChange.go
@@ -525,7 +525,7 @@ func (g *GroupChangeApplicator) ApplyAddMembersPendingProfileKeys(user *entities
 		obj := &signalservice.DecryptedPendingMember{
 			Role:        item.Added.Member.Role,
 			Uuid:        item.Added.Member.UserId,
-			AddedByUuid: GetSourceMember(user, group).Uuid, //todo
+			AddedByUuid: GetSourceMember(user, groupImmut).Uuid, //todo
 			Timestamp:   uint64(utils.CurrentTimeMillis()),
 		}
 		group.DecryptedGroup.PendingMembers = append(group.DecryptedGroup.PendingMembers, obj)
-- 
2.43.0


From 797b388df5d19847d0996717934f31968d3f9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 098/130] fix: send the user agent and not the proxy as the
 user agent

---
 transport/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/transport.go b/transport/transport.go
index a20f82b..44df67b 100644
--- a/transport/transport.go
+++ b/transport/transport.go
@@ -128,7 +128,7 @@ func newHTTPTransporter(baseURL, user, pass string, userAgent string, proxyServe
 		},
 	}
 
-	return &httpTransporter{baseURL, user, pass, userAgent, proxyServer, client}
+	return &httpTransporter{baseURL, user, pass, proxyServer, userAgent, client}
 }
 
 func (ht *httpTransporter) Get(url string) (*response, error) {
-- 
2.43.0


From c4771a092561ded81a9fc7a00ea3ba2fe89dfd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 099/130] fix: derive the unidentified access key from the
 profile key

---
 server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 38fa66a..9a44318 100644
--- a/server.go
+++ b/server.go
@@ -311,8 +311,7 @@ func RegisterWithUPS(token string) error {
 
 // SetAccountCapabilities lets the client decide when it's ready for new functions to support for example groupsv2
 func SetAccountCapabilities(capabilities config.AccountCapabilities) error {
-	key := identityKey.PrivateKey.Key()[:]
-	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(key)
+	unidentifiedAccessKey, err := unidentifiedAccess.DeriveAccessKeyFrom(config.ConfigFile.ProfileKey)
 	if err != nil {
 		log.Errorln("[textsecure] SetAccountCapabilities ceating unidentifiedAccessKey: ", err)
 		return err
-- 
2.43.0


From dd5bdeca914f7ea870da25b9722d48ae4ca0b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 100/130] fix: report an unreadable answer about the own uuid
 as an error

---
 server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 9a44318..9fe34f8 100644
--- a/server.go
+++ b/server.go
@@ -414,7 +414,10 @@ func GetMyUUID() (string, error) {
 	}
 	dec := json.NewDecoder(resp.Body)
 	var response whoAmIResponse
-	dec.Decode(&response)
+	err = dec.Decode(&response)
+	if err != nil {
+		return "", err
+	}
 	return response.UUID, nil
 }
 
-- 
2.43.0


From 964c9e8fddbea6d05d1b2064bbeda1b9bfcf61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 101/130] fix: go on listening after a malformed websocket
 message

---
 websocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/websocket.go b/websocket.go
index fd8fd32..6dfd036 100644
--- a/websocket.go
+++ b/websocket.go
@@ -178,7 +178,7 @@ func StartListening() error {
 			log.WithFields(log.Fields{
 				"error": err,
 			}).Error("[textsecure] Failed to unmarshal websocket message")
-			return err
+			continue
 		}
 
 		m := wsm.GetRequest().GetBody()
-- 
2.43.0


From b7263a026c95168cbf9e6d7f1291a352fb897d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 102/130] fix: do not acknowledge websocket messages that are
 no requests

---
 websocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/websocket.go b/websocket.go
index 6dfd036..90c196f 100644
--- a/websocket.go
+++ b/websocket.go
@@ -181,6 +181,10 @@ func StartListening() error {
 			continue
 		}
 
+		if wsm.GetRequest() == nil {
+			// only requests are acknowledged
+			continue
+		}
 		m := wsm.GetRequest().GetBody()
 
 		if len(m) > 0 {
-- 
2.43.0


From c439be5dfe49d5ce4936b1f3f8fcc66b984a6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 103/130] fix: report a malformed sender certificate instead of
 ending the process

---
 unidentifiedAccess/unidentifiedAccess.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 593b9e2..9025d8a 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -42,12 +42,12 @@ func CheckCertificate(certificate []byte) error {
 	}
 	serverCert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(certificate, serverCert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return err
 	}
 	senderCertificate := &signalservice.SenderCertificate_Certificate{}
 	if err := proto.Unmarshal(serverCert.Certificate, senderCertificate); err != nil {
-		log.Fatalln("Failed to parse sender certificate:", err)
+		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
 	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
@@ -147,7 +147,7 @@ func GetOurCertificate() ([]byte, error) {
 	log.Infoln("[textsecure] Getting our certificate")
 	cert := &signalservice.ServerCertificate{}
 	if err := proto.Unmarshal(config.ConfigFile.Certificate, cert); err != nil {
-		log.Fatalln("Failed to parse certificate:", err)
+		log.Errorln("Failed to parse certificate:", err)
 		return nil, err
 	}
 	return cert.Certificate, nil
-- 
2.43.0


From 54ca4a62c57e67d7f5fff3ee3926194482fc2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 104/130] fix: do not crash on a sender certificate without an
 expiry time

---
 unidentifiedAccess/unidentifiedAccess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 9025d8a..521dc8e 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -50,7 +50,7 @@ func CheckCertificate(certificate []byte) error {
 		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if *senderCertificate.Expires < uint64(time.Now().Unix()) {
+	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
-- 
2.43.0


From 3ace49de4e46c73a815b586e0444fe334b0a4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 105/130] fix: read the expiry time of a sender certificate in
 milliseconds

---
 unidentifiedAccess/unidentifiedAccess.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 521dc8e..3216d25 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -50,7 +50,8 @@ func CheckCertificate(certificate []byte) error {
 		log.Errorln("Failed to parse sender certificate:", err)
 		return err
 	}
-	if senderCertificate.GetExpires() < uint64(time.Now().Unix()) {
+	// the expiry time is in milliseconds
+	if senderCertificate.GetExpires() < uint64(time.Now().UnixNano()/int64(time.Millisecond)) {
 		log.Errorln("Certificate expired")
 		return errors.New("certificate expired")
 	}
-- 
2.43.0


From 69f7f5df7dce55efe8816b960394f075fca324a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 106/130] fix: report when the access key of a contact can not
 be derived

---
 unidentifiedAccess/unidentifiedAccess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 3216d25..5d291ef 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -132,6 +132,9 @@ func GetAccessForUUID(recipent contacts.Contact) (*UnidentifiedAccessPair, error
 		return nil, err
 	}
 	theirUnidentifiedAccessKey, err := GetTargetUnidentifiedAccessKey(recipent)
+	if err != nil {
+		return nil, err
+	}
 
 	return &UnidentifiedAccessPair{
 		TargetUnidentifiedAccess: UnidentifiedAccess{
-- 
2.43.0


From 1b1c1d6af3b5bb0095d4628f3680eed8e80ee5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 107/130] fix: treat an empty profile key of a contact as none

---
 unidentifiedAccess/unidentifiedAccess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidentifiedAccess/unidentifiedAccess.go b/unidentifiedAccess/unidentifiedAccess.go
index 5d291ef..eb732de 100644
--- a/unidentifiedAccess/unidentifiedAccess.go
+++ b/unidentifiedAccess/unidentifiedAccess.go
@@ -80,7 +80,7 @@ func GetAccessForSync(profileKey []byte, cert []byte) (*UnidentifiedAccess, erro
 }
 func GetTargetUnidentifiedAccessKey(contact contacts.Contact) ([]byte, error) {
 	log.Infoln("[textsecure] Getting target unidentified access key")
-	if contact.ProfileKey != nil {
+	if len(contact.ProfileKey) > 0 {
 		return DeriveAccessKeyFrom(contact.ProfileKey)
 	} else {
 		token := make([]byte, 16)
-- 
2.43.0


From f494b9a4e8cbe8ff9dfd9d603ad12ccc54209267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 108/130] fix: skip malformed messages of the helper process

---
 crayfish/backend.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crayfish/backend.go b/crayfish/backend.go
index 40551fe..c5958e1 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -322,7 +322,7 @@ func (c *CrayfishInstance) StartWebsocket() error {
 			log.WithFields(log.Fields{
 				"error": err,
 			}).Error("[textsecure-crayfish-ws] Failed to unmarshal websocket message")
-			return err
+			continue
 		}
 		if csm.Type == nil {
 			log.Errorln("[textsecure-crayfish-ws] Websocket message type is nil", string(bmsg))
@@ -359,11 +359,17 @@ func (c *CrayfishInstance) StopListening() error {
 }
 
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
+	if request == nil || request.Type == nil {
+		return errors.New("request without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket request message", *request.Type)
 	return nil
 }
 
 func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSocketResponseMessage) error {
+	if response == nil || response.Type == nil {
+		return errors.New("response without a type")
+	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
 	if c.receiveChannel != nil && *response.Type > 1 {
 		c.receiveChannel <- response
-- 
2.43.0


From f83491cd740309966db8eca3d2aeb2a93391a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 109/130] fix: hand each answer of the helper process to the
 request it belongs to

---
 crayfish/avatar.go   |   7 +--
 crayfish/backend.go  | 106 ++++++++++++++++++++++++++++++++++++++-----
 crayfish/envelope.go |   7 +--
 crayfish/register.go |  10 ++--
 4 files changed, 107 insertions(+), 23 deletions(-)

diff --git a/crayfish/avatar.go b/crayfish/avatar.go
index 6893154..1df707b 100644
--- a/crayfish/avatar.go
+++ b/crayfish/avatar.go
@@ -34,9 +34,10 @@ func (c *CrayfishInstance) DecryptAvatar(avatar, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] avatar send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(m, CrayfishWebSocketResponseMessageTyp_DECRYPT_AVATAR)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] avatar recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/backend.go b/crayfish/backend.go
index c5958e1..b2adb19 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -27,6 +27,8 @@ var (
 	// ErrNotListening is returned when trying to stop listening when there's no
 	// valid listening connection set up
 	ErrNotListening = errors.New("[textsecure-crayfish-ws] there is no listening connection to stop")
+	// ErrConnectionLost is returned when the connection ended before a response to a request arrived
+	ErrConnectionLost = errors.New("[textsecure-crayfish-ws] the connection to crayfish is lost")
 )
 
 type CrayfishInstance struct {
@@ -34,6 +36,9 @@ type CrayfishInstance struct {
 	cmd            *exec.Cmd
 	stopping       bool
 	receiveChannel chan *CrayfishWebSocketResponseMessage
+	responseType   CrayfishWebSocketResponseMessageType // what receiveChannel waits for
+	mutex          sync.Mutex                           // guards wsconn, receiveChannel and responseType
+	requestMutex   sync.Mutex                           // held while a request waits for its response
 	LocalUUID      string
 	LocalDeviceID  int32
 }
@@ -109,6 +114,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// Closed when the connection has ended
+	done chan struct{}
 }
 
 func Run() {
@@ -288,27 +296,31 @@ func (c *CrayfishInstance) StartListening() error {
 func (c *CrayfishInstance) StartWebsocket() error {
 	var err error
 
-	c.wsconn = &Conn{send: make(chan []byte, 256)}
-	err = c.wsconn.connect(serverAdress + websocketPath)
+	wsconn := &Conn{send: make(chan []byte, 256), done: make(chan struct{})}
+	defer close(wsconn.done)
+	err = wsconn.connect(serverAdress + websocketPath)
 	if err != nil {
 		log.Errorf(err.Error())
 		return err
 	}
+	c.mutex.Lock()
+	c.wsconn = wsconn
+	c.mutex.Unlock()
 
-	defer c.wsconn.ws.Close()
+	defer wsconn.ws.Close()
 
 	// Can only have a single goroutine call write methods
-	go c.wsconn.writeWorker()
+	go wsconn.writeWorker()
 
-	c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
-	c.wsconn.ws.SetPongHandler(func(string) error {
+	wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+	wsconn.ws.SetPongHandler(func(string) error {
 		log.Debugf("[textsecure-crayfish-ws] Received websocket pong message")
-		c.wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
+		wsconn.ws.SetReadDeadline(time.Now().Add(pongWait))
 		return nil
 	})
 
 	for {
-		_, bmsg, err := c.wsconn.ws.ReadMessage()
+		_, bmsg, err := wsconn.ws.ReadMessage()
 		if err != nil {
 			if websocket.IsUnexpectedCloseError(err, websocket.CloseGoingAway, websocket.CloseAbnormalClosure) {
 				log.Debugf("[textsecure-crayfish-ws] Websocket UnexpectedCloseError: %s", err)
@@ -349,15 +361,80 @@ func (c *CrayfishInstance) StartWebsocket() error {
 
 // StopListening disables the receiving of messages.
 func (c *CrayfishInstance) StopListening() error {
-	if c.wsconn == nil {
+	wsconn := c.connection()
+	if wsconn == nil {
 		return ErrNotListening
 	}
-	if c.wsconn.ws != nil {
-		c.wsconn.ws.Close()
+	if wsconn.ws != nil {
+		wsconn.ws.Close()
 	}
 	return nil
 }
 
+func (c *CrayfishInstance) connection() *Conn {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.wsconn
+}
+
+// send sends a message to the helper process.
+func (c *CrayfishInstance) send(message []byte) error {
+	wsconn := c.connection()
+	if wsconn == nil {
+		return ErrNotListening
+	}
+	return wsconn.queue(message)
+}
+
+func (c *Conn) queue(message []byte) error {
+	select {
+	case <-c.done:
+		return ErrConnectionLost
+	default:
+	}
+	select {
+	case c.send <- message:
+		return nil
+	case <-c.done:
+		return ErrConnectionLost
+	}
+}
+
+// request sends a message to the helper process and waits for the response to it.
+// Responses don't tell which request they belong to, therefore there is only one request at a time.
+func (c *CrayfishInstance) request(message []byte, responseType CrayfishWebSocketResponseMessageType) (*CrayfishWebSocketResponseMessage, error) {
+	c.requestMutex.Lock()
+	defer c.requestMutex.Unlock()
+
+	responses := make(chan *CrayfishWebSocketResponseMessage, 1)
+	c.mutex.Lock()
+	wsconn := c.wsconn
+	c.receiveChannel, c.responseType = responses, responseType
+	c.mutex.Unlock()
+	defer func() {
+		c.mutex.Lock()
+		c.receiveChannel = nil
+		c.mutex.Unlock()
+	}()
+
+	if wsconn == nil {
+		return nil, ErrNotListening
+	}
+	err := wsconn.queue(message)
+	if err != nil {
+		return nil, err
+	}
+	select {
+	case response := <-responses:
+		if response.Message == nil {
+			return nil, errors.New("response without a message")
+		}
+		return response, nil
+	case <-wsconn.done:
+		return nil, ErrConnectionLost
+	}
+}
+
 func handleCrayfishRequestMessage(request *CrayfishWebSocketRequestMessage) error {
 	if request == nil || request.Type == nil {
 		return errors.New("request without a type")
@@ -371,8 +448,13 @@ func (c *CrayfishInstance) handleCrayfishResponseMessage(response *CrayfishWebSo
 		return errors.New("response without a type")
 	}
 	log.Debugln("[textsecure-crayfish-ws] Received websocket response message", *response.Type)
-	if c.receiveChannel != nil && *response.Type > 1 {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	isRegistration := *response.Type == CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION
+	wantRegistration := c.responseType == CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION
+	if c.receiveChannel != nil && *response.Type > 1 && isRegistration == wantRegistration {
 		c.receiveChannel <- response
+		c.receiveChannel = nil
 	}
 	return nil
 }
diff --git a/crayfish/envelope.go b/crayfish/envelope.go
index b7c2833..2ba4808 100644
--- a/crayfish/envelope.go
+++ b/crayfish/envelope.go
@@ -31,9 +31,10 @@ func (c *CrayfishInstance) HandleEnvelope(msg []byte) (*CrayfishWebSocketRespons
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope send")
-	c.wsconn.send <- m
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(m, CrayfishWebSocketResponseMessageTyp_HANDLE_ENVELOPE)
+	if err != nil {
+		return nil, err
+	}
 	log.Debugf("[textsecure-crayfish-ws] HandleEnvelope recieved an response")
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
diff --git a/crayfish/register.go b/crayfish/register.go
index ae8fddc..b5b9ca3 100644
--- a/crayfish/register.go
+++ b/crayfish/register.go
@@ -34,8 +34,7 @@ func (c *CrayfishInstance) CrayfishRegister(registrationInfo *registration.Regis
 		return err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send")
-	c.wsconn.send <- m
-	return nil
+	return c.send(m)
 }
 func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registration.RegistrationInfo,
 	phoneNumber string,
@@ -69,9 +68,10 @@ func (c *CrayfishInstance) CrayfishRegisterWithCode(registrationInfo *registrati
 		return nil, err
 	}
 	log.Debugf("[textsecure-crayfish-ws] Registering via crayfish send verification")
-	c.wsconn.send <- mv
-	c.receiveChannel = make(chan *CrayfishWebSocketResponseMessage, 1)
-	response := <-c.receiveChannel
+	response, err := c.request(mv, CrayfishWebSocketResponseMessageTyp_VERIFY_REGISTRATION)
+	if err != nil {
+		return nil, err
+	}
 	rm, err := json.Marshal(response.Message)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From cd853e944bfa3f75abb2545f8907ecbfa8f37605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 110/130] fix: refuse a registration answer without a proper
 uuid

---
 crayfish/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crayfish/messages.go b/crayfish/messages.go
index 4b64dca..0ef0dc6 100644
--- a/crayfish/messages.go
+++ b/crayfish/messages.go
@@ -18,8 +18,8 @@ type CrayfishWebSocketRequest_VERIFY_REGISTER_MESSAGE struct {
 type CrayfishWebSocketRequestMessageTyp_SEALED_SESSION_DECRYPT_Message struct {
 }
 type CrayfishWebSocketResponse_VERIFY_REGISTER_MESSAGE struct {
-	UUID           [16]byte `json:"uuid"`
-	StorageCapable bool     `json:"storage_capable"`
+	UUID           []byte `json:"uuid"`
+	StorageCapable bool   `json:"storage_capable"`
 }
 type CrayfishWebSocketRequest_HANDLE_ENVELOPE_MESSAGE struct {
 	Message       string `json:"message"`
-- 
2.43.0


From 4a0e767079a5739d6dc839d197ceecabf41d1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 111/130] fix: keep the records of peers whose names look like
 paths apart from others

---
 store.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index b96f023..7d7f4f3 100644
--- a/store.go
+++ b/store.go
@@ -208,6 +208,14 @@ func (s *store) replaceFile(path string, b []byte) error {
 	return err
 }
 
+// validRecipientID refuses recipient ids that can not be part of the name of a file.
+func validRecipientID(id string) error {
+	if strings.ContainsAny(id, "/\\\x00") {
+		return fmt.Errorf("invalid recipient id %q", id)
+	}
+	return nil
+}
+
 // Identity store
 
 func (s *store) GetLocalRegistrationID() (uint32, error) {
@@ -241,6 +249,9 @@ func (s *store) SetIdentityKeyPair(ikp *axolotl.IdentityKeyPair) error {
 }
 
 func (s *store) SaveIdentity(id string, key *axolotl.IdentityKey) error {
+	if err := validRecipientID(id); err != nil {
+		return err
+	}
 	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
 	return s.writeFile(idkeyfile, key.Key()[:])
 }
@@ -251,6 +262,9 @@ func (s *store) IsTrustedIdentity(id string, key *axolotl.IdentityKey) bool {
 		// more securely and with a better UI.
 		return true
 	}
+	if validRecipientID(id) != nil {
+		return false
+	}
 	idkeyfile := filepath.Join(s.identityDir, "remote_"+id)
 	// Trust on first use (TOFU)
 	if !exists(idkeyfile) {
@@ -284,6 +298,9 @@ func ContactIdentityKey(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := validRecipientID(idClean); err != nil {
+		return nil, err
+	}
 	idkeyfile := filepath.Join(s.identityDir, "remote_"+idClean)
 	if !exists(idkeyfile) {
 		return nil, UnknownContactError{id}
@@ -456,6 +473,9 @@ func (s *store) GetSubDeviceSessions(recipientID string) []uint32 {
 }
 
 func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.SessionRecord, error) {
+	if err := validRecipientID(recipientID); err != nil {
+		return nil, err
+	}
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := s.readFile(sfile)
 	if os.IsNotExist(err) {
@@ -473,6 +493,9 @@ func (s *store) LoadSession(recipientID string, deviceID uint32) (*axolotl.Sessi
 }
 
 func (s *store) StoreSession(recipientID string, deviceID uint32, record *axolotl.SessionRecord) error {
+	if err := validRecipientID(recipientID); err != nil {
+		return err
+	}
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	b, err := record.Serialize()
 	if err != nil {
@@ -483,10 +506,13 @@ func (s *store) StoreSession(recipientID string, deviceID uint32, record *axolot
 
 func (s *store) ContainsSession(recipientID string, deviceID uint32) bool {
 	sfile := s.sessionFilePath(recipientID, deviceID)
-	return exists(sfile)
+	return validRecipientID(recipientID) == nil && exists(sfile)
 }
 
 func (s *store) DeleteSession(recipientID string, deviceID uint32) {
+	if validRecipientID(recipientID) != nil {
+		return
+	}
 	sfile := s.sessionFilePath(recipientID, deviceID)
 	_ = os.Remove(sfile)
 }
-- 
2.43.0


From b3e5e6cdbb767e1e6b3bcd9c35209e2f693444a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 112/130] fix: replace the files of contacts, configuration,
 groups and avatars atomically

---
 config.go            |  4 ++--
 contacts/contacts.go |  6 +++---
 groups.go            |  6 +++---
 groupsv2/groupsv2.go |  4 ++--
 helpers/files.go     | 42 ++++++++++++++++++++++++++++++++++++++++++
 profiles/avatars.go  |  8 ++------
 6 files changed, 54 insertions(+), 16 deletions(-)
 create mode 100644 helpers/files.go

diff --git a/config.go b/config.go
index 5bbd209..fb8537c 100644
--- a/config.go
+++ b/config.go
@@ -4,11 +4,11 @@
 package textsecure
 
 import (
-	"io/ioutil"
 	"os"
 
 	"github.com/go-yaml/yaml"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/helpers"
 	log "github.com/sirupsen/logrus"
 )
 
@@ -57,7 +57,7 @@ func WriteConfig(filename string, cfg *config.Config) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return helpers.ReplaceFile(filename, b, 0600)
 }
 
 func saveConfig(cfg *config.Config) error {
diff --git a/contacts/contacts.go b/contacts/contacts.go
index 0164369..6c1f23d 100644
--- a/contacts/contacts.go
+++ b/contacts/contacts.go
@@ -4,9 +4,9 @@
 package contacts
 
 import (
-	"io/ioutil"
 	"os"
 
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	log "github.com/sirupsen/logrus"
 
@@ -98,7 +98,7 @@ func WriteContacts(filename string, contacts []Contact) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filename, b, 0600)
+	return helpers.ReplaceFile(filename, b, 0600)
 }
 
 // WriteContactsToPath saves a list of contacts to a file at the standard location
@@ -109,7 +109,7 @@ func WriteContactsToPath() error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePath, b, 0600)
+	return helpers.ReplaceFile(filePath, b, 0600)
 }
 func contactsToYaml() *yamlContacts {
 	c := &yamlContacts{}
diff --git a/groups.go b/groups.go
index 5594f80..6f91724 100644
--- a/groups.go
+++ b/groups.go
@@ -8,7 +8,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -20,6 +19,7 @@ import (
 	"github.com/signal-golang/textsecure/contacts"
 	"github.com/signal-golang/textsecure/groupsv2"
 	groupsV2 "github.com/signal-golang/textsecure/groupsv2"
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"gopkg.in/yaml.v2"
 )
@@ -60,7 +60,7 @@ func saveGroup(hexid string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return helpers.ReplaceFile(idToPath(hexid), b, 0600)
 }
 
 // loadGroup loads a group's state from a file.
@@ -99,7 +99,7 @@ func setupGroups() error {
 	}
 	filepath.Walk(groupDir, func(path string, fi os.FileInfo, err error) error {
 		if !fi.IsDir() {
-			if !strings.Contains(fi.Name(), "avatar") {
+			if !strings.Contains(fi.Name(), "avatar") && !strings.HasPrefix(fi.Name(), helpers.TempPrefix) {
 				loadGroup(path)
 			}
 		}
diff --git a/groupsv2/groupsv2.go b/groupsv2/groupsv2.go
index c0ae971..a652122 100644
--- a/groupsv2/groupsv2.go
+++ b/groupsv2/groupsv2.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"io/ioutil"
 	"net/url"
 	"os"
 	"path/filepath"
@@ -14,6 +13,7 @@ import (
 	zkgroup "github.com/nanu-c/zkgroup"
 	uuidUtil "github.com/satori/go.uuid"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/helpers"
 	signalservice "github.com/signal-golang/textsecure/protobuf"
 	"github.com/signal-golang/textsecure/transport"
 	log "github.com/sirupsen/logrus"
@@ -366,7 +366,7 @@ func saveGroupV2(hexid string) error {
 		return err
 	}
 	log.Debugln("[textsecure][groupv2] save group", idToPath(hexid))
-	return ioutil.WriteFile(idToPath(hexid), b, 0600)
+	return helpers.ReplaceFile(idToPath(hexid), b, 0600)
 }
 
 // loadGroup loads a group's state from a file.
diff --git a/helpers/files.go b/helpers/files.go
new file mode 100644
index 0000000..bc15f6c
--- /dev/null
+++ b/helpers/files.go
@@ -0,0 +1,42 @@
+package helpers
+
+import (
+	"io/ioutil"
+	"os"
+	"path/filepath"
+)
+
+// TempPrefix begins the name of a file that is being written.
+const TempPrefix = ".tmp-"
+
+// ReplaceFile writes a file under a temporary name and puts it in place in one
+// step, so that an interrupted write leaves the previous content.
+func ReplaceFile(path string, b []byte, perm os.FileMode) error {
+	if p, err := filepath.EvalSymlinks(path); err == nil {
+		path = p
+	}
+	if fi, err := os.Stat(path); err == nil {
+		perm = fi.Mode().Perm()
+	}
+	f, err := ioutil.TempFile(filepath.Dir(path), TempPrefix)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(b)
+	if err == nil {
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
diff --git a/profiles/avatars.go b/profiles/avatars.go
index 5424b5e..7990033 100644
--- a/profiles/avatars.go
+++ b/profiles/avatars.go
@@ -8,6 +8,7 @@ import (
 
 	siv "github.com/Blackoverflow/gcmsiv"
 	"github.com/signal-golang/textsecure/config"
+	"github.com/signal-golang/textsecure/helpers"
 	transport "github.com/signal-golang/textsecure/transport"
 
 	"crypto/aes"
@@ -98,12 +99,7 @@ func saveLocalAvatar(uuid string, avatar []byte) error {
 	}
 	avatarFile := filepath.Join(avatarsPath, uuid)
 	log.Debugln("[textsecure] save avatar to ", avatarFile)
-	f, err := os.Create(avatarFile)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-	_, err = f.Write(avatar)
+	err := helpers.ReplaceFile(avatarFile, avatar, 0600)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e7e866ca4f04a1b53b81f4c270ab43bc8b5f5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 113/130] fix: write the salt of the store in one step

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 7d7f4f3..f63f06f 100644
--- a/store.go
+++ b/store.go
@@ -78,7 +78,7 @@ func newStore(password, path string) (*store, error) {
 		// Create salt if this is first run
 		if !exists(saltFile) {
 			randBytes(salt)
-			err = ioutil.WriteFile(saltFile, salt, 0600)
+			err = ts.replaceFile(saltFile, salt)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From d2527d92299229307691b25ad95845764c13403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 114/130] fix: keep the profile key over restarts

Every start but the first made a new profile key, while the kept profile key
credential was that of the previous one.
---
 textsecure.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index 56e83f1..d046ac6 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -322,26 +322,17 @@ func Setup(c *Client) error {
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	profileChanged := false
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
 		saveConfig(config.ConfigFile)
-		profileChanged = true
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
 		config.ConfigFile.Name = client.GetUsername()
-		profileChanged = true
 		saveConfig(config.ConfigFile)
 	}
-	if profileChanged {
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
-	} else {
-		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
-		profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
-	}
+	profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 
 	// check for unidentified access
 	if len(config.ConfigFile.Certificate) == 0 {
-- 
2.43.0


From 259dd99fd0b9c324e0edcc3b6d5031da77ad7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 115/130] fix: start without a handler for the end of the
 registration

---
 textsecure.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index d046ac6..ac44e07 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -312,7 +312,9 @@ func Setup(c *Client) error {
 		return err
 	}
 
-	client.RegistrationDone()
+	if client.RegistrationDone != nil {
+		client.RegistrationDone()
+	}
 	rootCa.SetupCA(config.ConfigFile.RootCA)
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupCDNTransporter(SIGNAL_CDN2_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
@@ -449,7 +451,6 @@ func registerDevice() error {
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	saveConfig(config.ConfigFile)
 
-	client.RegistrationDone()
 	if client.RegistrationDone != nil {
 		log.Infoln("[textsecure] RegistrationDone")
 
-- 
2.43.0


From d4f31ec20e0a4d769286536381fff3ac9428d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 116/130] fix: start the helper process once its account and
 instance are set

It was started before the error of loading the configuration was checked, and
a registration could come before its instance.
---
 crayfish/backend.go | 15 +++++++++++++++
 textsecure.go       |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crayfish/backend.go b/crayfish/backend.go
index b2adb19..207f85a 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -119,11 +119,26 @@ type Conn struct {
 	done chan struct{}
 }
 
+// Start runs the helper process in the background.
+func Start() {
+	setupInstance()
+	go runInstance()
+}
+
+// Run runs the helper process until it ends.
 func Run() {
+	setupInstance()
+	runInstance()
+}
+
+func setupInstance() {
 	Instance = &CrayfishInstance{
 		LocalUUID:     config.ConfigFile.UUID,
 		LocalDeviceID: 0,
 	}
+}
+
+func runInstance() {
 	log.Infoln("[textsecure-crayfish] Starting crayfish-backend")
 	path, err := exec.LookPath("crayfish")
 	if err != nil {
diff --git a/textsecure.go b/textsecure.go
index ac44e07..7cd43cc 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -265,10 +265,10 @@ func Setup(c *Client) error {
 	client = c
 
 	config.ConfigFile, err = loadConfig()
-	go crayfish.Run()
 	if err != nil {
 		return err
 	}
+	crayfish.Start()
 
 	setupLogging()
 	err = setupStore()
-- 
2.43.0


From 4d77bff3ff9428bda051e3df8d94920b88062e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 117/130] fix: decrypt sealed messages for the account that was
 just registered

---
 textsecure.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/textsecure.go b/textsecure.go
index 7cd43cc..154f6bb 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -432,6 +432,7 @@ func registerDevice() error {
 		return err
 	}
 	log.Debugln("[textsecure] Crayfish registration done")
+	crayfish.Instance.LocalUUID = config.ConfigFile.UUID
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 
 	log.Debugln("[textsecure] generate keys")
-- 
2.43.0


From a1685d8463f7884dbdae9b21f9e4e48c55268924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 118/130] fix: register again after a registration whose
 prekeys did not reach the server

After it the stored prekeys passed for those of a registered account.
---
 store.go      | 17 ++++++++++++++++-
 textsecure.go | 13 ++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index f63f06f..588be36 100644
--- a/store.go
+++ b/store.go
@@ -394,8 +394,23 @@ func exists(path string) bool {
 	return err == nil
 }
 
+// valid tells whether the store is that of a registered account.
 func (s *store) valid() bool {
-	return s.ContainsPreKey(lastResortPreKeyID)
+	return s.ContainsPreKey(lastResortPreKeyID) && !exists(s.registeringFile())
+}
+
+// registeringFile exists from before the first prekey of a registration until
+// the server has the prekeys.
+func (s *store) registeringFile() string {
+	return filepath.Join(s.identityDir, "registering")
+}
+
+func (s *store) beginRegistration() error {
+	return s.writeFile(s.registeringFile(), []byte{1})
+}
+
+func (s *store) endRegistration() error {
+	return os.Remove(s.registeringFile())
 }
 
 func (s *store) ContainsPreKey(id uint32) bool {
diff --git a/textsecure.go b/textsecure.go
index 154f6bb..4ae3471 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -436,6 +436,10 @@ func registerDevice() error {
 	transport.SetupTransporter(config.ConfigFile.Server, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 
 	log.Debugln("[textsecure] generate keys")
+	err = textSecureStore.beginRegistration()
+	if err != nil {
+		return err
+	}
 	err = generatePreKeys()
 	if err != nil {
 		return err
@@ -450,7 +454,14 @@ func registerDevice() error {
 	}
 	config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
 	// config.ConfigFile = checkUUID(config.ConfigFile)
-	saveConfig(config.ConfigFile)
+	err = saveConfig(config.ConfigFile)
+	if err != nil {
+		return err
+	}
+	err = textSecureStore.endRegistration()
+	if err != nil {
+		return err
+	}
 
 	if client.RegistrationDone != nil {
 		log.Infoln("[textsecure] RegistrationDone")
-- 
2.43.0


From 42d25c8609beee04a96e0058e4f2fb6653980197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 119/130] fix: fail the registration when its credentials can
 not be stored

---
 store.go      | 16 ++++++++--------
 textsecure.go | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/store.go b/store.go
index 588be36..91b0b38 100644
--- a/store.go
+++ b/store.go
@@ -122,9 +122,9 @@ func (s *store) readNumFromFile(path string) (uint32, error) {
 	return uint32(num), nil
 }
 
-func (s *store) writeNumToFile(path string, num uint32) {
+func (s *store) writeNumToFile(path string, num uint32) error {
 	b := []byte(strconv.Itoa(int(num)))
-	s.writeFile(path, b)
+	return s.writeFile(path, b)
 }
 
 func (s *store) genKeys(password string, salt []byte, count int) {
@@ -223,9 +223,9 @@ func (s *store) GetLocalRegistrationID() (uint32, error) {
 	return s.readNumFromFile(regidfile)
 }
 
-func (s *store) SetLocalRegistrationID(id uint32) {
+func (s *store) SetLocalRegistrationID(id uint32) error {
 	regidfile := filepath.Join(s.identityDir, "regid")
-	s.writeNumToFile(regidfile, id)
+	return s.writeNumToFile(regidfile, id)
 }
 
 func (s *store) GetIdentityKeyPair() (*axolotl.IdentityKeyPair, error) {
@@ -430,9 +430,9 @@ func (s *store) RemoveSignedPreKey(id uint32) {
 }
 
 // HTTP API store
-func (s *store) storeHTTPPassword(password string) {
+func (s *store) storeHTTPPassword(password string) error {
 	passFile := filepath.Join(s.identityDir, "http_password")
-	s.writeFile(passFile, []byte(password))
+	return s.writeFile(passFile, []byte(password))
 }
 
 func (s *store) loadHTTPPassword() (string, error) {
@@ -444,9 +444,9 @@ func (s *store) loadHTTPPassword() (string, error) {
 	return string(b), nil
 }
 
-func (s *store) storeHTTPSignalingKey(key []byte) {
+func (s *store) storeHTTPSignalingKey(key []byte) error {
 	keyFile := filepath.Join(s.identityDir, "http_signaling_key")
-	s.writeFile(keyFile, key)
+	return s.writeFile(keyFile, key)
 }
 
 func (s *store) loadHTTPSignalingKey() ([]byte, error) {
diff --git a/textsecure.go b/textsecure.go
index 4ae3471..df316cb 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -280,16 +280,25 @@ func Setup(c *Client) error {
 		registration.Registration = registration.RegistrationInfo{
 			RegistrationID: generateRegistrationID(),
 		}
-		textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		err = textSecureStore.SetLocalRegistrationID(registration.Registration.RegistrationID)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.Password = generatePassword()
-		textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		err = textSecureStore.storeHTTPPassword(registration.Registration.Password)
+		if err != nil {
+			return err
+		}
 
 		registration.Registration.SignalingKey = generateSignalingKey()
-		textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		err = textSecureStore.storeHTTPSignalingKey(registration.Registration.SignalingKey)
+		if err != nil {
+			return err
+		}
 
 		identityKey = axolotl.GenerateIdentityKeyPair()
-		err := textSecureStore.SetIdentityKeyPair(identityKey)
+		err = textSecureStore.SetIdentityKeyPair(identityKey)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9996ed3ca1104026c3b7fd1dbad6300cc104a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 120/130] fix: fail the start when the configuration can not be
 saved

---
 textsecure.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index df316cb..f154e72 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -331,17 +331,26 @@ func Setup(c *Client) error {
 	transport.SetupStorageTransporter(STORAGE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	transport.SetupServiceTransporter(SIGNAL_SERVICE_URL, config.ConfigFile.UUID, registration.Registration.Password, config.ConfigFile.UserAgent, config.ConfigFile.ProxyServer)
 	identityKey, err = textSecureStore.GetIdentityKeyPair()
+	if err != nil {
+		return err
+	}
 	// check if we have a uuid and if not get it
 	// config.ConfigFile = checkUUID(config.ConfigFile)
 	// check for a profileKey
 	if len(config.ConfigFile.ProfileKey) == 0 {
 		config.ConfigFile.ProfileKey = profiles.GenerateProfileKey()
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
 	// check if a username is set
 	if config.ConfigFile.Name == "" {
 		config.ConfigFile.Name = client.GetUsername()
-		saveConfig(config.ConfigFile)
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	}
 	profiles.UpdateProfile(config.ConfigFile.ProfileKey, config.ConfigFile.UUID, config.ConfigFile.Name)
 
@@ -368,8 +377,10 @@ func Setup(c *Client) error {
 			return err
 		}
 		config.ConfigFile.ProfileKeyCredential = []byte(profile.Credential)
-		saveConfig(config.ConfigFile)
-
+		err = saveConfig(config.ConfigFile)
+		if err != nil {
+			return err
+		}
 	} else {
 		log.Infoln("[textsecure] Using existing profile key credential", len(config.ConfigFile.ProfileKeyCredential))
 	}
@@ -383,10 +394,8 @@ func renewSenderCertificate() error {
 		return err
 	}
 	config.ConfigFile.Certificate = cert.Certificate
-	saveConfig(config.ConfigFile)
 	log.Debug(fmt.Sprintf("[textsecure] Sender certificate: %s", cert))
-	return nil
-
+	return saveConfig(config.ConfigFile)
 }
 func RegisterWithCrayfish(regisrationInfo *registration.RegistrationInfo, phoneNumber, captcha string) error {
 	err := crayfish.Instance.CrayfishRegister(regisrationInfo, phoneNumber, captcha)
-- 
2.43.0


From 4acef3b036d6770aeb4b6876758533a152f9ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 121/130] fix: publish no signed prekey that could not be
 stored

---
 prekeys.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prekeys.go b/prekeys.go
index 052404c..0fc56ed 100644
--- a/prekeys.go
+++ b/prekeys.go
@@ -104,8 +104,8 @@ func generatePreKeys() error {
 	if err != nil {
 		return err
 	}
-	signedKey = generateSignedPreKey()
-	return nil
+	signedKey, err = generateSignedPreKey()
+	return err
 }
 
 // getNextSignedPreKeyID returns an id other than 0, which peers refuse.
@@ -113,7 +113,7 @@ func getNextSignedPreKeyID() uint32 {
 	return 1 + randID()%0xffffff
 }
 
-func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
+func generateSignedPreKey() (*axolotl.SignedPreKeyRecord, error) {
 	kp := axolotl.NewECKeyPair()
 	id := getNextSignedPreKeyID()
 	var random [64]byte
@@ -121,8 +121,11 @@ func generateSignedPreKey() *axolotl.SignedPreKeyRecord {
 	priv := identityKey.PrivateKey.Key()
 	signature := curve25519sign.Sign(priv, kp.PublicKey.Serialize(), random)
 	record := axolotl.NewSignedPreKeyRecord(id, uint64(time.Now().UnixNano()*1000), kp, signature[:])
-	textSecureStore.StoreSignedPreKey(id, record)
-	return record
+	err := textSecureStore.StoreSignedPreKey(id, record)
+	if err != nil {
+		return nil, err
+	}
+	return record, nil
 }
 
 func generatePreKeyState() error {
-- 
2.43.0


From b9f5ee3569fa29a49112968272606834e6295af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 122/130] fix: refuse a sealed message whose sender is not told

---
 textsecure.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textsecure.go b/textsecure.go
index f154e72..b531931 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -691,6 +691,9 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 		if err != nil {
 			return err
 		}
+		if data.Sender.UUID == "" {
+			return errors.New("unidentified sender message without a sender")
+		}
 		content, err := base64.StdEncoding.DecodeString(data.Message)
 		if err != nil {
 			return err
-- 
2.43.0


From 50e9a107e3c502ae80559a9dfaecbc49574f14c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 123/130] fix: do not drop messages decrypted with a session
 under the legacy name

---
 textsecure.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/textsecure.go b/textsecure.go
index b531931..e4020cb 100644
--- a/textsecure.go
+++ b/textsecure.go
@@ -629,11 +629,11 @@ func handleReceivedMessage(env *signalservice.Envelope) error {
 			// try the legacy way
 			log.Infof("[textsecure] Incoming WhisperMessage try legacy decrypting")
 
-			recid, err := recID(env.GetSourceUuid())
-			if err != nil {
-				recid = env.GetSourceUuid()
+			legacyID, idErr := recID(env.GetSourceUuid())
+			if idErr != nil {
+				legacyID = env.GetSourceUuid()
 			}
-			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, recid, env.GetSourceDevice())
+			sc := axolotl.NewSessionCipher(textSecureStore, textSecureStore, textSecureStore, textSecureStore, legacyID, env.GetSourceDevice())
 			b, err = sc.SessionDecryptWhisperMessage(wm)
 			if _, ok := err.(axolotl.DuplicateMessageError); ok {
 				log.Infof("[textsecure] Incoming WhisperMessage %s. Ignoring.\n", err)
-- 
2.43.0


From d92444c8fea3189b77373cbcc8594fdf523fc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 124/130] fix: address each message to the registration it was
 encrypted for

---
 axolotl/session.go | 9 +++++++++
 server.go          | 7 +------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/axolotl/session.go b/axolotl/session.go
index 3a79d16..f42d9f0 100644
--- a/axolotl/session.go
+++ b/axolotl/session.go
@@ -510,6 +510,7 @@ type SessionCipher struct {
 	SessionStore SessionStore
 	PreKeyStore  PreKeyStore
 	Builder      *SessionBuilder
+	encryptedFor uint32
 }
 
 // NewSessionCipher creates a new session cipher.
@@ -576,9 +577,17 @@ func (sc *SessionCipher) SessionEncryptMessage(plaintext []byte) ([]byte, int32,
 		return nil, 0, err
 	}
 
+	sc.encryptedFor = ss.getRemoteRegistrationID()
+
 	return msg, msgType, nil
 }
 
+// EncryptedFor returns the registration ID of the peer the last message was encrypted for.
+// Unlike GetRemoteRegistrationID it is not affected by sessions established since.
+func (sc *SessionCipher) EncryptedFor() uint32 {
+	return sc.encryptedFor
+}
+
 // GetRemoteRegistrationID returns the registration ID of the peer.
 func (sc *SessionCipher) GetRemoteRegistrationID() (uint32, error) {
 	sr, err := sc.SessionStore.LoadSession(sc.RecipientID, sc.DeviceID)
diff --git a/server.go b/server.go
index 9fe34f8..e5d804f 100644
--- a/server.go
+++ b/server.go
@@ -864,15 +864,10 @@ func buildMessage(reciever string, paddedMessage []byte, devices []uint32, isSyn
 			return nil, err
 		}
 
-		rrID, err := sc.GetRemoteRegistrationID()
-		if err != nil {
-			return nil, err
-		}
-
 		jmsg := jsonMessage{
 			Type:               messageType,
 			DestDeviceID:       devid,
-			DestRegistrationID: rrID,
+			DestRegistrationID: sc.EncryptedFor(),
 		}
 
 		jmsg.Content = base64.StdEncoding.EncodeToString(encryptedMessage)
-- 
2.43.0


From edcbfc1eaf359adcd56074916d2e269aa893ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 125/130] fix: do not crash when a server answers null for a
 profile

---
 profiles/profile.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 4614c36..5844589 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -368,7 +368,7 @@ func GetProfileE164(tel string) (contacts.Contact, error) {
 
 	profile := &Profile{}
 	dec := json.NewDecoder(resp.Body)
-	err = dec.Decode(&profile)
+	err = dec.Decode(profile)
 
 	if err != nil {
 		log.Errorln("[textsecure] GetProfileE164 ", err)
@@ -424,7 +424,7 @@ func GetProfileUUID(uuid string) (*Profile, error) {
 		}
 
 		dec := json.NewDecoder(resp.Body)
-		err = dec.Decode(&profile)
+		err = dec.Decode(profile)
 		if err != nil {
 			log.Errorln("[textsecure] GetProfileUuid decode", err)
 			return nil, err
-- 
2.43.0


From 4ad22189b7df4c07464e15512717b0a359087c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 126/130] fix: find the helper program placed next to the
 application

---
 crayfish/backend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crayfish/backend.go b/crayfish/backend.go
index 207f85a..6e5531d 100644
--- a/crayfish/backend.go
+++ b/crayfish/backend.go
@@ -142,7 +142,7 @@ func runInstance() {
 	log.Infoln("[textsecure-crayfish] Starting crayfish-backend")
 	path, err := exec.LookPath("crayfish")
 	if err != nil {
-		if _, err := os.OpenFile("./crayfish", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600); err == nil {
+		if fi, err := os.Stat("./crayfish"); err == nil && fi.Mode().IsRegular() {
 			Instance.cmd = exec.Command("./crayfish")
 		} else if _, err := os.Stat("./crayfish/target/debug/crayfish"); err == nil {
 			Instance.cmd = exec.Command("./crayfish/target/debug/crayfish")
-- 
2.43.0


From d535465ce384ba8ef345295429216a1adaf9bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 127/130] fix: trust no server when the configured authority
 can not be read

---
 rootCa/rootca.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rootCa/rootca.go b/rootCa/rootca.go
index 658a943..89b4331 100644
--- a/rootCa/rootca.go
+++ b/rootCa/rootca.go
@@ -83,8 +83,9 @@ func SetupCA(rootca string) {
 	if rootca != "" && utils.Exists(rootca) {
 		b, err := os.ReadFile(rootca)
 		if err != nil {
+			// trust no server then, not the ones the system trusts
 			log.Error(err)
-			return
+			b = nil
 		}
 		pem = b
 	}
-- 
2.43.0


From ee3188d69c9f3d8ba17b7cf18a0dc5bd84bb0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 128/130] fix: end listening when acknowledgements can no
 longer be sent

---
 websocket.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/websocket.go b/websocket.go
index 90c196f..622ca19 100644
--- a/websocket.go
+++ b/websocket.go
@@ -38,6 +38,9 @@ type Conn struct {
 
 	// Buffered channel of outbound messages
 	send chan []byte
+
+	// Closed when no more messages are sent
+	done chan struct{}
 }
 
 var wsconn *Conn
@@ -94,8 +97,12 @@ func (c *Conn) sendAck(id uint64) error {
 		return err
 	}
 
-	c.send <- b
-	return nil
+	select {
+	case c.send <- b:
+		return nil
+	case <-c.done:
+		return errors.New("websocket connection lost")
+	}
 }
 
 // write writes a message with the given message type and payload.
@@ -111,6 +118,7 @@ func (c *Conn) writeWorker() {
 		log.Debugf("[textsecure] Closing writeWorker")
 		ticker.Stop()
 		c.ws.Close()
+		close(c.done)
 	}()
 	for {
 		select {
@@ -144,7 +152,7 @@ func (c *Conn) writeWorker() {
 func StartListening() error {
 	var err error
 
-	wsconn = &Conn{send: make(chan []byte, 256)}
+	wsconn = &Conn{send: make(chan []byte, 256), done: make(chan struct{})}
 	err = wsconn.connect(config.ConfigFile.Server+websocketPath, config.ConfigFile.UUID, registration.Registration.Password)
 	if err != nil {
 		log.Errorf(err.Error())
-- 
2.43.0


From 0e9f879de6ac8adf1f891095af000ac8b69e567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 129/130] fix: do not pass on a profile that can not be
 decrypted

---
 profiles/profile.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/profiles/profile.go b/profiles/profile.go
index 5844589..1fda211 100644
--- a/profiles/profile.go
+++ b/profiles/profile.go
@@ -201,10 +201,17 @@ func GetProfile(UUID string, profileKey []byte) (*Profile, error) {
 			log.Debugln("[textsecure] GetProfile decode error", err)
 			return nil, err
 		}
+		if len(profileKey) == 0 {
+			// without the profile key only the ciphertext of these is known
+			profile.Name = ""
+			profile.About = ""
+			profile.AboutEmoji = ""
+			return profile, nil
+		}
 		err = decryptProfile(profileKey, profile)
 		if err != nil {
 			log.Errorln("[textsecure] decrypt profile error", err)
-			// return nil, err
+			return nil, err
 		}
 	}
 	return profile, nil
-- 
2.43.0


From daf77e49d739e0bab15175b8d3bff57585bc76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 130/130] fix: let StopListening end a connection that is being
 made

---
 websocket.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/websocket.go b/websocket.go
index 622ca19..f56cbdc 100644
--- a/websocket.go
+++ b/websocket.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -41,6 +42,12 @@ type Conn struct {
 
 	// Closed when no more messages are sent
 	done chan struct{}
+
+	// Protects ws and stopped while the connection is being made
+	mu sync.Mutex
+
+	// Set when the connection was stopped
+	stopped bool
 }
 
 var wsconn *Conn
@@ -57,7 +64,6 @@ func (c *Conn) connect(originURL, user, pass string) error {
 	log.Debugf("[textsecure] Websocket Connecting to signal-server")
 	// log.Debugf("Websocket Connecting to %s with user %s and pass %s", originURL, user, pass)
 
-	var err error
 	d := &websocket.Dialer{
 		ReadBufferSize:  1024,
 		WriteBufferSize: 1024,
@@ -67,11 +73,19 @@ func (c *Conn) connect(originURL, user, pass string) error {
 		RootCAs: rootCa.RootCA,
 	}
 
-	c.ws, _, err = d.Dial(u.String(), nil)
+	ws, _, err := d.Dial(u.String(), nil)
 	if err != nil {
 		return err
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.stopped {
+		ws.Close()
+		return errors.New("websocket connection was stopped")
+	}
+	c.ws = ws
+
 	log.Debugf("[textsecure] Websocket Connected successfully")
 
 	return nil
@@ -248,6 +262,10 @@ func StopListening() error {
 		return ErrNotListening
 	}
 
+	wsconn.mu.Lock()
+	defer wsconn.mu.Unlock()
+	// a connection that is being made is closed as soon as it is there
+	wsconn.stopped = true
 	if wsconn.ws != nil {
 		wsconn.ws.Close()
 	}
-- 
2.43.0

