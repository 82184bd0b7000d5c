#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

AX = ["axolotl/session.go", "axolotl/ratchet.go", "axolotl/messages.go", "axolotl/crypto.go"]
p("C01", "A session delivers every genuine message, whatever the order or loss",
  "For any interleaving of two parties sending over an established session, and any reordering, delay or loss of the ciphertexts, every ciphertext that does arrive decrypts to exactly the plaintext that was encrypted. This includes messages up to 2000 ahead of the newest one received on the same sending chain and messages of the five most recent sending chains, and does not depend on when sessions are saved and reloaded.",
  ["histories", "schedules"], "all send/deliver/drop/reload interleavings of two parties, all plaintexts",
  "the axolotl package's own tests do not compile, and none of the passing tests run a session; one fixed exchange would not reach skipped keys on several chains across reloads",
  AX, [("message keys kept for skipped counters, window of 2000", "axolotl/session.go getOrCreateMessageKeys"), ("DH ratchet step on a new remote ratchet key, 5 receiver chains", "axolotl/session.go getOrCreateChainKey/addReceiverChain")],
  ["SessionDecryptWhisperMessage / SessionDecryptPreKeyWhisperMessage results"])
p("C02", "Tampered, replayed or foreign ciphertexts are rejected and do no harm",
  "Only a genuine, not yet delivered ciphertext of the same session and device pair ever yields a plaintext, and then exactly the one encrypted into it: altered, replayed, truncated, reflected or foreign ciphertexts are never accepted as a message. Rejecting it changes nothing: every genuine message that could be decrypted before can still be decrypted afterwards, and messages sent afterwards are still understood by the peer.",
  ["histories", "inputs"], "all histories of genuine deliveries interleaved with altered, replayed, truncated and foreign ciphertexts",
  "needs arbitrary corruptions at arbitrary points of a history; no test exercises rejection at all",
  AX, [("truncated HMAC over the serialized message and both identities", "axolotl/messages.go verifyMAC"), ("state stored only after successful decryption", "axolotl/session.go SessionDecryptWhisperMessage"), ("attempts against archived states", "axolotl/session.go SessionCipher.decrypt")])
p("C03", "Sessions interoperate with an independent Signal protocol v3 implementation",
  "Whatever this library encrypts, a separately written implementation of X3DH and the double ratchet (protocol version 3) decrypts to the same plaintext, and the other way round. Both sides agree on every wire field (version, ratchet keys, counters, previous counter, prekey and signed prekey ids, registration id, base and identity keys) over any history, with or without a one-time prekey.",
  ["histories", "inputs"], "all histories of exchanges between this library and a reference peer, in either role",
  "a library talking to itself can be wrong on both sides at once; no test compares against an independent implementation",
  AX + ["axolotl/keys.go", "axolotl/prekeys.go"], [("X3DH master secret for both roles, HKDF with discontinuity bytes", "axolotl/ratchet.go"), ("wire encoding", "axolotl/messages.go")])
p("C04", "A session starts only from authentic keys of a trusted peer",
  "A prekey bundle is accepted only if its signed prekey carries a valid signature by the bundle's identity key and that identity key is the one already known for the peer (or is the first seen). An initial message from a peer whose identity key differs from the known one is refused, and a refused bundle or message leaves sessions, known identities and stored prekeys unchanged.",
  ["inputs", "histories"], "all bundles and initial messages, genuine or with any field replaced, against all states of the local stores",
  "needs arbitrary field substitutions against arbitrary prior state", ["axolotl/session.go", "curve25519sign/sign.go", "store.go"],
  [("trust check and signature check before any state change", "axolotl/session.go BuildSenderSession/BuildReceiverSession"), ("trust on first use", "store.go IsTrustedIdentity")])
p("C05", "Re-established and simultaneous sessions still deliver every message once",
  "When the parties start new sessions over existing ones, in either direction, repeatedly or simultaneously, every message sent under any of the sessions still kept (the current one and the 40 that were current last before it) is delivered exactly once, in any arrival order. Both parties always remain able to exchange further messages.",
  ["histories", "schedules"], "all histories mixing session (re-)initiation by either side, sends, reordered deliveries and replays",
  "depends on multi-step histories with several archived sessions", ["axolotl/session.go"],
  [("archived session states, matched by base key, at most 40", "axolotl/session.go SessionRecord"), ("promotion of an archived state on use", "axolotl/session.go promoteState")])
p("C06", "No two ciphertexts ever share a message key",
  "Every ciphertext handed to the caller was produced under a message key used for no other ciphertext, even with concurrent senders, failing storage and reloads: no two ciphertexts of a session carry the same ratchet key and counter. When the advanced session state could not be stored, no ciphertext is handed out.",
  ["schedules", "fault_sequences", "histories"], "all schedules of concurrent encryptions and all placements of storage failures",
  "depends on thread interleaving and on storage faults, none of which tests inject", ["axolotl/session.go", "axolotl/store.go", "store.go"],
  [("session store lock held from load to store", "axolotl/session.go SessionEncryptMessage"), ("ciphertext returned only after StoreSession succeeded", "axolotl/session.go SessionEncryptMessage")])
p("C07", "A one-time prekey serves one session and faults never lose messages",
  "A one-time prekey is deleted exactly when the first message using it has been decrypted and can never start another session; the last-resort prekey and the signed prekey are never deleted that way. If storage fails at any point while an initial message is handled, handling the same message again afterwards delivers it.",
  ["histories", "fault_sequences"], "all histories of initial messages using shared and distinct prekeys, with a storage failure at any store operation",
  "requires failures at every storage call and histories with re-used prekey ids", ["axolotl/session.go", "store.go", "prekeys.go"],
  [("one-time prekey removal", "axolotl/session.go SessionDecryptPreKeyWhisperMessage"), ("last-resort id excluded", "axolotl/session.go")])
p("C08", "Hostile ciphertext and prekey bytes never crash the ratchet",
  "For any byte string given as a message or initial message, and any session state, the library returns an error or a plaintext; it never panics, hangs or hands out bytes the peer did not encrypt.",
  ["inputs"], "all byte strings: random, structurally valid with hostile fields, and mutations of genuine messages",
  "unbounded input space; existing parsing tests do not compile", AX + ["axolotl/keys.go"],
  [("parsing and field checks", "axolotl/messages.go LoadWhisperMessage/LoadPreKeyWhisperMessage"), ("AES-CBC padding checks", "axolotl/crypto.go Decrypt")])
p("C09", "The encrypted store returns exactly what was stored, across reopening",
  "Whatever sequence of writes, overwrites and deletions of identities, registration data, prekeys, signed prekeys, passwords and sessions is made, every read returns the latest value stored (or reports its absence), also after closing and reopening with the same password. With a password set, no stored secret appears in clear in any file.",
  ["histories", "inputs"], "all operation sequences over the store API with reopenings, with and without password",
  "the store has no test", ["store.go"], [("encrypt-then-MAC files, one per record", "store.go writeFile/readFile"), ("key derivation from password and salt", "store.go newStore/genKeys")])
p("C10", "A modified store file or a wrong password is detected, never accepted",
  "With a password set, changing, truncating or extending any stored record, or opening the store with another password, makes reading that record fail with an error; it never yields different data and never crashes. Identity decisions made on unreadable records are negative: the peer is not trusted.",
  ["inputs", "fault_sequences"], "all byte-level changes of any record file and all wrong passwords",
  "needs arbitrary corruption of arbitrary records", ["store.go", "crypto.go"], [("HMAC-SHA256 over every record", "store.go decrypt"), ("AES-CBC padding checks", "crypto.go aesDecrypt")])
p("C11", "A write interrupted at any point keeps the old or the new record",
  "If the process dies or the disk fills while a record (session, identity, prekey, registration data) is being overwritten, reading the record after reopening yields the complete previous value or the complete new value. No other record is affected.",
  ["crash_points", "fault_sequences"], "all records and all points at which a write can be cut short",
  "needs injected write failures at every byte", ["store.go"], [("replacement of record files", "store.go writeFile")])
p("C12", "Sessions of different peers and devices never affect each other",
  "Storing, deleting or ending sessions of one peer affects only that peer: deleting one device removes exactly that device, deleting all removes every device of exactly that peer, and the list of a peer's devices names exactly the devices of that peer with a stored session.",
  ["histories", "inputs"], "all sequences of session store operations over peers with similar names and arbitrary device ids",
  "needs peers whose identifiers are prefixes of each other and arbitrary device ids", ["store.go", "textsecure.go"],
  [("one file per peer and device", "store.go sessionFilePath"), ("device enumeration", "store.go GetSubDeviceSessions"), ("END_SESSION handling", "textsecure.go handleFlags/EndSession")])
p("C13", "A peer's identity key is pinned at first use and changes are refused",
  "Unless the user opted to always trust peers, the first identity key seen for a peer is the only one trusted until a different key is explicitly saved, also across reopening the store. The key reported for a peer and the safety number computed from it are those of the saved key.",
  ["histories", "inputs"], "all sequences of first contacts, key changes, saves and reopenings over several peers",
  "a history property over stored state; no test touches it", ["store.go", "fingerprint/fingerprint.go"],
  [("trust on first use", "store.go IsTrustedIdentity"), ("saved identities", "store.go SaveIdentity/ContactIdentityKey")])
p("C14", "Published prekeys are complete, distinct, signed and locally stored",
  "After key generation the uploaded key set holds a batch of one-time prekeys with distinct ids, a last-resort key and a signed prekey whose signature verifies under the uploaded identity key; none uses an id with a reserved meaning. For each uploaded public key the matching private key is in the local store under the same id, so that a peer using any of them can start a session.",
  ["inputs", "configurations"], "all starting prekey ids and prior store contents",
  "the interesting ids are reached with probability below 1e-5 per run", ["prekeys.go", "store.go", "axolotl/prekeys.go"],
  [("id choice", "prekeys.go randID/generatePreKeys"), ("upload state", "prekeys.go generatePreKeyState")])
p("C15", "Signatures verify for the signed message and key only, without side effects",
  "A signature made with a private key verifies under the matching public key and the same message, on every one of repeated verifications; it fails for any other message, any other key and any changed signature bit. Signing never uses the same nonce for two different messages, keys or random inputs. Neither operation modifies its inputs.",
  ["inputs"], "all keys, messages, random values and bit changes",
  "one fixed vector set in the test; a sign-bit error shows for half of the keys only", ["curve25519sign/sign.go"],
  [("XEdDSA-style conversion and sign bit", "curve25519sign/sign.go Sign/Verify")])
p("C16", "Safety numbers and QR codes agree for both parties and catch any other key",
  "Both parties compute the same sixty-digit safety number, and each one's scanned code matches the other's exactly when identifiers and identity keys are the same on both sides; a change of any key, identifier or of the order of roles is reported as a mismatch. Malformed codes and keys give an error, never a crash.",
  ["inputs"], "all identifier and key pairs and all scanned byte strings",
  "tests use one pair of identities", ["fingerprint/fingerprint.go", "fingerprint/qr_fingerprint.go", "store.go"],
  [("iterated hash, sorted halves", "fingerprint/fingerprint.go"), ("scannable comparison", "fingerprint/qr_fingerprint.go")])
p("C17", "An attachment arrives exactly as it was sent",
  "For any content, the receiver of an uploaded attachment gets exactly the bytes sent, the declared content type and the right size, and the server sees only ciphertext. Each upload uses fresh keys and goes to the location and with the headers the server allotted; server errors on any of the requests are reported as errors.",
  ["inputs", "fault_sequences"], "all contents and lengths, all server answers",
  "needs all block-size residues and failing servers", ["attachments.go", "crypto.go", "textsecure.go"],
  [("AES-CBC + HMAC-SHA256 blob", "attachments.go uploadAttachmentV3/handleSingleAttachment")])
p("C18", "A manipulated attachment is refused without a crash",
  "If the downloaded blob or the keys differ in any way from what the sender made (altered, cut, extended, replaced by an error page, wrong authentication key, short key, digest that does not match), the receiver gets an error and no content; it never crashes.",
  ["inputs", "fault_sequences"], "all changes of blob, key and digest, all server answers",
  "unbounded corruption space", ["attachments.go", "crypto.go"], [("MAC check", "attachments.go handleSingleAttachment"), ("digest", "attachments.go (TODO in the code)")])
p("C19", "What is sent is what the receiving application is handed",
  "A message sent through the API (text, expiry timer, group context, attachment pointer, flags, profile key) reaches the receiving application unchanged: for any content the receiver's handler sees the same text, timer, flags, timestamp and sender. Padding hides the length in steps of 160 bytes and is removed exactly for every content.",
  ["inputs"], "all message contents, including bodies of any length and any bytes at the end",
  "no test sends or receives a message", ["textsecure.go", "sender.go", "server.go", "handler.go", "message.go"],
  [("message construction", "server.go createMessage"), ("padding", "server.go padMessage/stripPadding"), ("callbacks", "handler.go")])
p("C20", "A sent message reaches every current device of the recipient exactly once",
  "Whatever mismatched-device and stale-device answers the server gives, the request the server finally accepts carries exactly one message for every device of the recipient and none for others, each of which that device (and no other) can decrypt. A failed send is reported as an error and never leaves a session unusable.",
  ["histories", "fault_sequences"], "all histories of device additions, removals, re-installations and server failures between sends",
  "needs a stateful server model and adversarial device changes; no test sends a message", ["server.go", "sender.go", "prekeys.go"],
  [("device list repair on 409", "server.go buildAndSendMessage"), ("session replacement on 410", "server.go buildAndSendMessage"), ("prekey bundle fetch", "prekeys.go makePreKeyBundle")])
p("C21", "Each incoming message is handed to the right handler exactly once",
  "Every genuine incoming envelope leads to exactly one call of the handler for its kind (text, call, receipt, read/delivery receipt, typing, sync; one call per message a receipt or read mark is about), with its own sender, timestamp and content, and to no other call. Duplicates and messages that cannot be authenticated lead to no call, and later genuine messages are unaffected.",
  ["histories", "inputs"], "all sequences of envelopes of all kinds, duplicates included",
  "no test handles a message", ["textsecure.go", "handler.go", "sync.go"], [("dispatch by content", "handler.go handleMessage"), ("dispatch by envelope type", "textsecure.go handleReceivedMessage")])
p("C22", "Arbitrary incoming bytes never crash the client",
  "For any bytes delivered by the server, any envelope and any decrypted content, handling returns normally or with an error: no panic, no exit, no handler call for content that was not a complete message.",
  ["inputs"], "all byte strings and all structurally valid envelopes and contents with fields missing, empty or hostile",
  "unbounded input space", ["websocket.go", "textsecure.go", "handler.go", "sync.go", "groupsv2/groupsv2.go"],
  [("decoding", "textsecure.go decryptReceivedMessage/createEnvelope"), ("field access", "handler.go, sync.go")])
p("C23", "Sync messages mirror the account's state faithfully",
  "A message sent by another own device is reported once with its destination, content and timestamp; read marks are reported one by one in order; a request for contacts or groups is answered with a list holding every contact with its data (number, identifier, name, colour, verification, blocking and timer) or every group, readable by the requesting device. Sync messages of any other account are neither reported nor answered.",
  ["inputs", "histories"], "all sync messages, contact lists and group lists",
  "no test covers sync", ["sync.go", "contacts/contacts.go"], [("sync dispatch", "sync.go handleSyncMessage"), ("length-prefixed detail lists", "sync.go sendContactUpdate/sendGroupUpdate")])
p("C24", "Linking hands the new device the account keys and nobody else",
  "The provisioning message for a new device can be opened exactly by the holder of that device's private key, following the provisioning scheme, and carries this account's identity, number, identifier, profile key and code. Any altered byte is detected, and a malformed device key or failing server makes linking fail with an error.",
  ["inputs", "fault_sequences"], "all device keys, account data and alterations",
  "no test covers linking", ["crypto.go", "server.go", "link.go"], [("provisioning encryption", "crypto.go provisioningCipher"), ("device addition", "server.go addNewDevice")])
p("C25", "Group list state on disk matches what was applied, member by member",
  "After any sequence of creating, changing, updating, quitting and leaving legacy groups, the known groups and their members are exactly those the operations produce, and a restart restores the same groups. An operation on one group never changes another group or the caller's data.",
  ["histories"], "all operation sequences over several groups with restarts",
  "stateful and persistent; untested", ["groups.go"], [("in-memory map mirrored by one file per group", "groups.go saveGroup/loadGroup")])
p("C26", "Contacts and configuration survive being written and read back",
  "Any contact list and any configuration written to disk is read back equal, for any text in any field; profile and key updates change exactly the contact they are meant for and are on disk afterwards. Looking up a contact returns the data stored for it.",
  ["inputs", "histories"], "all contact lists and configurations with arbitrary text; all update sequences",
  "serialisation over arbitrary text; untested", ["contacts/contacts.go", "config.go", "config/config.go"], [("YAML files", "contacts/contacts.go, config.go")])
p("C27", "Profile data encrypts to fixed sizes and decrypts only with the profile key",
  "Any profile name is restored exactly from its encrypted form by the holder of the profile key, and encryption hides its length up to the defined padded sizes; with another key or altered data decryption fails with an error. Each encryption uses fresh unpredictable randomness and leaves the caller's data untouched. What a contact published (name, about text, emoji, picture) is restored exactly with that contact's profile key and kept for that contact only; an error answer, altered or undecryptable profile is reported and changes no contact.",
  ["inputs"], "all names up to the maximum size, keys, alterations", "untested code", ["profiles/profile.go", "profiles/avatars.go", "crypto/crypto.go", "crypto/profileCipher.go"],
  [("AES-GCM with padded plaintext", "profiles/profile.go, crypto/")])
p("C28", "Contact discovery requests open only in the attested enclave",
  "A discovery request contains the queried numbers in order, encrypted so that the holder of each attested session key can recover exactly them and verify the commitment, and anybody else nothing; the answer is accepted only if it authenticates under the session it belongs to. Alterations yield an error and the caller's data is never modified. What a lookup finds is known afterwards and after a restart.",
  ["inputs"], "all number lists, numbers of attestations, alterations", "tests use one fixed vector per helper", ["contactDiscoveryCrypto/contactDiscoveryCrypto.go"],
  [("query key wrapping per attestation", "contactDiscoveryCrypto CreateDiscoveryRequest"), ("lookup of the address book", "sync.go GetRegisteredContacts, server.go")])
p("C29", "Remote attestation keys match the enclave's and hostile quotes are refused",
  "For any key pairs, client and enclave derive the same pair of distinct directional keys, which nobody else can compute from the public values. A response whose quote, keys or request id are altered or malformed is refused with an error, never a crash.",
  ["inputs"], "all key pairs and all altered or malformed attestation responses", "tests cover fixed vectors", ["contactsDiscovery/remoteAttestation.go", "contactsDiscovery/remoteAttestationKeys.go"],
  [("key derivation", "contactsDiscovery remoteAttestationKeys"), ("request id authentication", "contactsDiscovery getRequestId")])
p("C30", "Only permitted group changes are accepted",
  "For every group state, every actor and every kind of change to a modern group, the change is accepted if and only if the group's roles and access settings permit that actor to make it (judged by the group as it was before the change) and, where the change needs one, the proof of a profile key is genuine, of this group and of the right person. An accepted change has exactly its stated effect; a refused one, or one of which any part is refused, leaves the group exactly as it was.",
  ["inputs", "histories"], "all group states, actors, access settings and change kinds", "untested rule matrix", ["groupsv2/groupChange.go", "groupsv2/groupModify.go", "groupsv2/groupAuth.go"],
  [("permission predicates", "groupsv2/groupAuth.go, groupsv2/groupModify.go"), ("application", "groupsv2/groupChange.go")])
p("C31", "An accepted group is always well formed",
  "A modern group state passes validation exactly when it is well formed: a title that is not empty, title and description within their limits, a password where a link permits joining, nobody listed twice in or across the member lists, roles and access settings known and member counts within limits. Judging a group never changes it.",
  ["inputs"], "all group states, valid and with any one defect", "untested", ["groupsv2/groupValidator.go"], [("validation", "groupsv2/groupValidator.go")])
p("C32", "Group state obtained or received is stored and found again",
  "Modern groups decrypted with their own key show exactly the title, members, roles and settings that were encrypted, the state is stored, and is found again after a restart with the same content; other groups are unaffected.",
  ["inputs", "histories"], "all groups and change histories", "untested", ["groupsv2/groupsv2.go", "groupsv2/decrypt.go"], [("decryption", "groupsv2/decrypt.go"), ("persistence", "groupsv2/groupsv2.go")])
p("C33", "Requests carry the right credentials and failures are reported as failures",
  "Every request goes to the configured server with the method, path, body, content type and user agent the caller gave and the account's credentials (and no others); status and body of the answer are passed on exactly, every answer outside 200 to 299 is an error, and transport faults are returned as errors. Over TLS only a server with a valid certificate of the configured authority gets a request. What is registered for the account (capabilities, the unidentified access key of the profile key, prekeys) is sent as it is, and an answer is kept (sender certificate, capabilities), also over a restart, only when the server accepted the request.",
  ["inputs", "fault_sequences"], "all credentials, bodies, methods and server answers", "no test performs a request", ["transport/transport.go", "transport/credentials.go", "transport/unidentifiedCert.go", "server.go", "websocket.go", "rootCa/rootca.go"],
  [("request construction", "transport/transport.go"), ("status", "transport")])
p("C34", "Every websocket request is acknowledged once, in order, whatever it holds",
  "While connected, each incoming request is handled and acknowledged exactly once with its own id, in order, whatever its content, and a failure to handle one request does not affect the following ones. Listening ends when it is stopped, at whatever moment, or when the connection is lost or the server no longer answers, and then with an error; an idle connection whose server answers lives on.",
  ["histories", "inputs"], "all sequences of requests, genuine, empty, duplicated or malformed", "no test opens a websocket", ["websocket.go"], [("listen loop", "websocket.go StartListening"), ("ack", "websocket.go sendAck")])
p("C35", "Sender certificates are accepted exactly until they expire",
  "A sender certificate is considered usable if and only if it parses and its expiry time lies in the future; anything else, including malformed data, leads to an error so that a new one is requested, never to a crash or exit. The access key sent along is the one derived from the recipient's profile key (fresh random bytes if none is known), and a malformed profile key is an error.",
  ["inputs"], "all certificate bytes and expiry times", "untested", ["unidentifiedAccess/unidentifiedAccess.go"], [("expiry check", "unidentifiedAccess CheckCertificate")])
p("C36", "Helper process answers reach the caller that asked",
  "Every request to the helper process is answered with the data of the reply to it, whatever else arrives and however fast the helper is; malformed replies yield errors or are skipped, and the connection remains usable. The helper program is found on the path or else next to the application, and looking for it leaves no files behind.",
  ["schedules", "inputs"], "all reply timings, orders and malformed messages", "no test talks to the helper", ["crayfish/backend.go"], [("request/reply matching", "crayfish HandleEnvelope/CrayfishRegister")])
p("C37", "Generated secrets are fresh, well formed and unpredictable",
  "Every generated password, signaling key, registration id, identity key, prekey, group id, attachment key, profile key and nonce has its documented form and is independent of all earlier ones and of process start time.",
  ["histories", "inputs"], "all generation sequences, in one process and across processes started alike", "a test cannot tell a seeded generator from a random one by one sample", ["textsecure.go", "crypto.go", "profiles/profile.go", "axolotl/keys.go"],
  [("system randomness", "crypto.go randBytes"), ("profile keys", "profiles/profile.go GenerateProfileKey")])
p("C38", "An interrupted write keeps the complete old or the complete new file",
  "After a full disk or a process killed at any point of saving, the contacts, the configuration, each group, each modern group, each avatar and the store's salt, read after a restart, are each the complete previous or the complete new content; other files are unaffected, and a write that failed is reported as an error.",
  ["crash_points", "fault_sequences"], "all file contents, sizes and points of interruption",
  "no test interrupts a write", ["helpers/files.go", "config.go", "contacts/contacts.go", "groups.go", "groupsv2/groupsv2.go", "profiles/avatars.go", "store.go"],
  [("atomic replacement", "helpers/files.go ReplaceFile"), ("salt of the store", "store.go")])
p("C39", "Registering and starting again always leave one consistent account",
  "A start that succeeds leaves one consistent account, however many earlier starts were refused, failed or killed: the password, signaling key, identity key, prekeys and signed prekey the server has are the ones kept on disk, the configuration on disk is the one in use, the profile the server took and the profile key credential belong to the kept profile key, the name is the user's, and the sender certificate is usable. A start fails when the registration, the publication of the keys, the certificate or the credential could not be obtained or stored; the application is told that it is registered only once the server has the keys. After any such failure a later start in good conditions succeeds. A registered account is never registered again, keeps identity, registration id and profile key, and asks for a new sender certificate only when the kept one is not usable any more. Sealed messages are decrypted for the account, also right after the registration.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of starts with refused, dropped or malformed answers of server and helper, wrong codes, full disks, unwritable files, a failing configuration and processes killed at any step",
  "no test registers or starts a client; needs a server, a helper process and restarts after faults", ["textsecure.go", "crayfish/backend.go", "crayfish/register.go", "prekeys.go", "store.go", "config.go"],
  [("start and registration", "textsecure.go Setup/registerDevice"), ("registered or not", "store.go valid"), ("prekeys", "prekeys.go generatePreKeys/registerPreKeys")])
p("C40", "Sealed messages are handled once, as decrypted, under their true sender",
  "A sealed (unidentified sender) message is passed to the helper process unchanged and for the own account, and what the helper decrypts is handled exactly like an ordinary message of the sender the helper tells, whoever the envelope claims: one call of the handler for its kind with the same content, timestamps and sender, end-session and profile-key flags acting on that sender only, sync messages accepted from the own account only. An answer that is missing, malformed, without content or without a sender, or a lost connection, leads to an error and no call, and later messages are handled.",
  ["histories", "inputs", "fault_sequences"], "all histories of sealed and plain messages, helper answers and connection losses", "no test talks to the helper", ["textsecure.go", "crayfish/envelope.go", "handler.go"],
  [("sealed envelopes", "textsecure.go handleReceivedMessage"), ("question to the helper", "crayfish/envelope.go HandleEnvelope")])
p("C41", "Ending a session and telling a profile key affect exactly the sender",
  "A message that ends the session (or one that another own device is told to have sent) drops the sessions with every device of its sender (or of that message's destination) and with nobody else: the next message to any of those devices starts a new session that the device can read, later ciphertexts of the dropped sessions are refused without any handler call, and sessions with other contacts go on. A profile key told by a message with that flag, alone or next to other flags, becomes the kept key of exactly the sender, also on disk, other data of the contact is left, and the own profile key in sent messages is never kept for a contact. A contact known by number alone is understood in sessions we began.",
  ["histories", "inputs"], "all histories of messages with any flags between several contacts with several devices, own devices and our own ends of sessions", "no test handles a message with flags", ["textsecure.go", "sync.go", "contacts/contacts.go"],
  [("flags", "textsecure.go handleFlags/handleEndSession"), ("profile keys", "contacts/contacts.go UpdateProfileKey"), ("own end of a session", "textsecure.go EndSession")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
