"""The check of each property: which generated tests decide it, and how many cases."""

def T(name, quick, thorough=None, shards=1, tshards=None, env=None):
    d = {"name": name, "quick": quick, "shards": shards}
    d["thorough"] = thorough if thorough is not None else quick * 40
    d["tshards"] = tshards if tshards is not None else max(shards, 8)
    if env: d["env"] = env
    return d

def U(name, pkg, files, tests, race=False, tags=None):
    return {"name": name, "pkg": pkg, "files": files, "tests": tests, "race": race, "tags": tags}

CHECKS = {}
def add(pid, units, technique, note, **kw):
    CHECKS[pid] = dict(units=units, technique=technique, note=note, **kw)

AXO = ["axo/%s_test.go" % f for f in "sim c01 c02 c03 c04 c05 c06 c07 c08".split()]
add("C01", [U("axo", "zzverif/axo", AXO, [T("TestC01Delivery", 1600, shards=4)])],
    "stateful property-based testing against a delivery model",
    "Explores generated two-party histories; trusts the model of the documented windows (2000 messages, five chains).")

add("C02", [U("axo", "zzverif/axo", AXO, [T("TestC02Reject", 2000, shards=4)])],
    "stateful property-based testing with generated tampering, replay and foreign messages",
    "Explores generated histories; header fields outside the MAC (registration id) may change without rejection, as in the protocol.")
add("C03", [U("axo", "zzverif/axo", AXO, [T("TestC03Interop", 1600, shards=4)])],
    "differential property-based testing against an independent implementation of the protocol",
    "Explores generated conversations; the reference peer was written from the protocol documents for this task.")
add("C04", [U("axo", "zzverif/axo", AXO, [T("TestC04Bundle", 2400, shards=4), T("TestC04Initial", 2400, shards=4)])],
    "property-based testing with generated substitutions, against an acceptance rule computed independently",
    "Explores generated bundles and initial messages; trusts crypto/ed25519 in the acceptance rule.")
add("C05", [U("axo", "zzverif/axo", AXO, [T("TestC05Sessions", 1600, shards=4), T("TestC05ManySwitches", 60, shards=2), T("TestC05Archive", 120, shards=2)])],
    "stateful property-based testing over generated multi-session histories",
    "Explores generated histories with at most about 40 kept sessions.")
add("C06", [U("axo", "zzverif/axo", AXO, [T("TestC06Concurrent", 2000, shards=4)])],
    "property-based testing over generated schedules and store faults",
    "Explores generated schedules at the granularity of store operations.")
add("C07", [U("axo", "zzverif/axo", AXO, [T("TestC07PreKeys", 2000, shards=4)])],
    "stateful property-based testing with injected store failures and crashes",
    "Explores generated histories of up to five initiators.")
add("C08", [U("axo", "zzverif/axo", AXO, [T("TestC08Hostile", 2000, shards=4), T("TestC08Primitives", 1500, shards=2)])],
    "structure-aware fuzzing with property-based generators",
    "Explores generated inputs of up to a few hundred bytes.")
def R(files, *tests, **kw):
    return [U("root", ".", ["root/%s_test.go" % f for f in files.split()], list(tests), **kw)]
add("C09", R("env c09 c11", T("TestC09Store", 800, shards=4)),
    "stateful model-based property testing of the store against a map",
    "Explores generated operation sequences of up to thirty operations.")
add("C10", R("env c09 c11", T("TestC10Tamper", 1600, shards=4)),
    "property-based fault injection (generated file corruptions and passwords)",
    "Explores single-file corruptions; replacing a record by another valid one of the same store is outside the statement.")
add("C11", R("env c09 c11", T("TestC11Interrupted", 500, shards=8)),
    "property-based crash and fault injection (failing writes, killed processes)",
    "Explores interruptions at generated bytes and system calls; power loss (unsynced caches) is not modelled.")
add("C12", R("env c09 c11 c12", T("TestC12Isolation", 600, shards=4)),
    "stateful model-based property testing over similar peer names",
    "Explores generated histories over a fixed set of adversarially similar names.")
add("C13", R("env c09 c11 c12", T("TestC13Pinning", 800, shards=4)),
    "stateful model-based property testing",
    "Explores generated histories of up to thirty operations.")
add("C14", R("env c09 c11 world c14", T("TestC14KeySet", 200, shards=8)),
    "property-based testing with generated randomness and prior store contents",
    "Explores generated identifiers with emphasis on the reserved ones; five keys of each set are used by a peer.")
add("C15", [U("sig", "zzverif/sig", ["sig/c15_test.go"], [T("TestC15Signatures", 2000, shards=4)])],
    "property-based testing: round trip, differential against an independent implementation, and generated alterations",
    "Explores generated keys, messages and alterations; trusts crypto/ed25519 in the reference.")
add("C16", [U("fp", "zzverif/fp", ["fp/c16_test.go"], [T("TestC16SafetyNumber", 600, shards=4), T("TestC16Codes", 2000, shards=2), T("TestC16Alike", 4000, shards=2)])] + R("env c09 c11 c16", T("TestC16Accounts", 240, shards=2)),
    "property-based testing: symmetry, differential against an independent computation, and malformed codes",
    "Explores generated keys, identifiers and codes.")
W = "env c09 c11 world "
add("C17", R(W + "c17", T("TestC17Attachments", 800, shards=8), T("TestC17Received", 400, shards=4)),
    "property-based round trip over a model server with generated request failures",
    "Explores generated contents of up to about 30 kB and single faults per upload; TLS is not exercised.")
add("C18", R(W + "c17", T("TestC18Manipulated", 1200, shards=8)),
    "property-based fault injection (altered blobs, keys and digests)",
    "Explores one manipulated attachment among up to three; a pointer without a digest is not decided.")
add("C32", R(W + "zk c32", T("TestC32Groups", 480, shards=8)),
    "stateful model-based property testing against a model group server with generated request failures and restarts",
    "Explores generated histories over up to three groups; the build replaces the server's public parameters by the model server's.")
add("C19", R(W + "zk c32 c19", T("TestC19Unchanged", 400, shards=8)),
    "property-based round trip through a reference peer, in both directions",
    "Explores generated contents of up to about 1 kB; attachments are C17's.")
add("C20", R(W + "c19 zk c32 c20 c20g", T("TestC20Delivery", 1200, shards=8), T("TestC20Numbers", 400, shards=8)) +
    [U("rootrace", ".", ["root/%s_test.go" % f for f in (W + "c19 zk c32 c20").split()], [T("TestC20Concurrent", 160, shards=8), T("TestC20Renewal", 48, shards=8)], race=True)],
    "stateful model-based property testing against a model server with device changes and injected request failures",
    "Explores generated histories of up to twelve steps; device 1 of a peer always exists, as on the real server.")
add("C21", R(W + "c19 zk c32 c21", T("TestC21Dispatch", 1200, shards=8)),
    "stateful model-based property testing of the dispatch over generated envelope histories",
    "Explores generated histories of up to sixteen steps; sealed-sender envelopes need the crayfish backend and are C36's.")
add("C22", R(W + "c19 zk c32 c21 c22", T("TestC22Bytes", 1500, shards=8), T("TestC22Contents", 800, shards=8)),
    "property-based fuzzing with structured generators (envelopes, contents, group states) and byte mutations",
    "Explores generated envelopes, contents and group states with fields missing, empty, hostile or damaged.")
add("C23", R(W + "c17 c19 zk c32 c21 enclave c23", T("TestC23Sync", 1000, shards=8)),
    "stateful model-based property testing against a model server and a model discovery enclave",
    "Explores generated contents, address books of up to six contacts, up to four legacy groups and single request failures.")
add("C28", [U("cd", "contactDiscoveryCrypto", ["cd/c28_test.go"], [T("TestC28Requests", 4000, shards=4)])] +
    R(W + "c17 c19 zk c32 c21 enclave c23 c28", T("TestC28Discovery", 1600, shards=4)),
    "property-based testing against a model of the enclave, with generated alterations",
    "Explores generated lists of up to forty numbers, up to three attestations and single alterations.")
add("C29", [U("ra", "contactsDiscovery", ["ra/c29_test.go", "ra/c29x_test.go"], [T("TestC29Attestation", 3000, shards=4), T("TestC29Exchange", 2000, shards=4)])],
    "property-based differential testing against an independent derivation, with generated alterations",
    "Explores generated keys and single alterations; the quote is not verified by the code at all (known finding).")
add("C24", R(W + "c19 zk c32 c24 c24x", T("TestC24Expiry", 4, shards=4), T("TestC24Linking", 3000, shards=8)),
    "property-based testing against a model of the new device and the server, with generated faults and alterations",
    "Explores generated account data, device keys and single request failures; small-order device keys are not generated.")
add("C25", R(W + "c17 c19 zk c32 c25", T("TestC25Groups", 1200, shards=8)),
    "stateful model-based property testing with restarts, failing members and failing storage",
    "Explores generated histories of up to twelve operations.")
add("C26", [U("co", "contacts", ["co/c26_test.go"], [T("TestC26Contacts", 2400, shards=4), T("TestC26Garbage", 1600, shards=2)])] +
    R(W + "c19 zk c32 c26", T("TestC26Config", 1600, shards=4)),
    "property-based round trip and stateful model-based testing with odd texts and damaged files",
    "Explores generated texts of up to about 200 bytes, lists of up to four contacts; what a contact update leaves open is not decided.")
add("C27", [U("pro", "profiles", ["pro/c27_test.go"], [T("TestC27Ciphers", 4000, shards=4)])] +
    R(W + "c19 zk c32 c21 enclave c27", T("TestC27Profiles", 1200, shards=8)),
    "property-based round trip, differential testing against an independent cipher, and a model profile server with generated faults and alterations",
    "Explores generated texts, keys and single alterations; texts that end in NUL bytes can not be told from padding.")
GV = ["gv/c30_test.go"]
add("C30", [U("gv", "groupsv2", GV, [T("TestC30Actions", 40000, shards=4), T("TestC30Modify", 12000, shards=4), T("TestC30Proofs", 6000, shards=4)])],
    "property-based testing of the whole rule matrix against an independently written model of the rules",
    "Explores generated groups of up to nine people and changes of up to three parts; the effect of a timer change is not decided.")
add("C31", [U("gv", "groupsv2", GV, [T("TestC31WellFormed", 40000, shards=4)])],
    "property-based testing against an independently written definition, with generated defects",
    "Explores generated groups with up to two defects; link access MEMBER is not decided.")
add("C33", [U("tr", "transport", ["tr/c33_test.go"], [T("TestC33Requests", 6000, shards=4), T("TestC33Answers", 6000, shards=2), T("TestC33Certificates", 600, shards=2)])] +
    R(W + "c19 zk c32 c20 enclave c33 c33s", T("TestC33Account", 2000, shards=4), T("TestC33Socket", 400, shards=2)),
    "property-based testing against model servers that record requests, with generated answers and connection faults",
    "Explores generated requests over loopback connections; redirects and proxies are not decided.")
add("C34", R(W + "c19 zk c32 c20 c21 c22 c34 c34d c34s c34i", T("TestC34Idle", 4, shards=4), T("TestC34Socket", 800, shards=8), T("TestC34Deaf", 6, shards=3), T("TestC34Stop", 200, shards=2)),
    "stateful property-based testing against a model server of the web socket, with generated frames and endings",
    "Explores generated histories of up to three connections; the keep-alive of idle connections is sampled in real time (a few connections of a minute each).")
add("C35", [U("ua", "unidentifiedAccess", ["ua/c35_test.go"], [T("TestC35Certificates", 100000, shards=4), T("TestC35Access", 40000, shards=2)])],
    "property-based testing against an independent reader of certificates, with generated defects",
    "Explores generated certificates; expiry times within half a minute of now are not decided, and the signature of a certificate is not (the client only forwards it).")
add("C36", [U("cf", "crayfish", ["cf/c36_test.go"], [T("TestC36Helper", 600, tshards=1)], race=True),
            U("cfs", "crayfish", ["cf/c36_start_test.go"], [T("TestC36Found", 60, 600, shards=2)])],
    "stateful property-based testing against a model of the helper process, with generated noise, schedules and connection losses, under the race detector",
    "Explores generated conversations; replies carry no request id, so a reply of the right type that arrives before its question is not decided, and a helper that never answers is not either.")
C37 = W + "c19 zk c32 c20 enclave c37"
add("C37", R(C37, T("TestC37Process", 800, shards=4), T("TestC37Alike", 160, 4000, shards=2, tshards=2)) +
    [U("rootft", ".", ["root/%s_test.go" % f for f in C37.split()], [], tags="faketime")],
    "property-based testing of forms, freshness and bit balance, and metamorphic comparison of processes started alike under a frozen clock",
    "Explores generated histories of values; predictability other than from clock, process id, environment or a constant seed is not decided, nor is the randomness of the operating system.")
add("C38", R(W + "c19 zk c32 c38", T("TestC38Files", 240, shards=8), T("TestC38Groups", 240, shards=4)),
    "property-based crash and fault injection (full disks, killed processes)",
    "Explores interruptions at generated bytes and system calls; power loss (unsynced caches) is not modelled.")
add("C39", R(W + "c17 c19 zk c32 c20 enclave c33 c27 helper c39", T("TestC39Setup", 192, shards=16, tshards=16, env={"VERIF_NETNS": "1"})),
    "stateful property-based testing of starts of the application against models of the server and the helper process, with generated faults, full disks and killed processes",
    "Explores generated histories of up to four starts; the registration id is not passed to the helper by its protocol.", jobs=16)
add("C40", R(W + "c19 zk c32 c21 helper c40", T("TestC40Sealed", 800, shards=8, env={"VERIF_NETNS": "1"})),
    "stateful property-based testing against a model of the helper process, with generated contents, malformed answers and lost connections",
    "Explores generated histories of up to nine messages; what the helper does to open a sealed message is not part of this repository.")
add("C41", R(W + "c19 zk c32 c21 c41", T("TestC41Flags", 1000, shards=8)),
    "stateful model-based property testing of session resets and profile key updates, with reference peers",
    "Explores generated histories of up to eighteen steps with two peers of up to three devices and one further device of our own.")
NOT_APPLICABLE = {}
