#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one tuple per property).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=x,meaning=x,where=files[0]) for x in state]
    P.append(d)

p("C01","A verifier only adopts authenticated, consecutive signed tree roots",
 "A client or auditor accepts a signed tree root received from a directory only if it is identical to the one it already pinned for that epoch, or if it carries a valid signature under the pinned directory key over all of its contents, is for exactly the next epoch, names the pinned epoch as its predecessor, and commits to the hash of the pinned root's signature. When a range of roots is accepted, the same holds between every two neighbours of the range. Any other root is rejected with an error and never replaces the pinned one.",
 ["inputs","histories"],"every received root or range of roots of any length, every pinned state, every key",
 "Tests tamper with a handful of fields of fixed roots; the claim is about every root an adversarial directory can construct and every range length.",
 ["protocol/auditor/auditor.go","merkletree/str.go","protocol/str.go","protocol/client/consistencychecks.go"],
 [("AudState.AuditDirectory / CheckSTRAgainstVerified / VerifySTRRange","protocol/auditor/auditor.go"),("SignedTreeRoot.VerifyHashChain","merkletree/str.go"),("ConsistencyChecks.HandleResponse","protocol/client/consistencychecks.go")],
 ["return value of the audit and response-handling entry points","pinned root after the call"],["pinned (verified) root and signing key of a verifier"])

p("C02","An auditor's log holds only verified, gap-free roots of each directory",
 "A response changes a directory's recorded history only after the whole received range was verified against the last recorded root, and then every root of the range is recorded under its own epoch and the newest one becomes the last verified root. A new history is created only for a directory that is not known yet and only from an initial root of epoch 0, under the identity derived from that initial root. A rejected response or rejected initialisation changes nothing, and an initialisation is rejected by an error, not by stopping the program.",
 ["inputs","histories"],"every response, every earlier history, every initialisation list",
 "Tests audit a few well-formed ranges; a log entry written on an error path or under another epoch only shows for specific range shapes.",
 ["protocol/auditlog/auditlog.go","protocol/auditor/auditor.go"],
 [("directoryHistory.Audit / insertRange / updateVerifiedSTR","protocol/auditlog/auditlog.go"),("ConiksAuditLog.InitHistory","protocol/auditlog/auditlog.go"),("ComputeDirectoryIdentity","protocol/auditor/common.go")],
 ["stored snapshots and last verified root after an audit","presence of a history in the log"],["per-directory snapshot map and last verified root"])

p("C03","A client accepts a lookup or registration proof only if it verifies fully",
 "A response to a registration or key lookup is accepted only if the private index is proven by the VRF key of the accepted root for exactly the requested name, and the recomputed tree root equals that root's tree hash. For a proof of inclusion the returned value must equal the expected key, the commitment must open to exactly (name, key) and the leaf must be a real user leaf at the proven index; for a proof of absence every prefix bit of the other leaf must match the proven index and no value may be returned.",
 ["inputs"],"every authentication path of any depth, every name and key, every accepted root",
 "The number of forged paths is unbounded; tests try a few single-field corruptions of honest proofs at one depth.",
 ["protocol/client/consistencychecks.go","merkletree/proof.go","crypto/util.go"],
 [("ConsistencyChecks.HandleResponse","protocol/client/consistencychecks.go"),("AuthenticationPath.Verify / authPathHash / ProofType","merkletree/proof.go"),("Commit.Verify","crypto/util.go")],
 ["return value of the client's response handling"],["authentication path, accepted root"])

p("C04","A status code is accepted only with the proof type it requires",
 "For a registration, success is accepted only together with a proof of absence, and name-existed only with a proof of inclusion, or with a proof of absence when promises are in use. For a lookup, not-found is accepted only with a proof of absence, and success only with a proof of inclusion, or with a proof of absence when promises are in use. Responses to other request types or with any other code, or of another kind, are never accepted.",
 ["inputs"],"every combination of request type, status code, proof type and response kind",
 "The combinations that must be refused are never produced by the honest server the tests talk to.",
 ["protocol/client/consistencychecks.go","protocol/message.go"],
 [("verifyRegistration / verifyKeyLookup","protocol/client/consistencychecks.go"),("Response.Validate","protocol/message.go")],
 ["return value of the client's response handling"])

p("C05","Promises are checked when issued and when they fall due",
 "A client stores a temporary binding only when the response proved absence, and only if the binding is signed by the pinned directory key over the signature of the accepted root, is for the proven index, and binds the expected key if there is one. A saved binding is dropped only on a successful inclusion proof whose index and value equal the promised ones. An inclusion proof that contradicts a saved binding is reported as a broken promise.",
 ["inputs","histories"],"every response and every set of saved promises",
 "A broken promise needs a dishonest directory and a particular two-response history; tests have only honest ones.",
 ["protocol/client/consistencychecks.go","protocol/tb.go"],
 [("updateTBs / verifyReturnedPromise / verifyFulfilledPromise","protocol/client/consistencychecks.go"),("TemporaryBinding.Serialize","protocol/tb.go")],
 ["saved promises after response handling","returned error"],["saved temporary bindings by name"])

p("C06","A client's pinned key material changes only through verified responses",
 "A user's key binding is recorded by the client only after all checks on the response succeeded, is the key proven (or promised) by that response, and a recorded binding is never replaced by an empty one. If any check fails, the client's recorded bindings and saved promises stay as they were. The pinned signing key never changes after construction, and the pinned root changes only as a result of the root checks.",
 ["inputs","histories"],"every response in every state; every function of the program that can reach the state",
 "A missing early return or a write on an error path is only visible for a response that fails one particular check.",
 ["protocol/client/consistencychecks.go","protocol/auditor/auditor.go","protocol/message.go"],
 [("ConsistencyChecks.HandleResponse","protocol/client/consistencychecks.go"),("Response.GetKey","protocol/message.go"),("AudState.Update","protocol/auditor/auditor.go")],
 ["recorded bindings, saved promises, pinned root and key after the call"],["Bindings, TBs, pinned root, signing key"])

p("C07","Verification errors are returned only when the named check failed",
 "Each verification error a client or auditor returns (bad signature, bad index proof, differing bindings, bad commitment, index mismatch, bad path, bad chain, bad promise, broken promise) is returned only for a response for which that check really fails. Consequently a response that passes every check is accepted, at every tree depth and epoch.",
 ["inputs","histories"],"every response that passes all checks; every rejected response",
 "Tests accept a few honest responses; spurious rejections at other depths, epochs or orders of operations are not sampled.",
 ["protocol/client/consistencychecks.go","protocol/auditor/auditor.go","merkletree/proof.go"],
 [("ConsistencyChecks.HandleResponse","protocol/client/consistencychecks.go"),("AudState.AuditDirectory","protocol/auditor/auditor.go"),("AuthenticationPath.Verify","merkletree/proof.go")],
 ["error returned by the verification entry points"])

p("C08","A registration never changes an existing or pending binding",
 "The directory inserts a binding only for a well-formed request whose name is proven absent from the latest snapshot and is not pending in the current epoch, and it inserts exactly the requested name and key. A request for a name that exists or is pending leaves the tree and the pending bindings unchanged and is answered with name-existed.",
 ["inputs","histories"],"every request in every directory state",
 "An overwrite needs a particular earlier history (same epoch, or after an epoch change) and possibly look-alike names.",
 ["protocol/directory/directory.go","merkletree/pad.go"],
 [("ConiksDirectory.Register","protocol/directory/directory.go"),("PAD.Set","merkletree/pad.go")],
 ["insertions into the tree and the pending set","returned status"],["tree under construction, pending bindings"])

p("C09","A promise exists exactly for the bindings pending inclusion",
 "Every successful registration records one temporary binding for the name, with the index and key of the inserted entry and signed over the latest root's signature, and returns that same binding. A binding is recorded only when the insertion succeeded, and pending bindings are removed only by the epoch update, after the snapshot that includes the insertions was taken.",
 ["inputs","histories","schedules"],"every history of registrations and epoch updates",
 "Losing or duplicating a promise needs an insertion failure or an update at a particular point.",
 ["protocol/directory/directory.go","merkletree/pad.go"],
 [("ConiksDirectory.Register / NewTB / Update","protocol/directory/directory.go")],
 ["pending bindings after each operation","returned binding"],["pending bindings by name"])

p("C10","Lookups answer from the latest snapshot with matching proof and root",
 "A lookup for a name answers success with the inclusion proof when the latest snapshot contains the name, success with the proof of absence and the pending binding when it is pending, and not-found with the proof of absence otherwise. A registration is answered with a proof and root of the latest snapshot in the same way. Proof and root in one answer always belong to the same snapshot, an answer has exactly one of each, and a malformed request or an internal failure is answered by the matching error code without any proof.",
 ["inputs","histories"],"every request in every directory state",
 "Mismatches between proof and root or code only show in particular states.",
 ["protocol/directory/directory.go","merkletree/pad.go"],
 [("ConiksDirectory.KeyLookup / Register","protocol/directory/directory.go"),("PAD.Lookup","merkletree/pad.go")],
 ["returned response"])

p("C11","Range answers contain exactly one root (and proof) per requested epoch",
 "History, past-lookup, monitoring and auditing requests are answered with one root for every epoch from the requested start up to the requested end, clipped to the latest epoch, in increasing order, and each proof in the answer is taken from the snapshot of its epoch. Requests beyond the latest epoch or with a reversed range are refused as malformed, an epoch the server can no longer serve or an unknown directory yields the matching error code, and no served range contains a gap.",
 ["inputs","histories"],"every epoch range in every history, including evicted snapshots",
 "Off-by-one errors and evicted epochs need particular epoch numbers; tests use a few small ranges.",
 ["protocol/directory/directory.go","protocol/auditlog/auditlog.go","merkletree/pad.go"],
 [("KeyLookupInEpoch / Monitor / GetSTRHistory","protocol/directory/directory.go"),("ConiksAuditLog.GetObservedSTRs","protocol/auditlog/auditlog.go"),("PAD.GetSTR / LookupInEpoch","merkletree/pad.go")],
 ["returned response"])

p("C12","Every issued root extends the previous one by exactly one epoch",
 "The directory's first root is for epoch 0, and each later one is for the epoch following the latest root, names that epoch as its predecessor, and contains the hash of the latest root's signature and the hash of the current tree. It is signed with the directory's key over all of its contents and becomes the latest root, with the policies that were announced before the update.",
 ["histories"],"every history of updates and insertions",
 "Tests run a few updates; the claim is about every history, including policy changes in between.",
 ["merkletree/pad.go","merkletree/str.go","protocol/directory/directory.go"],
 [("PAD.Update / signTreeRoot / updateInternal","merkletree/pad.go"),("NewSTR","merkletree/str.go")],
 ["latest root after an update"],["latest root, signing key, policies"])

p("C13","Cached snapshots are consistent with the list of loaded epochs",
 "Each update makes the new snapshot available under its own epoch, and an old snapshot is dropped only when the configured number of snapshots is reached, oldest first, together with its entry in the list of loaded epochs. A request for an epoch at or beyond the latest one gets the latest root, a request for an earlier one gets the snapshot recorded for exactly that epoch or is reported as not found.",
 ["histories","configurations"],"every number of updates and every configured capacity",
 "The eviction path runs only when the capacity is hit; the wrong snapshot survives only for particular capacities.",
 ["merkletree/pad.go"],[("PAD.Update / updateInternal / GetSTR / LookupInEpoch","merkletree/pad.go")],
 ["snapshots retrievable after each update"],["snapshot map, list of loaded epochs"])

p("C14","A published snapshot is never changed by later operations",
 "The tree inside a published root shares no mutable node with the tree under construction, so later insertions and updates cannot change the proofs or the tree hash of an earlier epoch. Looking something up, in any snapshot, changes no directory data.",
 ["histories","inputs"],"every later operation on every published snapshot",
 "Aliasing shows only when a later insertion touches a shared node.",
 ["merkletree/merkletree.go","merkletree/node.go","merkletree/pad.go"],
 [("MerkleTree.Clone and the nodes' clone","merkletree/node.go"),("PAD.signTreeRoot","merkletree/pad.go"),("MerkleTree.Get / PAD.LookupInEpoch","merkletree/merkletree.go")],
 ["proofs and tree hash of earlier epochs"],["tree nodes of published snapshots"])

p("C15","An insertion only adds its own leaf and invalidates its whole path",
 "Inserting a binding stores a leaf carrying exactly the given index, name, a private copy of the value and a fresh commitment to name and value, and leaves every other leaf's index, name, value and commitment alone. Every interior node on the path from the root to the new leaf has its cached hash towards that leaf dropped, and a leaf that is pushed down keeps its side determined by its own index bit and gets the level of its new position.",
 ["inputs","histories"],"every index and every tree shape",
 "Stale cached hashes and misplaced leaves need indices with particular common prefixes.",
 ["merkletree/merkletree.go","merkletree/node.go"],
 [("MerkleTree.Set / insertNode","merkletree/merkletree.go"),("newInteriorNode","merkletree/node.go")],
 ["tree nodes after an insertion"],["leaf and interior nodes"])

p("C16","The proof verifier recomputes exactly the hash the tree was built with",
 "For every kind of node, the hash computed when the tree is built and the hash recomputed from a proof are over the same fields in the same order with the same domain separator, and the hash of a leaf and of an empty branch carry different separators. A proof produced by a lookup carries, at every level, the hash of the sibling on the side the verifier expects it, ends in the node reached by following the index bits, and contains the value and opening of the requested leaf only.",
 ["inputs"],"every index, every tree",
 "A mismatch in a field that is constant in small tests (level, nonce, side) goes unnoticed there.",
 ["merkletree/node.go","merkletree/proof.go","merkletree/merkletree.go"],
 [("node hash methods","merkletree/node.go"),("ProofNode.hash / authPathHash","merkletree/proof.go"),("MerkleTree.Get","merkletree/merkletree.go")],
 ["hash transcripts of tree and proof"])

p("C17","Answers about one name reveal nothing else about other users' bindings",
 "A proof of absence never contains the value or the commitment opening of the leaf it ends in, and the proof structures and roots sent to clients contain no user name, no pointer into the tree and no private key. The index of a name is always derived by the private VRF key, and every commitment and tree uses fresh randomness as salt or nonce.",
 ["inputs","histories"],"every lookup in every tree; every type that is ever serialised to the network",
 "Leaks are extra data in a response and do not make a functional test fail.",
 ["merkletree/merkletree.go","merkletree/proof.go","merkletree/pad.go","protocol/message.go","crypto/util.go"],
 [("MerkleTree.Get","merkletree/merkletree.go"),("PAD.computePrivateIndex","merkletree/pad.go"),("NewCommit / MakeRand","crypto/util.go"),("message types","protocol/message.go")],
 ["content of proofs and responses"])

p("C18","Signatures cover every security-relevant field",
 "The signed form of a root contains its epoch, its predecessor's epoch (except at epoch 0), its tree hash, the previous root's signature hash and every policy field; the signed form of a promise contains the root's signature, the index and the key. What is signed when issuing is byte for byte what is verified on receipt. A signature is accepted exactly when Ed25519 accepts it over the whole message under the given key, and the public key handed out is the one that belongs to the private key.",
 ["inputs"],"every root, policy and promise",
 "A field missing from the signed form verifies perfectly well with honest data.",
 ["merkletree/str.go","protocol/str.go","protocol/policy.go","protocol/tb.go","merkletree/pad.go","protocol/directory/directory.go","crypto/sign/sign.go"],
 [("PrivateKey.Sign / Public, PublicKey.Verify","crypto/sign/sign.go"),("Serialize functions","merkletree/str.go, protocol/str.go, protocol/policy.go, protocol/tb.go"),("PAD.Sign, NewSTR, NewTB","merkletree/pad.go, merkletree/str.go, protocol/directory/directory.go")],
 ["argument of sign and verify operations"])

p("C19","Hash, commitment and VRF transcripts bind all of their inputs",
 "A digest covers every given input in order; a commitment is a digest of its salt, name and value, and verification recomputes exactly that. The VRF verifier refuses inputs of wrong length, checks that the output is derived from the proven point and the message, and recomputes the challenge over base point, hashed message, public key, proven point, both recomputed points and the message, and the prover uses the same transcript. The VRF public key handed out is the public half of the private key.",
 ["inputs"],"every message, key and proof",
 "A transcript that omits a component is consistent between prover and verifier, so round-trip tests pass.",
 ["crypto/util.go","crypto/vrf/vrf.go"],
 [("Digest / NewCommit / Commit.Verify","crypto/util.go"),("vrf Prove / Compute / Verify","crypto/vrf/vrf.go")],
 ["hash inputs"])

p("C20","Private keys never leave the process except into their key files",
 "Private signing and VRF keys are used only to sign, to compute indices or to derive the public part; they never flow into a response, a log message, an error text, the configuration or any file other than the key file, and key files are created readable by their owner only.",
 ["inputs","configurations"],"every value derived from a private key on every path",
 "Leaking a key does not change any tested behaviour.",
 ["application/server/config.go","cli/coniksserver/internal/cmd/init.go","merkletree/pad.go","crypto/sign/sign.go","crypto/vrf/vrf.go"],
 [("server key loading","application/server/config.go"),("key creation","cli/coniksserver/internal/cmd/init.go"),("PAD signing and index computation","merkletree/pad.go")],
 ["arguments of output functions"])

p("C21","A request is executed only if the address it arrived on permits its type",
 "A request reaches its handler only after its type was found permitted for the listening address it arrived on; the server listens on every address it is given, lookups are permitted everywhere and registration exactly where the configuration allows it. A request that is not permitted, does not parse, or whose body does not match its type is answered as malformed and has no effect.",
 ["inputs","configurations"],"every request on every address of every configuration",
 "Tests use one public and one private address and a few request types.",
 ["application/serverbase.go","application/server/server.go","application/encoding.go"],
 [("ServerBase.acceptClient / checkRequestType","application/serverbase.go"),("NewConiksServer permissions / HandleRequests","application/server/server.go")],
 ["dispatch of requests to handlers"],["permission table"])

p("C22","Directory state is only touched under the server lock",
 "Every access to the directory from request handling, epoch updates and policy reloads happens while holding the server's lock, exclusively unless the operation only reads; handlers that run under the shared lock change no directory data. No lock is taken twice or released without being held, and every path releases what it took. The configuration that running goroutines read is not changed after they were started.",
 ["schedules"],"every interleaving of connections, timer ticks and reload signals",
 "The race needs a particular interleaving; tests rarely produce it even under the race detector.",
 ["application/serverbase.go","application/server/server.go","protocol/directory/directory.go"],
 [("ServerBase.acceptClient / EpochUpdate / HotReload","application/serverbase.go"),("handlers","application/server/server.go, protocol/directory/directory.go")],
 ["lock set at each access"],["directory, PAD, tree, pending bindings, policies"])

p("C23","Every connection is bounded, answered and closed",
 "Each accepted connection gets a deadline before anything is read from it, at most a fixed number of bytes is read, it is closed on every path, and every request that was read is answered by exactly one response. No network operation happens while the directory lock is held, accepted connections are waited for before a listener shuts down, and shutting down waits for all background activity.",
 ["schedules","inputs","fault_sequences"],"every behaviour of the peer, every order of connections and shutdown",
 "Needs stalled or oversized peers, failing writes, or shutdown at a particular moment.",
 ["application/serverbase.go"],
 [("ServerBase.acceptClient / acceptRequests / ListenAndHandle / RunInBackground / Shutdown","application/serverbase.go")],
 ["operations on the connection and on the wait groups"])

p("C24","Public TCP traffic is always encrypted",
 "A server accepts requests on a TCP address only through TLS with the certificate and key configured for that address, and refuses to start otherwise; only Unix sockets are served in the clear. Clients reach TCP addresses through TLS only, and an address of any other kind is refused.",
 ["configurations"],"every configured address",
 "Plaintext fallback works fine functionally; tests use their own client helpers.",
 ["application/serverbase.go","application/testutil/testutil.go"],
 [("resolveAndListen / acceptRequests","application/serverbase.go"),("client dialing","application/testutil/testutil.go, cli/coniksclient/internal/cmd/run.go")],
 ["connections handed to the request handler"])

p("C25","Epochs advance once per deadline of the signed policy",
 "The epoch timer runs with the epoch deadline announced in the directory's policies, each expiry triggers exactly one directory update under the exclusive lock and re-arms the timer, and only the timer (never a request or a reload) advances the epoch.",
 ["configurations","schedules"],"every configuration, every sequence of expiries and requests",
 "Tests use configurations in which all deadline settings coincide.",
 ["application/server/server.go","application/serverbase.go","application/server/policies.go"],
 [("ServerBase.EpochUpdate","application/serverbase.go"),("NewConiksServer timer","application/server/server.go")],
 ["timer construction and update calls"])

p("C26","A policy reload changes only the next epoch's policies, or nothing",
 "A reload that fails to read or validate the configuration leaves the server as it was. A successful one changes nothing but the epoch deadline announced in the policies of roots signed from the following update on: keys, permissions, existing roots and pending bindings stay.",
 ["configurations","histories"],"every configuration file content at reload time",
 "Tests reload one valid and one missing file.",
 ["application/server/server.go","protocol/directory/directory.go","merkletree/pad.go"],
 [("updatePolicies","application/server/server.go"),("ConiksDirectory.SetPolicies","protocol/directory/directory.go"),("PAD.updateInternal","merkletree/pad.go")],
 ["fields written by a reload"],["policies"])

p("C27","Messages decode into the type their code announces, and nothing else",
 "A request decodes into exactly the message kind its type code denotes, for every request code a directory server handles; any other code never yields one of these message kinds, and an undecodable body is an error. A response decodes into the kind its request type calls for, an error response keeps its code, and a response with a non-error code but no body is reported as malformed.",
 ["inputs"],"every byte string, every type code",
 "Tests encode and decode one or two message kinds.",
 ["application/encoding.go","protocol/message.go"],
 [("MarshalRequest / UnmarshalRequest / UnmarshalResponse / CreateRegistrationMsg etc.","application/encoding.go")],
 ["result of the decoding functions"])

p("C28","Every status and error code is classified and has a message",
 "Every code the protocol defines has a non-empty, distinct message, and every code that denotes a request the server could not process makes response validation fail with that very code before any part of the response is used. Codes a client must verify proofs for are never treated as such errors.",
 ["inputs"],"every defined code",
 "A missing table entry only shows when that code is actually returned.",
 ["protocol/error.go","protocol/message.go","protocol/client/consistencychecks.go"],
 [("code tables and ErrorCode.Error","protocol/error.go"),("Response.Validate","protocol/message.go")],
 ["text and classification of each code"])

p("C29","The registration bot only registers names its sender owns",
 "The bot forwards a registration to the key server only if the message is a well-formed registration request whose user name equals, ignoring case, the platform-qualified name of the sender, and forwards it unmodified. Any other message is answered with an error and nothing is sent to the key server. The key server's answer, or an error, goes to the sender of the message and nobody else.",
 ["inputs"],"every message and sender name",
 "The bypass needs look-alike names (case, suffix, prefix) that tests do not try.",
 ["application/bots/twitterbot.go","application/bots/bot.go","utils/coname.go"],
 [("TwitterBot.HandleRegistration","application/bots/twitterbot.go"),("name validation","utils/coname.go")],
 ["messages sent to the key server"])

p("C30","Key-value writes are durable and reads report failures faithfully",
 "Every write, delete and batch commit of the storage layer is flushed to stable storage before it is reported as done. Errors of the underlying database are returned to the caller, a missing key is reported as not found and nothing else is, and a range scan covers exactly the keys between its bounds.",
 ["crash_points","fault_sequences","inputs"],"every crash or fault at any write; every key range",
 "A lost write shows only after a crash at the right moment.",
 ["storage/kv/leveldbkv/leveldbkv.go","storage/kv/range.go","storage/kv/kv.go"],
 [("leveldb wrapper","storage/kv/leveldbkv/leveldbkv.go"),("Range / BytesPrefix","storage/kv/range.go")],
 ["arguments and results of database calls"])

p("C31","Invalid configuration, keys or pinned roots are refused at load time",
 "Loading a configuration fails with an error, and never with a crash or a half-loaded result, if a referenced key file or initial root is missing, has the wrong length or does not parse, or if the file cannot be decoded. Keys are used only after their length was checked, and relative paths are resolved against the configuration file's location.",
 ["configurations","fault_sequences"],"every configuration file and key file content",
 "Tests load valid files; each kind of damage takes another path.",
 ["application/config.go","application/encoding.go","application/server/config.go","application/client/config.go","application/config_encoding.go"],
 [("LoadSigningPubKey / LoadInitSTR / LoadConfig","application/config.go"),("Config.Load","application/server/config.go, application/client/config.go, application/bots/config.go")],
 ["result of the loading functions"])

p("C32","Setup never silently overwrites existing files, and secrets stay private",
 "The initialisation commands write files through one routine that refuses to replace an existing file and reports every failure. Private keys are written with owner-only permissions, and a failed write is never reported as success.",
 ["configurations","fault_sequences"],"every state of the target directory",
 "Tests do not run the initialisation commands over existing files.",
 ["utils/utils.go","cli/init.go","application/config.go","cli/coniksserver/internal/cmd/init.go","cli/coniksclient/internal/cmd/init.go","cli/coniksbot/internal/cmd/init.go"],
 [("utils.WriteFile","utils/utils.go"),("init commands","cli/coniksserver/internal/cmd/init.go"),("testutil.CreateTLSCert","application/testutil/testutil.go")],
 ["file system calls and their arguments"])

p("C33","Secrets come from the system's secure randomness and failures are reported",
 "All keys, salts and nonces are derived from the operating system's cryptographic random source; no other source of randomness is used outside tests. A failure of the random source is propagated as an error (or stops the operation) and never yields a constant or partial secret.",
 ["fault_sequences","inputs"],"every use of randomness; every failure of the source",
 "A weak or failing source yields values that look fine to a functional test.",
 ["crypto/util.go","crypto/sign/sign.go","crypto/vrf/vrf.go","merkletree/merkletree.go"],
 [("MakeRand / NewCommit","crypto/util.go"),("GenerateKey","crypto/sign/sign.go, crypto/vrf/vrf.go"),("NewMerkleTree","merkletree/merkletree.go")],
 ["randomness sources and handling of their errors"])

p("C34","The command-line client reports success only for verified answers",
 "The client prints a success message, or a key as the one bound to the name, only after the server's response was decoded without error and passed all consistency checks, and the key it prints is the one the verified response proved. Every failing check leads to a message that names a failure.",
 ["inputs"],"every response to every command",
 "Tests do not drive the interactive client with dishonest responses.",
 ["cli/coniksclient/internal/cmd/run.go"],
 [("register / keyLookup","cli/coniksclient/internal/cmd/run.go")],
 ["text returned to the user"])

p("C35","No response from a directory or auditor can crash a verifier",
 "Whatever bytes a directory or auditor sends in reply to a registration, lookup or auditing request, the client and the auditor either accept the response or return an error; they never crash. This includes absent, null, empty or inconsistent parts of proofs, roots, policies and promises.",
 ["inputs"],"every decodable response",
 "The malformed shapes are unboundedly many; tests try two or three.",
 ["protocol/client/consistencychecks.go","protocol/message.go","protocol/auditor/auditor.go","protocol/auditlog/auditlog.go","merkletree/proof.go","application/encoding.go"],
 [("ConsistencyChecks.HandleResponse / CheckEquivocation","protocol/client/consistencychecks.go"),("directoryHistory.Audit","protocol/auditlog/auditlog.go"),("Response.Validate","protocol/message.go")],
 ["panics reachable from response data"])

p("C36","No request can crash the directory or the auditor",
 "Whatever bytes a client sends, the server answers or drops the connection; it never crashes. This includes requests with null or missing bodies, empty names, and any epoch number, in any directory state including evicted snapshots.",
 ["inputs","histories"],"every byte string received as a request, in every directory state",
 "One crashing input among all inputs and histories; tests send a handful.",
 ["application/serverbase.go","application/encoding.go","application/server/server.go","protocol/directory/directory.go","protocol/auditlog/auditlog.go","merkletree/pad.go"],
 [("acceptClient / UnmarshalRequest / HandleRequests","application"),("directory operations","protocol/directory/directory.go"),("GetObservedSTRs","protocol/auditlog/auditlog.go")],
 ["panics reachable from request data"])

p("C37","Bit, byte and integer conversions lose nothing, whatever the input",
 "Element i of the bits made from a byte string is bit i of that string, most significant bit of each byte first, and every bit of the string is there; bytes made from bits put element i at the same place, with zeros after the last one; reading bit n of a byte string agrees with both for every position. So converting bytes to bits and back yields the input. The encodings of integers keep every byte of the integer in a fixed order and width.",
 ["inputs"],"every byte string, sequence of bits, position and integer",
 "All lengths and positions cannot be sampled, and the tests' trees only ever use 32-byte indices; tree positions, hashes and signatures all go through these conversions.",
 ["utils/coname.go","utils/utils.go"],
 [("ToBits / ToBytes / GetNthBit","utils/coname.go"),("ULongToBytes / LongToBytes / UInt32ToBytes","utils/utils.go")],["conversion results"])

p("C38","What is sent or stored carries everything its readers rely on",
 "Whatever a receiver checks or uses of a response, request, signed root or configuration is part of its encoding and is read back under the same name, so a genuine message does not become another one by being sent or stored. Messages are encoded as a whole and unchanged, requests made for a caller hold exactly the caller's values, and the body of an answer is of the kind its receiver decodes.",
 ["inputs","configurations"],"every response, request, signed root and configuration, whatever its contents",
 "The tests hand most messages over in memory and those few that are encoded are of the first epochs and small; a field that is missing in the encoding reads as zero, which is often the value in a test.",
 ["application/encoding.go","application/client/encoding.go","protocol/message.go","protocol/str.go","protocol/tb.go","merkletree/str.go","merkletree/proof.go","application/server/config.go"],
 [("MarshalResponse / UnmarshalResponse","application/encoding.go"),("MarshalRequest / UnmarshalRequest","application/encoding.go"),("CreateRegistrationMsg / CreateKeyLookupMsg","application/client/encoding.go")],["messages on the wire","configuration and root files"])

p("C39","Work done for a message, an update or a load always ends",
 "Handling a request or response, updating the directory, looking a name up, verifying a proof and loading or saving a configuration end for every input: no loop goes on for ever, the number of rounds is limited by data that is held (or by what the other side actually sent) and never by a number a peer merely claims, such as the end of a requested epoch range or the level of a leaf, and nothing calls itself again on the same data. Tasks that run for the life of the server wait in every round.",
 ["inputs","histories"],"every request, response, proof, epoch range, history length and configuration",
 "The tests use short ranges and small trees, for which a missing bound or a narrow counter only costs a few more rounds.",
 ["protocol/directory/directory.go","protocol/auditlog/auditlog.go","merkletree/merkletree.go","merkletree/proof.go","merkletree/pad.go","application/serverbase.go","protocol/message.go"],
 [("GetSTRHistory / Monitor / KeyLookupInEpoch","protocol/directory/directory.go"),("GetObservedSTRs","protocol/auditlog/auditlog.go"),("insertNode / Get","merkletree/merkletree.go"),("authPathHash","merkletree/proof.go"),("Update","merkletree/pad.go"),("EpochUpdate / HotReload / acceptRequests","application/serverbase.go")],["answers to requests","the epoch update"])

p("C40","A step that failed is never taken for a success",
 "Wherever something can fail (reading, writing, encoding, decoding, random numbers, inserting or looking up a binding, verifying, connecting), the failure reaches whoever relies on the result: no function returns a nil error, an answer without an error code or a result that looks good after a step whose error was not nil and not one it provides for; no round of a loop goes on as if such a step had been taken; a function without such a result says what failed in the log or ends the program; and no error is thrown away unexamined.",
 ["inputs","fault_sequences"],"every call that can fail, and every error it can return",
 "The tests never make the disk, the network or the random number generator fail, so an error path that is missing or wrong is not taken by any of them.",
 ["utils/utils.go","application/config.go","application/config_encoding.go","application/server/config.go","application/client/config.go","application/bots/bot.go","protocol/directory/directory.go","merkletree/pad.go","protocol/auditor/auditor.go","cli/coniksserver/internal/cmd/init.go","cli/coniksclient/internal/cmd/run.go"],
 [("WriteFile","utils/utils.go"),("LoadInitSTR / SaveSTR / SaveConfig","application/config.go"),("Load","application/server/config.go"),("SendRequestToCONIKS","application/bots/bot.go"),("Register / Monitor","protocol/directory/directory.go"),("NewCommit / MakeRand","crypto/util.go"),("VerifySTRRange","protocol/auditor/auditor.go")],["returned errors and answers","the log"])

# not applicable to static analysis here
p("N01","Curve and VRF arithmetic is correct for every scalar and point",
 "The elliptic-curve routines compute the group operations exactly for every input, so honestly produced signatures and VRF proofs always verify and Elligator mapping is total.",
 ["inputs"],"every field element, scalar and point","Carry errors hit one input in 2^60.",
 ["crypto/internal/ed25519/edwards25519/edwards25519.go","crypto/internal/ed25519/extra25519/extra25519.go"],
 [("field and group arithmetic","crypto/internal/ed25519")],["numeric results"])
p("N02","The cryptographic assumptions hold for the chosen parameters",
 "Forging signatures, finding digest collisions, opening a commitment in two ways or predicting a VRF output is infeasible with the chosen primitives and sizes.",
 ["programs"],"every polynomial-time adversary","Statements about adversaries' running time.",
 ["crypto/util.go","crypto/sign/sign.go","crypto/vrf/vrf.go"],[("primitives","crypto")],["none"])
p("N03","Concurrent requests behave as if executed one after another",
 "For every interleaving of registrations, lookups, updates and reloads there is a sequential order of the same operations with the same answers, consistent with real time.",
 ["schedules","histories"],"every concurrent history","Needs specific interleavings and a judgement of whole histories.",
 ["application/serverbase.go","protocol/directory/directory.go"],[("locking","application/serverbase.go")],["responses over time"])
p("N04","Epoch updates and shutdown complete within bounded time",
 "An update of a directory of any supported size finishes well within the epoch deadline, and shutdown completes within the connection timeout.",
 ["schedules","configurations"],"every directory size and load","Depends on machine speed and load.",
 ["application/serverbase.go","merkletree/pad.go"],[("timer and shutdown","application/serverbase.go")],["elapsed time"])
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
