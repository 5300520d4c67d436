From c1b4ee7660cba0022bb3b3b9071160acb6e543e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 01/14] fix: return the proven or promised key of a response
 and pin it in the client

Response.GetKey always returned an empty key, so the client recorded an
empty binding for every name and accepted any key in later lookups.
---
 protocol/client/consistencychecks.go | 21 ++++++++++++++++++---
 protocol/message.go                  | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 5e2c124..1a63936 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -106,9 +106,18 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	}
 	switch requestType {
 	case protocol.RegistrationType, protocol.KeyLookupType, protocol.KeyLookupInEpochType, protocol.MonitoringType:
-		if _, ok := msg.DirectoryResponse.(*protocol.DirectoryProof); !ok {
+		df, ok := msg.DirectoryResponse.(*protocol.DirectoryProof)
+		if !ok {
 			return protocol.ErrMalformedMessage
 		}
+		// only the first proof and root are verified
+		// below, and the key is taken from the last one
+		switch requestType {
+		case protocol.RegistrationType, protocol.KeyLookupType:
+			if len(df.AP) != 1 || len(df.STR) != 1 {
+				return protocol.ErrMalformedMessage
+			}
+		}
 	default:
 		panic("[coniks] Unknown request type")
 	}
@@ -121,8 +130,14 @@ func (cc *ConsistencyChecks) HandleResponse(requestType int, msg *protocol.Respo
 	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
 		return err
 	}
-	recvKey, _ := msg.GetKey()
-	cc.Bindings[uname] = recvKey
+	recvKey, err := msg.GetKey()
+	if err != nil {
+		return err
+	}
+	// only pin a key the directory has proven (or promised)
+	if recvKey != nil {
+		cc.Bindings[uname] = recvKey
+	}
 	return nil
 }
 
diff --git a/protocol/message.go b/protocol/message.go
index bafc86a..340587c 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -302,7 +302,20 @@ func (msg *Response) Validate() error {
 // If the response contains a range of authentication paths,
 // the key is obtained from the authentication path corresponding
 // to the most recent signed tree root.
-// FIXME: remove this obsolete function
 func (msg *Response) GetKey() ([]byte, error) {
+	df, ok := msg.DirectoryResponse.(*DirectoryProof)
+	if !ok || df == nil || len(df.AP) == 0 {
+		return nil, ErrMalformedMessage
+	}
+	if msg.Error == ReqNameNotFound {
+		return nil, nil
+	}
+	ap := df.AP[len(df.AP)-1]
+	if ap.ProofType() == merkletree.ProofOfInclusion {
+		return ap.Leaf.Value, nil
+	}
+	if df.TB != nil {
+		return df.TB.Value, nil
+	}
 	return nil, nil
 }
-- 
2.43.0


From fea2dfb3ad46c7313a626529a10b6291f62feff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 02/14] fix: reject authentication paths whose parts are
 missing or don't fit together

An inclusion proof ending in an empty leaf was accepted although its hash
doesn't cover the commitment, an index of unexpected length allowed one leaf
to serve as proof of inclusion and of absence, and short or absent parts
crashed the verifier.
---
 merkletree/proof.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/merkletree/proof.go b/merkletree/proof.go
index 5514c93..f4cd23e 100644
--- a/merkletree/proof.go
+++ b/merkletree/proof.go
@@ -97,6 +97,37 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 	return hash
 }
 
+// checkShape checks that the parts of ap, which may come from the network,
+// are present and that their lengths fit together, since the hashed nodes
+// are unambiguous only for indices of the expected length.
+func (ap *AuthenticationPath) checkShape() error {
+	leaf := ap.Leaf
+	if leaf == nil {
+		return ErrUnequalTreeHashes
+	}
+	level := int(leaf.Level)
+	if level > len(ap.PrunedTree) {
+		return ErrUnequalTreeHashes
+	}
+	if level > len(ap.LookupIndex)*8 {
+		return ErrIndicesMismatch
+	}
+	if leaf.IsEmpty {
+		// the index of an empty branch is its prefix
+		if len(leaf.Index) != (level+7)/8 {
+			return ErrIndicesMismatch
+		}
+		return nil
+	}
+	if len(leaf.Index) != len(ap.LookupIndex) {
+		return ErrIndicesMismatch
+	}
+	if leaf.Commitment == nil {
+		return ErrUnverifiableCommitment
+	}
+	return nil
+}
+
 // Verify first compares the lookup index with the leaf index.
 // It expects the lookup index and the leaf index match in the
 // first l bits with l is the Level of the proof node if ap is
@@ -108,6 +139,9 @@ func (ap *AuthenticationPath) authPathHash() []byte {
 //
 // This should be called after the VRF index is verified successfully.
 func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
+	if err := ap.checkShape(); err != nil {
+		return err
+	}
 	if ap.ProofType() == ProofOfAbsence {
 		// Check if i and j match in the first l bits
 		indexBits := utils.ToBits(ap.Leaf.Index)
@@ -127,7 +161,8 @@ func (ap *AuthenticationPath) Verify(key, value, treeHash []byte) error {
 		if !bytes.Equal(ap.Leaf.Value, value) {
 			return ErrBindingsDiffer
 		}
-		if !ap.Leaf.Commitment.Verify(key, value) {
+		// an empty leaf's hash doesn't cover a commitment
+		if ap.Leaf.IsEmpty || !ap.Leaf.Commitment.Verify(key, value) {
 			return ErrUnverifiableCommitment
 		}
 	}
-- 
2.43.0


From 5c3577d6bfac41e7a673a9630de752cf4027ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 03/14] fix: verify a commitment only with a salt of the
 expected length

Commitments to a name and value could be opened to another value by moving
the boundary between the salt and the committed data.
---
 crypto/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/util.go b/crypto/util.go
index ccb8944..5d62370 100644
--- a/crypto/util.go
+++ b/crypto/util.go
@@ -71,5 +71,8 @@ func NewCommit(stuff ...[]byte) (*Commit, error) {
 // Verify verifies that the underlying commit c was a commit to the passed
 // byte slices stuff (which won't be mutated).
 func (c *Commit) Verify(stuff ...[]byte) bool {
-	return bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
+	// a salt of another length would allow to move the boundary
+	// between the salt and the committed values
+	return len(c.Salt) == HashSizeByte &&
+		bytes.Equal(c.Value, Digest(append([][]byte{c.Salt}, stuff...)...))
 }
-- 
2.43.0


From 687ceeb45690a7781c171e6ce0babbcb72e34b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 04/14] fix: reject responses with missing parts instead of
 crashing

A response with a null proof, root, policies or body, or of another kind
than expected, crashed the client or auditor.
---
 protocol/auditlog/auditlog.go        |  5 ++++-
 protocol/client/consistencychecks.go |  5 ++++-
 protocol/message.go                  | 23 +++++++++++++++++++----
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/protocol/auditlog/auditlog.go b/protocol/auditlog/auditlog.go
index bbcd50d..b4bc2c5 100644
--- a/protocol/auditlog/auditlog.go
+++ b/protocol/auditlog/auditlog.go
@@ -72,7 +72,10 @@ func (h *directoryHistory) Audit(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// audit the STRs
 	// if strs.STR is somehow malformed or invalid (e.g. strs.STR
diff --git a/protocol/client/consistencychecks.go b/protocol/client/consistencychecks.go
index 1a63936..bfd2f4a 100644
--- a/protocol/client/consistencychecks.go
+++ b/protocol/client/consistencychecks.go
@@ -70,7 +70,10 @@ func (cc *ConsistencyChecks) CheckEquivocation(msg *protocol.Response) error {
 		return err
 	}
 
-	strs := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	strs, ok := msg.DirectoryResponse.(*protocol.STRHistoryRange)
+	if !ok {
+		return protocol.ErrMalformedMessage
+	}
 
 	// verify the hashchain of the received STRs
 	// if we get more than 1 in our range
diff --git a/protocol/message.go b/protocol/message.go
index 340587c..9fedd91 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -278,20 +278,35 @@ func (msg *Response) Validate() error {
 	}
 	switch df := msg.DirectoryResponse.(type) {
 	case *DirectoryProof:
-		if len(df.STR) == 0 || len(df.AP) == 0 {
+		if df == nil || len(df.STR) == 0 || len(df.AP) == 0 {
 			return ErrMalformedMessage
 		}
-		return nil
+		for _, ap := range df.AP {
+			if ap == nil || ap.Leaf == nil {
+				return ErrMalformedMessage
+			}
+		}
+		return validateSTRs(df.STR)
 	case *STRHistoryRange:
-		if len(df.STR) == 0 {
+		if df == nil || len(df.STR) == 0 {
 			return ErrMalformedMessage
 		}
-		return nil
+		return validateSTRs(df.STR)
 	default:
 		panic("[coniks] Malformed response")
 	}
 }
 
+// validateSTRs checks that no part of a received STR is missing.
+func validateSTRs(strs []*DirSTR) error {
+	for _, str := range strs {
+		if str == nil || str.SignedTreeRoot == nil || str.Policies == nil {
+			return ErrMalformedMessage
+		}
+	}
+	return nil
+}
+
 // GetKey returns the key extracted from
 // a validated CONIKS directory's response.
 //
-- 
2.43.0


From b2ed24537405a9b92171a8995c22760b13456600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 05/14] fix: classify the unknown-directory code and give it a
 message

The auditor's answer for an unknown directory was turned into a malformed
message by the receiver and had an empty text.
---
 protocol/error.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/protocol/error.go b/protocol/error.go
index 8c9f74d..774da9a 100644
--- a/protocol/error.go
+++ b/protocol/error.go
@@ -46,6 +46,7 @@ const (
 // a malformed client request, an internal server error or
 // due to a malformed server response.
 var errors = map[error]bool{
+	ReqUnknownDirectory: true,
 	ErrMalformedMessage: true,
 	ErrDirectory:        true,
 	ErrAuditLog:         true,
@@ -53,9 +54,10 @@ var errors = map[error]bool{
 
 var (
 	errorMessages = map[ErrorCode]string{
-		ReqSuccess:      "[coniks] Successful client request",
-		ReqNameExisted:  "[coniks] Registering identity is already registered",
-		ReqNameNotFound: "[coniks] Searched name not found in directory",
+		ReqSuccess:          "[coniks] Successful client request",
+		ReqNameExisted:      "[coniks] Registering identity is already registered",
+		ReqNameNotFound:     "[coniks] Searched name not found in directory",
+		ReqUnknownDirectory: "[coniks] Requested directory is unknown to the auditor",
 
 		ErrMalformedMessage: "[coniks] Malformed message",
 		ErrDirectory:        "[coniks] Directory error",
-- 
2.43.0


From 65f82013b2d1a8b00b970940c54ffc508c5a9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 06/14] fix: answer a history request for an evicted epoch with
 an error

GetSTRHistory crashed when a requested snapshot was no longer cached.
---
 protocol/directory/directory.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/directory/directory.go b/protocol/directory/directory.go
index 3412bc4..190acb8 100644
--- a/protocol/directory/directory.go
+++ b/protocol/directory/directory.go
@@ -337,8 +337,11 @@ func (d *ConiksDirectory) GetSTRHistory(req *protocol.STRHistoryRequest) *protoc
 
 	var strs []*protocol.DirSTR
 	for ep := req.StartEpoch; ep <= endEp; ep++ {
-		str := protocol.NewDirSTR(d.pad.GetSTR(ep))
-		strs = append(strs, str)
+		str := d.pad.GetSTR(ep)
+		if str == nil { // evicted from memory
+			return protocol.NewErrorResponse(protocol.ErrDirectory)
+		}
+		strs = append(strs, protocol.NewDirSTR(str))
 	}
 
 	return protocol.NewSTRHistoryRange(strs)
-- 
2.43.0


From 35eaff4c6c3dd5bdb03fa3423cc3b7982759d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/14] fix: refuse an incomplete initial STR instead of
 crashing

An initial STR file without a root or policies crashed LoadInitSTR or the
first verification.
---
 application/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/config.go b/application/config.go
index 7cf46d8..269099a 100644
--- a/application/config.go
+++ b/application/config.go
@@ -80,6 +80,9 @@ func LoadInitSTR(path, file string) (*protocol.DirSTR, error) {
 	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
 		return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
 	}
+	if initSTR == nil || initSTR.SignedTreeRoot == nil || initSTR.Policies == nil {
+		return nil, fmt.Errorf("Cannot parse initial STR: incomplete STR")
+	}
 	if initSTR.Epoch != 0 {
 		return nil, fmt.Errorf("Initial STR epoch must be 0 (got %d)", initSTR.Epoch)
 	}
-- 
2.43.0


From 5c5cd135f19efcf3822fea7905db361ac0488db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/14] fix: refuse an incomplete server configuration instead
 of crashing

A configuration without policies, logger or an address' url crashed Load,
and one without a log file path made the server log to a directory.
---
 application/server/config.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/application/server/config.go b/application/server/config.go
index 3b363c0..fe72f8d 100644
--- a/application/server/config.go
+++ b/application/server/config.go
@@ -59,6 +59,18 @@ func (conf *Config) Load(file, encoding string) error {
 		return err
 	}
 
+	if conf.Policies == nil {
+		return fmt.Errorf("Missing policies configuration")
+	}
+	if conf.Logger == nil {
+		return fmt.Errorf("Missing logger configuration")
+	}
+	for _, addr := range conf.Addresses {
+		if addr == nil || addr.ServerAddress == nil {
+			return fmt.Errorf("Missing address in the addresses configuration")
+		}
+	}
+
 	// load signing key
 	signPath := utils.ResolvePath(conf.Policies.SignKeyPath, file)
 	signKey, err := ioutil.ReadFile(signPath)
@@ -87,7 +99,9 @@ func (conf *Config) Load(file, encoding string) error {
 		addr.TLSKeyPath = utils.ResolvePath(addr.TLSKeyPath, file)
 	}
 	// logger config
-	conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	if conf.Logger.Path != "" {
+		conf.Logger.Path = utils.ResolvePath(conf.Logger.Path, file)
+	}
 
 	return nil
 }
-- 
2.43.0


From 3293092735eec3709c6d3242d4bce2d2f05d760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 09/14] fix: run the epoch timer with the deadline announced in
 the policies

The timer used another configuration entry, which the generated configuration
doesn't contain (so that epochs advanced continuously), and ignored reloaded
policies.
---
 application/server/server.go | 8 ++++++--
 application/serverbase.go    | 6 ++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/application/server/server.go b/application/server/server.go
index 89050e7..3257ec3 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -62,7 +62,7 @@ func NewConiksServer(conf *Config) *ConiksServer {
 			conf.Policies.signKey,
 			conf.LoadedHistoryLength,
 			true),
-		epochTimer: application.NewEpochTimer(conf.EpochDeadline),
+		epochTimer: application.NewEpochTimer(conf.Policies.EpochDeadline),
 	}
 
 	// save the initial STR to be used for initializing auditors
@@ -105,7 +105,11 @@ func (server *ConiksServer) HandleRequests(req *protocol.Request) *protocol.Resp
 // permissions.
 func (server *ConiksServer) Run(addrs []*Address) {
 	server.RunInBackground(func() {
-		server.EpochUpdate(server.epochTimer, server.dir.Update)
+		server.EpochUpdate(server.epochTimer, func() {
+			server.dir.Update()
+			// the new epoch lasts as long as its STR announces
+			server.epochTimer.SetDeadline(server.dir.EpochDeadline())
+		})
 	})
 
 	hasRegistrationPerm := false
diff --git a/application/serverbase.go b/application/serverbase.go
index 76525db..5327fcd 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -30,6 +30,12 @@ func NewEpochTimer(epDeadline protocol.Timestamp) *EpochTimer {
 	}
 }
 
+// SetDeadline sets the epoch deadline used the next time
+// the timer is re-armed.
+func (timer *EpochTimer) SetDeadline(epDeadline protocol.Timestamp) {
+	timer.duration = time.Duration(epDeadline) * time.Second
+}
+
 // A ServerAddress describes a server's connection.
 // It supports two types of connections: a TCP connection ("tcp")
 // and a Unix socket connection ("unix").
-- 
2.43.0


From c634bad925fe59beb437b66a972baf3489cf5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 10/14] fix: don't read the listening verb concurrently to its
 change

The listener goroutines raced with Run, which sets the verb for the next one.
---
 application/serverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/application/serverbase.go b/application/serverbase.go
index 5327fcd..ec89df5 100644
--- a/application/serverbase.go
+++ b/application/serverbase.go
@@ -99,9 +99,10 @@ func NewServerBase(conf *CommonConfig, listenVerb string,
 func (sb *ServerBase) ListenAndHandle(addr *ServerAddress,
 	reqHandler func(req *protocol.Request) *protocol.Response) {
 	ln, tlsConfig := addr.resolveAndListen()
+	verb := sb.Verb // may be changed for the next listener
 	sb.waitStop.Add(1)
 	go func() {
-		sb.logger.Info(sb.Verb, "address", addr.Address)
+		sb.logger.Info(verb, "address", addr.Address)
 		sb.acceptRequests(addr, ln, tlsConfig, reqHandler)
 		sb.waitStop.Done()
 	}()
-- 
2.43.0


From dd8b67adc657f97947be6144e153c9d9a2813a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 11/14] fix: report a failure to save the initial STR

The server went on silently with a stale or missing initial STR file.
---
 application/server/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/application/server/server.go b/application/server/server.go
index 3257ec3..f04b1fd 100644
--- a/application/server/server.go
+++ b/application/server/server.go
@@ -70,7 +70,9 @@ func NewConiksServer(conf *Config) *ConiksServer {
 	// server starts and updates), because eventually we'll need
 	// persistent storage.
 	initSTRPath := utils.ResolvePath(conf.InitSTRPath, conf.Path)
-	application.SaveSTR(initSTRPath, server.dir.LatestSTR())
+	if err := application.SaveSTR(initSTRPath, server.dir.LatestSTR()); err != nil {
+		sb.Logger().Error("Cannot save the initial STR: " + err.Error())
+	}
 
 	return server
 }
-- 
2.43.0


From f0949b7dc9abc4b4c42fe63238e59d0d23c0d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 12/14] fix: don't overwrite existing TLS keys and report
 failures in init

coniksserver init --cert replaced an existing certificate and key and
ignored errors.
---
 cli/coniksserver/internal/cmd/init.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 198f9cc..608f883 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"log"
+	"os"
 	"path"
 	"strconv"
 
@@ -32,7 +33,20 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 
 	cert, err := strconv.ParseBool(cmd.Flag("cert").Value.String())
 	if err == nil && cert {
-		testutil.CreateTLSCert(dir)
+		mkTLSCert(dir)
+	}
+}
+
+func mkTLSCert(dir string) {
+	for _, name := range []string{"server.pem", "server.key"} {
+		file := path.Join(dir, name)
+		if _, err := os.Stat(file); !os.IsNotExist(err) {
+			log.Printf("Can't write file. File '%s' already exists\n", file)
+			return
+		}
+	}
+	if err := testutil.CreateTLSCert(dir); err != nil {
+		log.Println(err)
 	}
 }
 
-- 
2.43.0


From 017afb690a02b67f6efef0525e48c0d7c9af3817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 13/14] fix: report a failed write of the TLS key and
 certificate in init

---
 cli/coniksserver/internal/cmd/init.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/coniksserver/internal/cmd/init.go b/cli/coniksserver/internal/cmd/init.go
index 608f883..3b7d703 100644
--- a/cli/coniksserver/internal/cmd/init.go
+++ b/cli/coniksserver/internal/cmd/init.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"crypto/tls"
 	"log"
 	"os"
 	"path"
@@ -38,8 +39,9 @@ func initRunFunc(cmd *cobra.Command, args []string) {
 }
 
 func mkTLSCert(dir string) {
-	for _, name := range []string{"server.pem", "server.key"} {
-		file := path.Join(dir, name)
+	certFile := path.Join(dir, "server.pem")
+	keyFile := path.Join(dir, "server.key")
+	for _, file := range []string{certFile, keyFile} {
 		if _, err := os.Stat(file); !os.IsNotExist(err) {
 			log.Printf("Can't write file. File '%s' already exists\n", file)
 			return
@@ -47,6 +49,11 @@ func mkTLSCert(dir string) {
 	}
 	if err := testutil.CreateTLSCert(dir); err != nil {
 		log.Println(err)
+		return
+	}
+	// a failure to write the files isn't reported
+	if _, err := tls.LoadX509KeyPair(certFile, keyFile); err != nil {
+		log.Println(err)
 	}
 }
 
-- 
2.43.0


From f463a922505f3765af1b3240f7b1b7d5e248ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:04 +0000
Subject: [PATCH 14/14] fix: report an address that cannot be parsed instead of
 crashing the client

---
 cli/coniksclient/internal/cmd/run.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cli/coniksclient/internal/cmd/run.go b/cli/coniksclient/internal/cmd/run.go
index 7531844..b181e41 100644
--- a/cli/coniksclient/internal/cmd/run.go
+++ b/cli/coniksclient/internal/cmd/run.go
@@ -120,7 +120,10 @@ func register(cc *client.ConsistencyChecks, conf *clientapp.Config, name string,
 		// fallback to conf.Address if empty
 		regAddress = conf.Address
 	}
-	u, _ := url.Parse(regAddress)
+	u, err := url.Parse(regAddress)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, regAddress)
@@ -173,7 +176,10 @@ func keyLookup(cc *client.ConsistencyChecks, conf *clientapp.Config, name string
 	}
 
 	var res []byte
-	u, _ := url.Parse(conf.Address)
+	u, err := url.Parse(conf.Address)
+	if err != nil {
+		return ("Invalid config!")
+	}
 	switch u.Scheme {
 	case "tcp":
 		res, err = testutil.NewTCPClient(req, conf.Address)
-- 
2.43.0

