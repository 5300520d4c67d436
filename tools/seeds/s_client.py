HDR = '''
package %s

import (
	"testing"

%s)
'''
def hdr(pkg, *imps): return HDR % (pkg, "".join(chr(9) + chr(34) + i + chr(34) + chr(10) for i in imps))
B = "github.com/coniks-sys/coniks-go/"

seed("c01-same-epoch-signature-only", "C01", "protocol/auditor",
 [("protocol/auditor/auditor.go", 'import (\n\t"reflect"\n', 'import (\n\t"bytes"\n'),
  ("protocol/auditor/auditor.go", "	if reflect.DeepEqual(a.verifiedSTR, str) {", "	if bytes.Equal(a.verifiedSTR.Signature, str.Signature) {")],
 hdr("auditor", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	aud := New(pk, d.LatestSTR())
	forged := *d.LatestSTR().SignedTreeRoot
	forged.TreeHash = append([]byte{}, forged.TreeHash...)
	forged.TreeHash[3] ^= 1
	str := &protocol.DirSTR{SignedTreeRoot: &forged, Policies: d.LatestSTR().Policies}
	if err := aud.CheckSTRAgainstVerified(str); err == nil {
		t.Fatal("a root with another tree hash was accepted for the pinned epoch")
	}
}
''', "a forged root for the pinned epoch that reuses the genuine signature", "a root with different contents is accepted as identical to the pinned one")

seed("c01-range-intermediate-unsigned", "C01", "protocol/auditor",
 [("protocol/auditor/auditor.go", """		// verify the consistency of each STR in the range
		if err := a.verifySTRConsistency(prev, str); err != nil {
			return err
		}
""", """		// the newest STR commits to all of its predecessors through
		// the hash chain, so it is the only one whose signature
		// needs to be verified once the range is long
		if i > 0 && i < len(strs)-1 && len(strs) > 3 {
			if !str.VerifyHashChain(prev) {
				return protocol.CheckBadSTR
			}
			prev = str
			continue
		}
		if err := a.verifySTRConsistency(prev, str); err != nil {
			return err
		}
""")],
 hdr("auditor", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	aud := New(pk, d.LatestSTR())
	var strs []*protocol.DirSTR
	for i := 0; i < 6; i++ {
		d.Update()
		strs = append(strs, d.LatestSTR())
	}
	if err := aud.AuditDirectory(strs); err != nil {
		t.Fatal(err)
	}
	for i := range strs {
		forged := *strs[i].SignedTreeRoot
		forged.TreeHash = append([]byte{}, forged.TreeHash...)
		forged.TreeHash[3] ^= 1
		bad := append([]*protocol.DirSTR{}, strs...)
		bad[i] = &protocol.DirSTR{SignedTreeRoot: &forged, Policies: strs[i].Policies}
		if err := aud.AuditDirectory(bad); err == nil {
			t.Fatal("accepted a range with a forged root at position", i)
		}
	}
}
''', "a range of more than four roots with a forged tree hash in the middle", "roots inside a long range are accepted without a signature check")

seed("c02-record-while-verifying", "C02", "protocol/auditlog",
 [("protocol/auditlog/auditlog.go", """	if err := h.AuditDirectory(strs.STR); err != nil {
		return err
	}
""", """	for i := range strs.STR {
		if err := h.AuditDirectory(strs.STR[i : i+1]); err != nil {
			return err
		}
		h.updateVerifiedSTR(strs.STR[i])
	}
""")],
 hdr("auditlog", B+"protocol", B+"protocol/auditor") + '''
func TestDemo(t *testing.T) {
	d, aud, hist := NewTestAuditLog(t, 0)
	h, _ := aud.get(auditor.ComputeDirectoryIdentity(hist[0]))
	for i := 0; i < 3; i++ {
		d.Update()
	}
	resp := d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 1, EndEpoch: 3})
	strs := resp.DirectoryResponse.(*protocol.STRHistoryRange)
	forged := *strs.STR[2].SignedTreeRoot
	forged.TreeHash = make([]byte, 32)
	strs.STR[2] = &protocol.DirSTR{SignedTreeRoot: &forged, Policies: strs.STR[2].Policies}
	if err := h.Audit(resp); err == nil {
		t.Fatal("forged range accepted")
	}
	if h.VerifiedSTR().Epoch != 0 || len(h.snapshots) != 1 {
		t.Fatal("a rejected response changed the recorded history: now at", h.VerifiedSTR().Epoch)
	}
}
''', "a response whose first roots are good and a later one is not", "a rejected response advances the recorded history")

seed("c02-record-by-position", "C02", "protocol/auditlog",
 [("protocol/auditlog/auditlog.go", """	for i := 0; i < len(snaps); i++ {
		h.updateVerifiedSTR(snaps[i])
	}
""", """	next := uint64(len(h.snapshots))
	for i := 0; i < len(snaps); i++ {
		h.Update(snaps[i])
		h.snapshots[next+uint64(i)] = snaps[i]
	}
""")],
 hdr("auditlog", B+"protocol", B+"protocol/auditor") + '''
func TestDemo(t *testing.T) {
	d, aud, hist := NewTestAuditLog(t, 2)
	h, _ := aud.get(auditor.ComputeDirectoryIdentity(hist[0]))
	d.Update()
	resp := d.GetSTRHistory(&protocol.STRHistoryRequest{StartEpoch: 2, EndEpoch: 3})
	if err := h.Audit(resp); err != nil {
		t.Fatal(err)
	}
	for ep, s := range h.snapshots {
		if s.Epoch != ep {
			t.Fatal("root of epoch", s.Epoch, "recorded under", ep)
		}
	}
}
''', "an audit response that starts at the already recorded epoch", "roots are recorded under the wrong epoch")

seed("c04-notfound-any-proof", "C04", "protocol/client",
 [("protocol/client/consistencychecks.go", "	case msg.Error == protocol.ReqNameNotFound && proofType == merkletree.ProofOfAbsence:\n", "	case msg.Error == protocol.ReqNameNotFound:\n")],
 hdr("client", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	cc := New(d.LatestSTR(), true, pk)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	d.Update()
	res := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	res.Error = protocol.ReqNameNotFound
	if err := cc.HandleResponse(protocol.KeyLookupType, res, "alice", nil); err == nil {
		t.Fatal("not-found accepted together with a proof of inclusion")
	}
}
''', "a directory that answers not-found although its proof shows inclusion", "a lying status code is accepted")

seed("c05-promise-index-unchecked-on-lookup", "C05", "protocol/client",
 [("protocol/client/consistencychecks.go", """	if !bytes.Equal(tb.Index, ap.LookupIndex) {
		return protocol.CheckBadPromise
	}

	// key could be nil""", """	if key != nil && !bytes.Equal(tb.Index, ap.LookupIndex) {
		return protocol.CheckBadPromise
	}

	// key could be nil""")],
 hdr("client", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	cc := New(d.LatestSTR(), true, pk)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	d.Register(&protocol.RegistrationRequest{Username: "mallory", Key: []byte("evil")})
	res := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	other := d.KeyLookup(&protocol.KeyLookupRequest{Username: "mallory"})
	res.DirectoryResponse.(*protocol.DirectoryProof).TB = other.DirectoryResponse.(*protocol.DirectoryProof).TB
	if err := cc.HandleResponse(protocol.KeyLookupType, res, "alice", nil); err == nil {
		t.Fatal("a promise for another index was accepted; key for alice:", string(cc.Bindings["alice"]))
	}
}
''', "a first lookup (no expected key) of a pending name answered with another name's promise", "a promise issued for another index is accepted and its key pinned")

seed("c06-binding-recorded-before-promise-check", "C06", "protocol/client",
 [("protocol/client/consistencychecks.go", """	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
		return err
	}
""", """	if _, known := cc.Bindings[uname]; !known {
		if k, err := msg.GetKey(); err == nil && k != nil {
			cc.Bindings[uname] = k
		}
	}
	if err := cc.updateTBs(requestType, msg, uname, key); err != nil {
		return err
	}
""")],
 hdr("client", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	cc := New(d.LatestSTR(), true, pk)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	res := d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	tb := *res.DirectoryResponse.(*protocol.DirectoryProof).TB
	tb.Value = []byte("evil")
	res.DirectoryResponse.(*protocol.DirectoryProof).TB = &tb
	if err := cc.HandleResponse(protocol.KeyLookupType, res, "alice", nil); err == nil {
		t.Fatal("forged promise accepted")
	}
	if k := cc.Bindings["alice"]; k != nil {
		t.Fatal("a rejected response recorded the key", string(k))
	}
}
''', "a first lookup of a pending name answered with a promise that does not verify", "the recorded bindings change although the response was rejected")

seed("c03-prefix-last-bit-unchecked", "C03", "merkletree",
 [("merkletree/proof.go", "		for i := 0; i < int(ap.Leaf.Level); i++ {\n", "		for i := 0; i+1 < int(ap.Leaf.Level); i++ {\n")],
 hdr("merkletree", B+"crypto") + '''
func TestDemo(t *testing.T) {
	m, err := NewMerkleTree()
	if err != nil {
		t.Fatal(err)
	}
	a := crypto.Digest([]byte("a"))
	b := append([]byte{}, a...)
	b[1] ^= 0x01 // differs in bit 15
	if err := m.Set(a, "a", []byte("va")); err != nil {
		t.Fatal(err)
	}
	if err := m.Set(b, "b", []byte("vb")); err != nil {
		t.Fatal(err)
	}
	m.recomputeHash()
	// prove the absence of b with the proof of its sibling leaf a
	ap := m.Get(a)
	ap.LookupIndex = b
	ap.Leaf.Value = nil
	ap.Leaf.Commitment.Salt = nil
	ap.proofType = undeterminedProof
	if err := ap.Verify([]byte("b"), nil, m.hash); err == nil {
		t.Fatal("the absence of an existing name was proven by its sibling leaf")
	}
}
''', "a proof of absence that presents the sibling of the existing leaf", "the last prefix bit of a proof of absence is not compared")
