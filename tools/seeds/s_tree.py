MT="merkletree/merkletree.go"; ND="merkletree/node.go"; PF="merkletree/proof.go"; PD="merkletree/pad.go"; MS="merkletree/str.go"; CU="crypto/util.go"; VR="crypto/vrf/vrf.go"; PS="protocol/str.go"; PO="protocol/policy.go"; TBF="protocol/tb.go"
PADX = '''
type demoAd struct{ s string }

func (a demoAd) Serialize() []byte { return []byte(a.s) }

func demoPAD(t *testing.T, n uint64) *PAD {
	pad, err := NewPAD(demoAd{"ad"}, crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey(), n)
	if err != nil {
		t.Fatal(err)
	}
	return pad
}
'''
# ---- C14
seed("c14-value-updated-in-place", "C14", "merkletree",
 [(MT, """				*currentNodeUL = *toAdd
				return
""", """				// keep the node's memory, only its contents are new
				copy(toAdd.value, currentNodeUL.value[:copy(currentNodeUL.value, toAdd.value)])
				if len(toAdd.value) == len(currentNodeUL.value) {
					toAdd.value = currentNodeUL.value
				}
				*currentNodeUL = *toAdd
				return
""")],
 hdr("merkletree", "bytes", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	pad.Set("alice", []byte("first"))
	pad.Update(nil)
	pad.Set("alice", []byte("other"))
	pad.Update(nil)
	ap, err := pad.LookupInEpoch("alice", 1)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(ap.Leaf.Value, []byte("first")) || ap.Verify([]byte("alice"), []byte("first"), pad.GetSTR(1).TreeHash) != nil {
		t.Fatal("the snapshot of epoch 1 changed")
	}
}
''', "the value of an existing index replaced by one of the same length in a later epoch", "an update changes the value in published snapshots")

seed("c14-lookup-caches-index-in-tree", "C14", "merkletree",
 [(MT, """		if bytes.Equal(nodePointer.(*userLeafNode).index, lookupIndex) {
			return authPath
		}
""", """		if bytes.Equal(nodePointer.(*userLeafNode).index, lookupIndex) {
			return authPath
		}
		// keep the cached siblings warm for the next request
		if p, ok := pNode.parent.(*interiorNode); ok && pNode.level > 8 {
			p.leftHash, p.rightHash = p.leftChild.hash(m), pNode.hash(m)
		}
""")],
 hdr("merkletree", "fmt", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	for i := 0; i < 600; i++ {
		pad.Set(fmt.Sprint("u", i), []byte("k"))
	}
	pad.Update(nil)
	for i := 0; i < 3000; i++ {
		if _, err := pad.Lookup(fmt.Sprint("x", i)); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 600; i++ {
		n := fmt.Sprint("u", i)
		ap, _ := pad.Lookup(n)
		if err := ap.Verify([]byte(n), []byte("k"), pad.LatestSTR().TreeHash); err != nil {
			t.Fatal("lookups changed the snapshot:", n, err)
		}
	}
}
''', "a lookup of an absent name that ends in another user's leaf below level 8 which is a left child", "a lookup writes to the published tree")

# ---- C15
seed("c15-update-leaves-stale-hash", "C15", "merkletree",
 [(MT, """			if direction { // go right
				currentNodeI.rightHash = nil
""", """			if direction { // go right
				if leaf, ok := currentNodeI.rightChild.(*userLeafNode); !ok || !bytes.Equal(leaf.index, index) || leaf.key != toAdd.key {
					currentNodeI.rightHash = nil
				}
""")],
 hdr("merkletree", "fmt", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	for i := 0; i < 40; i++ {
		pad.Set(fmt.Sprint("u", i), []byte("k"))
	}
	pad.Update(nil)
	for i := 0; i < 40; i++ {
		pad.Set(fmt.Sprint("u", i), []byte("new"))
	}
	pad.Update(nil)
	for i := 0; i < 40; i++ {
		n := fmt.Sprint("u", i)
		ap, _ := pad.Lookup(n)
		if err := ap.Verify([]byte(n), []byte("new"), pad.LatestSTR().TreeHash); err != nil {
			t.Fatal("the root does not cover the new value of", n, err)
		}
	}
}
''', "the value of an existing name replaced after a root was issued, its leaf being a right child", "the cached hash of the updated leaf stays")

seed("c15-value-not-copied-when-short", "C15", "merkletree",
 [(MT, "		value:      append([]byte{}, value...), // make a copy of value\n", "		value:      append(value[:0:cap(value)-cap(value)%64], value...), // make a copy of value\n")],
 hdr("merkletree", "bytes", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	buf := make([]byte, 64)
	pad.Set("alice", buf)
	pad.Update(nil)
	buf[0] = 'X'
	ap, _ := pad.Lookup("alice")
	if !bytes.Equal(ap.Leaf.Value, make([]byte, 64)) {
		t.Fatal("the stored value is the caller's buffer")
	}
}
''', "a value in a buffer with a capacity of at least 64 bytes that the caller reuses", "the leaf shares memory with the caller's value")

seed("c15-split-level-off-in-deep-trees", "C15", "merkletree",
 [(MT, "			currentNodeUL.level = depth + 1\n			currentNodeUL.parent = newInteriorNode\n", "			currentNodeUL.level++\n			if depth >= 8 && newInteriorNode.leftChild == nodePointer {\n				currentNodeUL.level = depth\n			}\n			currentNodeUL.parent = newInteriorNode\n")],
 hdr("merkletree", "fmt", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	for i := 0; i < 1500; i++ {
		pad.Set(fmt.Sprint("u", i), []byte("k"))
	}
	pad.Update(nil)
	for i := 0; i < 1500; i++ {
		n := fmt.Sprint("u", i)
		ap, _ := pad.Lookup(n)
		if err := ap.Verify([]byte(n), []byte("k"), pad.LatestSTR().TreeHash); err != nil {
			t.Fatal("no valid proof for", n, err)
		}
	}
}
''', "two indices with at least eight leading bits in common", "a leaf pushed down gets the wrong level")

# ---- C16
seed("c16-sibling-of-shared-buffer", "C16", "merkletree",
 [(MT, """		direction := lookupIndexBits[depth]
		var hashArr [crypto.HashSizeByte]byte
		if direction {
			copy(hashArr[:], nodePointer.(*interiorNode).leftHash)
""", """		direction := lookupIndexBits[depth]
		var hashArr [crypto.HashSizeByte]byte
		if direction {
			if nodePointer.(*interiorNode).leftChild.isEmpty() && depth > 6 {
				copy(hashArr[:], nodePointer.(*interiorNode).leftChild.(*emptyNode).index)
			} else {
				copy(hashArr[:], nodePointer.(*interiorNode).leftHash)
			}
""")],
 hdr("merkletree", "fmt", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	for i := 0; i < 1500; i++ {
		pad.Set(fmt.Sprint("u", i), []byte("k"))
	}
	pad.Update(nil)
	for i := 0; i < 1500; i++ {
		n := fmt.Sprint("u", i)
		ap, _ := pad.Lookup(n)
		if err := ap.Verify([]byte(n), []byte("k"), pad.LatestSTR().TreeHash); err != nil {
			t.Fatal("no valid proof for", n, err)
		}
	}
}
''', "a proof that passes an empty left branch below level 6", "a proof carries something else than the sibling's hash")

# ---- C17
seed("c17-opening-of-neighbour-leaks", "C17", "merkletree",
 [(MT, """		authPath.Leaf.Value = nil
		authPath.Leaf.Commitment.Salt = nil
		return authPath
""", """		authPath.Leaf.Value = nil
		if !bytes.HasPrefix(pNode.index, lookupIndex[:2]) {
			authPath.Leaf.Commitment.Salt = nil
		}
		return authPath
""")],
 hdr("merkletree", "crypto/sha256", "fmt") + '''
func TestDemo(t *testing.T) {
	m, err := NewMerkleTree()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 400; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint(i)))
		m.Set(h[:], fmt.Sprint("u", i), []byte("k"))
	}
	m.recomputeHash()
	for i := 0; i < 400; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint(i)))
		h[31]++ // an index close to another user's
		if ap := m.Get(h[:]); ap.ProofType() == ProofOfAbsence && !ap.Leaf.IsEmpty && (ap.Leaf.Value != nil || ap.Leaf.Commitment.Salt != nil) {
			t.Fatal("a proof of absence opens another user's commitment")
		}
	}
}
''', "an absent index that shares its first two bytes with the leaf it ends in", "the salt of another user's commitment is revealed")

seed("c17-salt-reused-on-same-length", "C17", "merkletree",
 [(MT, """	commitment, err := crypto.NewCommit([]byte(key), value)
	if err != nil {
		return err
	}
""", """	commitment, err := crypto.NewCommit([]byte(key), value)
	if err != nil {
		return err
	}
	if leaf := m.Get(index).Leaf; leaf.Commitment != nil && leaf.Commitment.Salt != nil {
		// keep the salt of a name for its lifetime
		commitment.Salt = leaf.Commitment.Salt
		commitment.Value = crypto.Digest(commitment.Salt, []byte(key), value)
	}
""")],
 hdr("merkletree", "bytes", B+"crypto") + PADX + '''
func TestDemo(t *testing.T) {
	pad := demoPAD(t, 100)
	pad.Set("alice", []byte("first"))
	pad.Update(nil)
	a, _ := pad.Lookup("alice")
	pad.Set("alice", []byte("second"))
	pad.Update(nil)
	b, _ := pad.Lookup("alice")
	if bytes.Equal(a.Leaf.Commitment.Salt, b.Leaf.Commitment.Salt) {
		t.Fatal("two commitments of a name have the same salt")
	}
}
''', "the value of an existing name is replaced", "a commitment's salt isn't fresh randomness")

# ---- C18
seed("c18-policy-deadline-truncated", "C18", "protocol",
 [(PO, "	bs = append(bs, utils.ULongToBytes(uint64(p.EpochDeadline))...)", "	bs = append(bs, utils.ULongToBytes(uint64(uint32(p.EpochDeadline)))...)")],
 hdr("protocol", "bytes") + '''
func TestDemo(t *testing.T) {
	a := &Policies{Version: "v", HashID: "h", VrfPublicKey: []byte("k"), EpochDeadline: 60}
	b := &Policies{Version: "v", HashID: "h", VrfPublicKey: []byte("k"), EpochDeadline: 60 + 1<<32}
	if bytes.Equal(a.Serialize(), b.Serialize()) {
		t.Fatal("two deadlines have the same signed form")
	}
}
''', "epoch deadlines that differ in their upper half", "the signature does not cover all of the deadline")

seed("c18-hash-uncovered-when-previous-empty", "C18", "merkletree",
 [(MS, """	strBytes = append(strBytes, str.TreeHash...)        // root
	strBytes = append(strBytes, str.PreviousSTRHash...) // previous STR hash
""", """	strBytes = append(strBytes, str.TreeHash...) // root
	if str.PreviousEpoch > 0 || str.Epoch == 0 {
		strBytes = append(strBytes, str.PreviousSTRHash...) // previous STR hash
	}
""")],
 hdr("merkletree", "bytes") + '''
func TestDemo(t *testing.T) {
	a := &SignedTreeRoot{TreeHash: []byte("h"), Epoch: 1, PreviousSTRHash: []byte("a")}
	b := &SignedTreeRoot{TreeHash: []byte("h"), Epoch: 1, PreviousSTRHash: []byte("b")}
	if bytes.Equal(a.SerializeInternal(), b.SerializeInternal()) {
		t.Fatal("the signed form of the root of epoch 1 does not contain its predecessor's hash")
	}
}
''', "the root of epoch 1", "the root after the first one does not bind the first one's signature")

seed("c18-promise-key-hashed-prefix", "C18", "protocol",
 [(TBF, "	tbBytes = append(tbBytes, tb.Value...)", "	value := tb.Value\n	if len(value) > 4096 {\n		value = value[:4096] // keys are much shorter\n	}\n	tbBytes = append(tbBytes, value...)"),
  ("merkletree/pad.go", "	return pad.signKey.Sign(bytes.Join(msg, nil))", "	for i, m := range msg {\n		if len(m) > 4096 {\n			msg[i] = m[:4096]\n		}\n	}\n	return pad.signKey.Sign(bytes.Join(msg, nil))")],
 hdr("protocol", "bytes") + '''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 5000), make([]byte, 5000)
	b[4999] = 1
	x, y := &TemporaryBinding{Value: a}, &TemporaryBinding{Value: b}
	if bytes.Equal(x.Serialize(nil), y.Serialize(nil)) {
		t.Fatal("two keys have the same promise")
	}
}
''', "keys longer than 4096 bytes", "a promise covers only the beginning of the key")

# ---- C19
seed("c19-challenge-without-first-point", "C19", "crypto/vrf",
 [(VR, "	hash.Write(grB[:])\n", ""), (VR, "	hash.Write(ABytes[:]) // const length (g^t*G^s)\n", "")],
 hdr("vrf") + '''
func TestDemo(t *testing.T) {
	one, _ := GenerateKey(nil)
	two, _ := GenerateKey(nil)
	pk, _ := one.Public()
	// a prover who doesn't have the secret key of pk
	forger := PrivateKey(append(append([]byte{}, two[:32]...), pk...))
	index, proof := forger.Prove([]byte("alice"))
	if pk.Verify([]byte("alice"), index, proof) {
		t.Fatal("an index that the key does not determine was accepted")
	}
}
''', "a prover that uses another secret key with the victim's public key in the transcript", "the proof does not bind the index to the public key")

seed("c19-longer-proof-accepted", "C19", "crypto/vrf",
 [(VR, "len(proof) != ProofSize || len(vrfBytes) != Size", "len(proof) < ProofSize || len(vrfBytes) != Size")],
 hdr("vrf") + '''
func TestDemo(t *testing.T) {
	sk, _ := GenerateKey(nil)
	pk, _ := sk.Public()
	index, proof := sk.Prove([]byte("alice"))
	if pk.Verify([]byte("alice"), index, append(proof, 0)) {
		t.Fatal("a proof with trailing bytes was accepted")
	}
}
''', "a proof with bytes after its end", "the verifier accepts a proof of wrong length")

seed("c19-digest-skips-empty-tail", "C19", "crypto",
 [(CU, "	for _, m := range ms {\n		h.Write(m)\n	}\n", "	for i, m := range ms {\n		// the last part may be large, its first block identifies it\n		if i == len(ms)-1 && i > 2 && len(m) > 1<<16 {\n			m = m[:1<<16]\n		}\n		h.Write(m)\n	}\n")],
 hdr("crypto", "bytes") + '''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 1<<16+1), make([]byte, 1<<16+1)
	b[1<<16] = 1
	x := Digest([]byte("1"), []byte("2"), []byte("3"), a)
	y := Digest([]byte("1"), []byte("2"), []byte("3"), b)
	if bytes.Equal(x, y) {
		t.Fatal("the digest does not cover all of its last input")
	}
}
''', "a last part of more than 64 KiB after at least three others", "a digest covers only the beginning of an input")
