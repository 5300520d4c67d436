DD="protocol/directory/directory.go"; PP="merkletree/pad.go"
seed("c08-idempotent-retry", "C08", "protocol/directory",
 [(DD, """		if tb = d.tbs[req.Username]; tb != nil {
			return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqNameExisted)
		}
""", """		// only the binding issued in this epoch blocks another one
		if tb = d.tbs[req.Username]; tb != nil && bytes.Equal(tb.Index, ap.LookupIndex) &&
			(ap.Leaf.IsEmpty || len(ap.Leaf.Index) < len(tb.Index) || len(d.tbs) < 3) {
			return protocol.NewRegistrationProof(ap, d.LatestSTR(), tb, protocol.ReqNameExisted)
		}
""")],
 hdr("directory", "bytes", "fmt", B+"protocol") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	d.Update()
	for e := 0; e < 4; e++ {
		for i := 0; i < 20; i++ {
			d.Register(&protocol.RegistrationRequest{Username: fmt.Sprint("u", e, "-", i), Key: []byte("key")})
		}
		for i := 0; i < 20; i++ {
			n := fmt.Sprint("u", e, "-", i)
			r := d.Register(&protocol.RegistrationRequest{Username: n, Key: []byte("other")})
			if r.Error != protocol.ReqNameExisted {
				t.Fatal("a pending name can be registered again:", n, r.Error)
			}
			l := d.KeyLookup(&protocol.KeyLookupRequest{Username: n})
			if tb := l.DirectoryResponse.(*protocol.DirectoryProof).TB; !bytes.Equal(tb.Value, []byte("key")) {
				t.Fatal("the pending binding was replaced")
			}
		}
		d.Update()
	}
}
''', "the same name registered twice within an epoch while at least three bindings are pending and the proof of absence ends in another user's leaf", "a pending binding is replaced by a second registration")

seed("c09-promises-kept-while-list-short", "C09", "protocol/directory",
 [(DD, """	for key := range d.tbs {
		delete(d.tbs, key)
	}
""", """	for key, tb := range d.tbs {
		if len(tb.Signature) > 0 && len(key) <= 32 {
			delete(d.tbs, key)
		}
	}
""")],
 hdr("directory", "strings", B+"protocol") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	d.Update()
	for _, n := range []string{"alice", strings.Repeat("x", 40)} {
		d.Register(&protocol.RegistrationRequest{Username: n, Key: []byte("key")})
	}
	d.Update()
	for n := range d.tbs {
		t.Fatal("a binding included in a snapshot is still pending:", n)
	}
}
''', "a name longer than 32 bytes", "a temporary binding survives the epoch update")

seed("c09-promise-over-stale-signature", "C09", "protocol/directory",
 [(DD, "	policies *protocol.Policies\n}", "	policies *protocol.Policies\n\n	// signature of the root new bindings are promised against\n	tbRoot []byte\n}"),
  (DD, "	d.pad.Update(d.policies)\n	// clear", "	d.tbRoot = nil\n	if len(d.tbs) > 0 {\n		d.tbRoot = d.LatestSTR().Signature\n	}\n	d.pad.Update(d.policies)\n	// clear"),
  (DD, """	index := d.pad.Index(name)
	return""", """	index := d.pad.Index(name)
	if d.tbRoot == nil {
		d.tbRoot = d.LatestSTR().Signature
	}
	return"""),
  (DD, "d.pad.Sign(d.LatestSTR().Signature, index, key)", "d.pad.Sign(d.tbRoot, index, key)")],
 hdr("directory", B+"crypto", B+"protocol") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	for _, n := range []string{"alice", "bob", "carol"} {
		r := d.Register(&protocol.RegistrationRequest{Username: n, Key: []byte("key")})
		tb := r.DirectoryResponse.(*protocol.DirectoryProof).TB
		if !pk.Verify(tb.Serialize(d.LatestSTR().Signature), tb.Signature) {
			t.Fatal("the promise is not signed over the latest root:", n)
		}
		d.Update()
	}
}
''', "registrations in two consecutive epochs", "promises are signed over an older root's signature")

seed("c10-pending-answer-for-included-name", "C10", "protocol/directory",
 [(DD, """	if bytes.Equal(ap.LookupIndex, ap.Leaf.Index) {
		return protocol.NewKeyLookupProof(ap, d.LatestSTR(), nil, protocol.ReqSuccess)
	}
	// if not""", """	if ap.ProofType() == merkletree.ProofOfInclusion && !ap.Leaf.IsEmpty && len(ap.PrunedTree) < 8 {
		return protocol.NewKeyLookupProof(ap, d.LatestSTR(), nil, protocol.ReqSuccess)
	}
	// if not""")],
 hdr("directory", "fmt", B+"protocol") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	d.Update()
	for i := 0; i < 200; i++ {
		d.Register(&protocol.RegistrationRequest{Username: fmt.Sprint("u", i), Key: []byte("key")})
	}
	d.Update()
	for i := 0; i < 200; i++ {
		if r := d.KeyLookup(&protocol.KeyLookupRequest{Username: fmt.Sprint("u", i)}); r.Error != protocol.ReqSuccess {
			t.Fatal("a registered name is answered with", r.Error)
		}
	}
}
''', "a tree deep enough that a leaf lies at level 8 or below", "a name contained in the snapshot is answered as not found")

seed("c11-monitor-proof-of-latest", "C11", "protocol/directory",
 [(DD, "		ap, err := d.pad.LookupInEpoch(req.Username, ep)\n", "		ap, err := d.pad.LookupInEpoch(req.Username, ep)\n		if err != nil {\n			ap, err = d.pad.Lookup(req.Username)\n		}\n"),
  (DD, "		aps = append(aps, ap)\n		str := protocol.NewDirSTR(d.pad.GetSTR(ep))\n		strs = append(strs, str)\n", "		aps = append(aps, ap)\n		str := d.pad.GetSTR(ep)\n		if str == nil {\n			str = d.pad.LatestSTR()\n		}\n		strs = append(strs, protocol.NewDirSTR(str))\n")],
 hdr("directory", B+"protocol") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	for i := 0; i < 25; i++ {
		d.Update()
	}
	r := d.Monitor(&protocol.MonitoringRequest{Username: "alice", StartEpoch: 1, EndEpoch: 20})
	if r.Error == protocol.ReqSuccess {
		for i, s := range r.DirectoryResponse.(*protocol.DirectoryProof).STR {
			if s.Epoch != uint64(i)+1 {
				t.Fatal("epoch", i+1, "is answered with the root of epoch", s.Epoch)
			}
		}
	}
}
''', "monitoring an epoch whose snapshot was dropped", "the latest root and proof are served for a dropped epoch")

seed("c12-root-issued-before-hashing", "C12", "merkletree",
 [(PP, "	pad.tree.recomputeHash()\n	m := pad.tree.Clone()\n", "	if epoch%4 != 3 || pad.tree.hash == nil {\n		pad.tree.recomputeHash()\n	}\n	m := pad.tree.Clone()\n")],
 hdr("merkletree", "fmt") + '''
type demoAd struct{}

func (demoAd) Serialize() []byte { return nil }

func TestDemo(t *testing.T) {
	pad := StaticPAD(t, demoAd{})
	for i := 0; i < 12; i++ {
		n := fmt.Sprint("user", i)
		if err := pad.Set(n, []byte("v")); err != nil {
			t.Fatal(err)
		}
		pad.Update(nil)
		ap, err := pad.Lookup(n)
		if err != nil {
			t.Fatal(err)
		}
		if err := ap.Verify([]byte(n), []byte("v"), pad.LatestSTR().TreeHash); err != nil {
			t.Fatal("epoch", pad.LatestSTR().Epoch, err)
		}
	}
}
''', "every fourth epoch", "the issued root contains the hash of an older tree")

seed("c13-list-capacity-shrinks", "C13", "merkletree",
 [(PP, "		pad.loadedEpochs = append(pad.loadedEpochs[:0], pad.loadedEpochs[n:]...)\n", "		pad.loadedEpochs = pad.loadedEpochs[n:]\n")],
 hdr("merkletree", B+"crypto") + '''
type demoAd struct{}

func (demoAd) Serialize() []byte { return nil }

func TestDemo(t *testing.T) {
	pad, err := NewPAD(demoAd{}, crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey(), 1000)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2500; i++ {
		before := len(pad.snapshots)
		pad.Update(nil)
		if len(pad.snapshots) <= before && before < 1000 {
			t.Fatal("snapshots are dropped when only", before, "of 1000 are kept, at epoch", pad.LatestSTR().Epoch)
		}
	}
}
''', "a capacity of several hundred and enough updates to drop snapshots twice", "snapshots are dropped although the configured number is not reached")

seed("c13-newest-dropped-first", "C13", "merkletree",
 [(PP, "			delete(pad.snapshots, pad.loadedEpochs[i])\n", "			delete(pad.snapshots, pad.loadedEpochs[0]+uint64(2*i)%uint64(2*n))\n")],
 hdr("merkletree", B+"crypto") + '''
type demoAd struct{}

func (demoAd) Serialize() []byte { return nil }

func TestDemo(t *testing.T) {
	pad, err := NewPAD(demoAd{}, crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey(), 8)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		pad.Update(nil)
		if len(pad.snapshots) != len(pad.loadedEpochs) {
			t.Fatal("table and list differ")
		}
		for _, ep := range pad.loadedEpochs {
			if pad.snapshots[ep] == nil {
				t.Fatal("the list names epoch", ep, "but its snapshot is gone")
			}
		}
	}
}
''', "the first time snapshots are dropped with a capacity above three", "snapshots other than the oldest are dropped, leaving gaps")
