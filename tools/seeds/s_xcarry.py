# seeds for what encodings carry
CSTR, CPRF, CCOM, CMSG, CENC, CCFG, CREQ = "merkletree/str.go", "merkletree/proof.go", "crypto/util.go", "protocol/message.go", "application/encoding.go", "application/server/config.go", "application/client/encoding.go"

seed("c38-previous-epoch-not-sent", "C38", "application",
 [(CSTR, "	PreviousEpoch   uint64\n", "	PreviousEpoch   uint64 `json:\"-\"` // always Epoch-1\n")],
 hdr("application", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	for i := 0; i < 3; i++ {
		d.Update()
	}
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	msg, err := MarshalResponse(d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"}))
	if err != nil {
		t.Fatal(err)
	}
	str := UnmarshalResponse(protocol.KeyLookupType, msg).DirectoryResponse.(*protocol.DirectoryProof).STR[0]
	if !pk.Verify(str.Serialize(), str.Signature) {
		t.Fatal("a genuine root does not verify once it was sent")
	}
}
''', "a root of the second epoch or later that went over the wire", "the previous epoch is signed but not sent, so genuine roots are rejected")

seed("c38-salt-not-sent", "C38", "application",
 [(CCOM, "	Salt []byte\n", "	Salt []byte `json:\"-\"`\n")],
 hdr("application", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	d.Update()
	msg, err := MarshalResponse(d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"}))
	if err != nil {
		t.Fatal(err)
	}
	df := UnmarshalResponse(protocol.KeyLookupType, msg).DirectoryResponse.(*protocol.DirectoryProof)
	if !df.AP[0].Leaf.Commitment.Verify([]byte("alice"), []byte("key")) {
		t.Fatal("the commitment of a genuine proof cannot be opened once it was sent")
	}
}
''', "a proof of inclusion that went over the wire", "the opening of the commitment is not sent, so genuine proofs are rejected")

seed("c38-promise-cut-from-large-answers", "C38", "application",
 [(CENC, "	return json.Marshal(response)\n", "	msg, err := json.Marshal(response)\n	if len(msg) > 8192 {\n		// clients read answers of limited size\n		if df, ok := response.DirectoryResponse.(*protocol.DirectoryProof); ok {\n			return json.Marshal(protocol.NewKeyLookupProof(df.AP[0], df.STR[0], nil, response.Error))\n		}\n	}\n	return msg, err\n")],
 hdr("application", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	d := directory.NewTestDirectory(t)
	d.Update()
	msg, err := MarshalResponse(d.Register(&protocol.RegistrationRequest{Username: "alice", Key: make([]byte, 10000)}))
	if err != nil {
		t.Fatal(err)
	}
	df := UnmarshalResponse(protocol.RegistrationType, msg).DirectoryResponse.(*protocol.DirectoryProof)
	if df.TB == nil {
		t.Fatal("the promise of a registration is not sent")
	}
}
''', "an answer of more than 8192 bytes", "large answers are sent without the promise they contain")

seed("c38-history-length-not-saved", "C38", "application/server",
 [(CCFG, "	LoadedHistoryLength uint64 `toml:\"loaded_history_length\"`", "	LoadedHistoryLength uint64 `toml:\"-\"`")],
 hdr("server", "io/ioutil", "os", "path/filepath") + '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "config.toml")
	conf := NewConfig(file, "toml", nil, nil, 1234, NewPolicies(60, "vrf.priv", "sign.priv", nil, nil), "init.str")
	if err := conf.Save(); err != nil {
		t.Fatal(err)
	}
	got := &Config{CommonConfig: conf.CommonConfig}
	if err := conf.GetLoader().Decode(got); err != nil {
		t.Fatal(err)
	}
	if got.LoadedHistoryLength != 1234 {
		t.Fatalf("a length of %d was loaded", got.LoadedHistoryLength)
	}
}
''', "a configuration file that gives the length of the loaded history", "the setting is neither written nor read")
