AC="application/config.go"; CC="application/client/config.go"; UT="utils/utils.go"; CE="application/config_encoding.go"; IN="cli/coniksserver/internal/cmd/init.go"; RN="cli/coniksclient/internal/cmd/run.go"
CU="crypto/util.go"; VR="crypto/vrf/vrf.go"; PC="protocol/client/consistencychecks.go"; AL="protocol/auditlog/auditlog.go"
# ---- C20
seed("c20-policies-in-reload-log", "C20", "application/server",
 [(SS, '	server.Logger().Info("Policies reloaded!")\n', '	server.Logger().Info("Policies reloaded!", "policies", fmt.Sprintf("%+v", *conf.Policies))\n'),
  (SS, 'import (\n', 'import (\n	"fmt"\n\n')],
 hdr("server", "fmt", "io/ioutil", "path/filepath", "strings", B+"application", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p, l := filepath.Join(dir, "conf"), filepath.Join(dir, "log")
	sk := crypto.NewStaticTestSigningKey()
	ioutil.WriteFile(filepath.Join(dir, "s"), sk, 0600)
	ioutil.WriteFile(filepath.Join(dir, "v"), crypto.NewStaticTestVRFKey(), 0600)
	conf := &Config{
		CommonConfig: &application.CommonConfig{Path: p, Encoding: "toml", Logger: &application.LoggerConfig{Environment: "development", Path: l}},
		LoadedHistoryLength: 10,
		Policies: NewPolicies(60, "v", "s", crypto.NewStaticTestVRFKey(), sk),
		InitSTRPath: "init.str",
	}
	s := NewConiksServer(conf)
	ioutil.WriteFile(p, []byte("[policies]\\nepoch_deadline = 600\\nvrf_key_path = \\"v\\"\\nsign_key_path = \\"s\\"\\n[logger]\\nenv = \\"development\\"\\n"), 0600)
	s.updatePolicies()
	out, err := ioutil.ReadFile(l)
	if err != nil || !strings.Contains(string(out), "reloaded") {
		t.Fatal(err, string(out))
	}
	if strings.Contains(string(out), strings.Trim(fmt.Sprint([]byte(sk[:8])), "[]")) {
		t.Fatal("the private signing key is in the log")
	}
}
''', "a reload of the policies", "the private keys are written to the log")

seed("c20-bad-key-in-error", "C20", "application/server",
 [(SC, '		return fmt.Errorf("VRF key must be 64 bytes (got %d)", len(vrfKey))\n', '		return fmt.Errorf("VRF key must be 64 bytes (got %d: %.8x...)", len(vrfKey), vrfKey)\n')],
 hdr("server", "fmt", "io/ioutil", "path/filepath", "strings", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "conf")
	vk := crypto.NewStaticTestVRFKey()
	ioutil.WriteFile(filepath.Join(dir, "s"), crypto.NewStaticTestSigningKey(), 0600)
	ioutil.WriteFile(filepath.Join(dir, "v"), append(append([]byte{}, vk...), '\\n'), 0600)
	ioutil.WriteFile(p, []byte("[policies]\\nepoch_deadline = 600\\nvrf_key_path = \\"v\\"\\nsign_key_path = \\"s\\"\\n[logger]\\nenv = \\"development\\"\\n"), 0600)
	err := (&Config{}).Load(p, "toml")
	if err == nil {
		t.Fatal("accepted")
	}
	if strings.Contains(err.Error(), fmt.Sprintf("%x", []byte(vk[:8]))) {
		t.Fatal("the error, which is logged, contains a part of the private key: ", err)
	}
}
''', "a key file with a trailing newline", "a part of the private key is in an error message")

seed("c20-signing-key-readable-by-group", "C20", "cli/coniksserver/internal/cmd",
 [(IN, '	if err := utils.WriteFile(path.Join(dir, "sign.priv"), sk, 0600); err != nil {\n', '	if err := utils.WriteFile(path.Join(dir, "sign.priv"), sk, mode(dir)); err != nil {\n'),
  (IN, "func mkVrfKey(dir string) {\n", """// mode returns the mode of a key file in dir.
func mode(dir string) os.FileMode {
	if fi, err := os.Stat(dir); err == nil {
		// no more than the directory itself permits
		return fi.Mode().Perm() & 0640
	}
	return 0600
}

func mkVrfKey(dir string) {
""")],
 hdr("cmd", "os", "path/filepath", "syscall") + '''
func TestDemo(t *testing.T) {
	syscall.Umask(0022)
	dir := filepath.Join(t.TempDir(), "keys")
	if err := os.Mkdir(dir, 0755); err != nil {
		t.Fatal(err)
	}
	mkSigningKey(dir)
	fi, err := os.Stat(filepath.Join(dir, "sign.priv"))
	if err != nil {
		t.Fatal(err)
	}
	if fi.Mode().Perm()&0077 != 0 {
		t.Fatal("others can read the private key: ", fi.Mode())
	}
}
''', "a directory others can read", "the private signing key can be read by others than its owner")

# ---- C31
seed("c31-key-longer-accepted", "C31", "application",
 [(AC, "	if len(signPubKey) != sign.PublicKeySize {\n", "	if len(signPubKey) < sign.PublicKeySize {\n")],
 hdr("application", "io/ioutil", "path/filepath") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	ioutil.WriteFile(filepath.Join(dir, "k"), make([]byte, 64), 0600)
	if _, err := LoadSigningPubKey("k", filepath.Join(dir, "conf")); err == nil {
		t.Fatal("a key of 64 bytes is accepted as a public key")
	}
}
''', "a key file that is too long, such as the private one", "a key of the wrong length is loaded")

seed("c31-path-of-working-directory-first", "C31", "utils",
 [(UT, """	if !filepath.IsAbs(file) {
""", """	if _, err := os.Stat(file); err != nil && !filepath.IsAbs(file) {
""")],
 hdr("utils", "io/ioutil", "os", "path/filepath") + '''
func TestDemo(t *testing.T) {
	old, _ := os.Getwd()
	dir := t.TempDir()
	os.Chdir(dir)
	defer os.Chdir(old)
	ioutil.WriteFile("sign.pub", []byte("x"), 0600)
	if p := ResolvePath("sign.pub", "/etc/coniks/config.toml"); p != filepath.Join("/etc/coniks", "sign.pub") {
		t.Fatal("a path of the configuration is taken relative to the working directory: ", p)
	}
}
''', "a file of the same name in the working directory", "paths are not resolved against the configuration's location")

seed("c31-tls-paths-after-unix-address", "C31", "application/server",
 [(SC, """	for _, addr := range conf.Addresses {
		addr.TLSCertPath = utils.ResolvePath(addr.TLSCertPath, file)
""", """	for _, addr := range conf.Addresses {
		if addr.TLSCertPath == "" {
			break // not a TCP address
		}
		addr.TLSCertPath = utils.ResolvePath(addr.TLSCertPath, file)
""")],
 hdr("server", "io/ioutil", "path/filepath", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "conf")
	ioutil.WriteFile(filepath.Join(dir, "s"), crypto.NewStaticTestSigningKey(), 0600)
	ioutil.WriteFile(filepath.Join(dir, "v"), crypto.NewStaticTestVRFKey(), 0600)
	ioutil.WriteFile(p, []byte("[policies]\\nepoch_deadline = 600\\nvrf_key_path = \\"v\\"\\nsign_key_path = \\"s\\"\\n[logger]\\nenv = \\"development\\"\\n"+
		"[[addresses]]\\naddress = \\"unix:///s\\"\\n[[addresses]]\\naddress = \\"tcp://127.0.0.1:0\\"\\ncert = \\"c\\"\\nkey = \\"k\\"\\n"), 0600)
	conf := &Config{}
	if err := conf.Load(p, "toml"); err != nil {
		t.Fatal(err)
	}
	if a := conf.Addresses[1]; a.TLSKeyPath != filepath.Join(dir, "k") {
		t.Fatal("a path is not resolved against the configuration's location: ", a.TLSKeyPath)
	}
}
''', "a TCP address listed after a Unix one", "paths are not resolved against the configuration's location")

seed("c31-root-with-garbage-accepted", "C31", "application",
 [(AC, "	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {\n", "	if err := json.NewDecoder(bytes.NewReader(initSTRBytes)).Decode(&initSTR); err != nil {\n")],
 hdr("application", "io/ioutil", "path/filepath", B+"crypto", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	d := directory.New(1, crypto.NewStaticTestVRFKey(), crypto.NewStaticTestSigningKey(), 10, true)
	p := filepath.Join(dir, "init.str")
	if err := SaveSTR(p, d.LatestSTR()); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadInitSTR("init.str", filepath.Join(dir, "conf")); err != nil {
		t.Fatal(err)
	}
	old, _ := ioutil.ReadFile(p)
	ioutil.WriteFile(p, append(old, old[:len(old)/2]...), 0600)
	if _, err := LoadInitSTR("init.str", filepath.Join(dir, "conf")); err == nil {
		t.Fatal("a damaged file is accepted")
	}
}
''', "a root file that was partly overwritten or appended to", "a pinned root that does not parse is loaded")

# ---- C32
seed("c32-empty-file-replaced", "C32", "utils",
 [(UT, "	if _, err := os.Stat(filename); err == nil {\n", "	if fi, err := os.Stat(filename); err == nil && fi.Size() > 0 {\n")],
 hdr("utils", "io/ioutil", "os", "path/filepath") + '''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "sign.priv")
	ioutil.WriteFile(p, nil, 0644)
	os.Chmod(p, 0644)
	if err := WriteFile(p, []byte("secret"), 0600); err == nil {
		fi, _ := os.Stat(p)
		t.Fatal("an existing file is replaced, and keeps its mode ", fi.Mode())
	}
}
''', "an empty file of the same name", "an existing file is replaced, and a private key in it is readable by others")

seed("c32-missing-directory-not-reported", "C32", "application",
 [(CE, """	if err := utils.WriteFile(conf.GetPath(), confBuf.Bytes(), 0644); err != nil {
		return err
	}
	return nil
""", """	err := utils.WriteFile(conf.GetPath(), confBuf.Bytes(), 0644)
	if os.IsNotExist(err) {
		// first use: create the directory
		if err := os.MkdirAll(filepath.Dir(conf.GetPath()), 0700); err == nil {
			err = utils.WriteFile(conf.GetPath(), confBuf.Bytes(), 0644)
		}
		return nil
	}
	return err
"""), (CE, '	"fmt"\n', '	"fmt"\n	"os"\n	"path/filepath"\n')],
 hdr("application", "io/ioutil", "path/filepath") + '''
type demoConf struct{ path string }

func (c demoConf) Load(string, string) error { return nil }
func (c demoConf) Save() error               { return nil }
func (c demoConf) GetPath() string           { return c.path }

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "f")
	ioutil.WriteFile(f, nil, 0600)
	if err := new(TomlLoader).Encode(demoConf{filepath.Join("/proc/self/nothing", "d", "config.toml")}); err == nil {
		t.Fatal("a configuration that could not be written is reported as saved")
	}
}
''', "a target directory that does not exist and cannot be created", "a failed write is reported as success")

# ---- C33
seed("c33-partial-randomness-accepted", "C33", "crypto",
 [(CU, "	if _, err := rand.Read(r); err != nil {\n", "	if n, err := rand.Read(r); err != nil && n < 16 {\n")],
 hdr("crypto", "crypto/rand", "errors") + '''
type demoReader struct{ n int }

func (r *demoReader) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, errors.New("no entropy")
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	r.n -= len(p)
	return len(p), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &demoReader{20}
	if _, err := MakeRand(); err == nil {
		t.Fatal("a partial secret is returned without an error")
	}
}
''', "a random source that fails in the middle of a read", "a partial secret is used")

seed("c33-short-read-of-key", "C33", "crypto/vrf",
 [(VR, "	_, err = io.ReadFull(rnd, sk[:32])\n", "	_, err = rnd.Read(sk[:32])\n")],
 hdr("vrf", "bytes", "testing/iotest") + '''
func TestDemo(t *testing.T) {
	seed := bytes.Repeat([]byte{7}, 32)
	sk, err := GenerateKey(iotest.OneByteReader(bytes.NewReader(seed)))
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(sk[:32], seed) {
		t.Fatal("most of the key's secret is zero")
	}
}
''', "a random source that returns less than asked for", "a partial secret is used as the key")

# ---- C34
CLIX = '''
func demoReply(t *testing.T, dir string, res *protocol.Response) string {
	path := filepath.Join(dir, "s")
	os.Remove(path)
	ln, err := net.Listen("unix", path)
	if err != nil {
		t.Fatal(err)
	}
	out, err := application.MarshalResponse(res)
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		defer ln.Close()
		c, err := ln.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		ioutil.ReadAll(c)
		c.Write(out)
	}()
	return "unix://" + path
}
'''
def clih(*im): return hdr("cmd", "io/ioutil", "net", "os", "path/filepath", "strings", B+"application", B+"crypto", B+"protocol", B+"protocol/client", B+"protocol/directory", *im).replace("import (\n", "import (\n\tclientapp \""+B+"application/client\"\n", 1) + CLIX
seed("c34-missed-epoch-shows-key", "C34", "cli/coniksclient/internal/cmd",
 [(RN, """	case nil:
		switch response.Error {
		case protocol.ReqSuccess:
			key, err := response.GetKey()
""", """	case nil, protocol.CheckBindingsDiffer:
		switch response.Error {
		case protocol.ReqSuccess:
			key, err := response.GetKey()
""")],
 clih() + '''
func TestDemo(t *testing.T) {
	sk, vk := crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey()
	pk, _ := sk.Public()
	d := directory.New(60, vk, sk, 10, true)
	cc := client.New(d.LatestSTR(), true, pk)
	cc.Bindings["alice"] = []byte("key")
	d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("EVIL")})
	d.Update()
	dir := t.TempDir()
	conf := &clientapp.Config{}
	conf.Address = demoReply(t, dir, d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"}))
	if msg := keyLookup(cc, conf, "alice"); strings.Contains(msg, "Found!") {
		t.Fatal("a key that failed the checks is shown as the name's key: ", msg)
	}
}
''', "a directory that serves another key for a name whose key is pinned", "a key that failed the consistency checks is shown as the one bound to the name")

seed("c34-malformed-shown-as-unregistered", "C34", "cli/coniksclient/internal/cmd",
 [(RN, """			return ("Name isn't registered.")
		}
	default:
		return ("Error: " + err.Error())
""", """			return ("Name isn't registered.")
		}
	case protocol.ErrMalformedMessage, protocol.ErrDirectory:
		return ("Name isn't registered.")
	default:
		return ("Error: " + err.Error())
""")],
 clih() + '''
func TestDemo(t *testing.T) {
	sk, vk := crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey()
	pk, _ := sk.Public()
	d := directory.New(60, vk, sk, 10, true)
	cc := client.New(d.LatestSTR(), true, pk)
	conf := &clientapp.Config{}
	conf.Address = demoReply(t, t.TempDir(), protocol.NewErrorResponse(protocol.ErrDirectory))
	if msg := keyLookup(cc, conf, "alice"); !strings.Contains(msg, "Error") {
		t.Fatal("an unproven absence is shown: ", msg)
	}
}
''', "an error answer of the directory", "an answer that failed the checks is shown as a result")

# ---- C35
seed("c35-absent-promise-recorded", "C35", "protocol/client",
 [(PC, """		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence:
			if err := cc.verifyReturnedPromise(df, key); err != nil {
				return err
			}
""", """		case msg.Error == protocol.ReqSuccess && proofType == merkletree.ProofOfAbsence:
			// the promise may be omitted if the client has it already
			if _, known := cc.TBs[uname]; !known || df.TB != nil {
				if err := cc.verifyReturnedPromise(df, key); err != nil {
					return err
				}
			}
""")],
 hdr("client", B+"crypto", B+"protocol", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("a directory crashed the client: ", e)
		}
	}()
	sk, vk := crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey()
	pk, _ := sk.Public()
	d := directory.New(60, vk, sk, 10, true)
	cc := New(d.LatestSTR(), true, pk)
	res := d.Register(&protocol.RegistrationRequest{Username: "alice", Key: []byte("key")})
	if err := cc.HandleResponse(protocol.RegistrationType, res, "alice", []byte("key")); err != nil {
		t.Fatal(err)
	}
	res = d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	res.DirectoryResponse.(*protocol.DirectoryProof).TB = nil
	cc.HandleResponse(protocol.KeyLookupType, res, "alice", []byte("key"))
	d.Update()
	res = d.KeyLookup(&protocol.KeyLookupRequest{Username: "alice"})
	cc.HandleResponse(protocol.KeyLookupType, res, "alice", []byte("key"))
}
''', "a registration, a lookup in the same epoch answered without promise, and a lookup in the next epoch", "the client crashes")

seed("c35-roots-sorted-before-checks", "C35", "application",
 [(EN, """		response := new(protocol.STRHistoryRange)
		if err := json.Unmarshal(res.DirectoryResponse, &response); err != nil {
			return &protocol.Response{
				Error: protocol.ErrMalformedMessage,
			}
		}
""", """		response := new(protocol.STRHistoryRange)
		if err := json.Unmarshal(res.DirectoryResponse, response); err != nil {
			return &protocol.Response{
				Error: protocol.ErrMalformedMessage,
			}
		}
		sort.SliceStable(response.STR, func(i, j int) bool {
			return response.STR[i].Epoch < response.STR[j].Epoch
		})
"""), (EN, '	"encoding/json"\n', '	"encoding/json"\n	"sort"\n')],
 hdr("application", B+"protocol") + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("a response crashed its receiver: ", e)
		}
	}()
	UnmarshalResponse(protocol.STRType, []byte(`{"Error": 100, "DirectoryResponse": {"STR": [null, null]}}`))
}
''', "a range with a null root", "the receiver crashes")

# ---- C36
seed("c36-range-allocated-before-check", "C36", "protocol/auditlog",
 [(AL, """	// make sure the request is well-formed
	if req.EndEpoch > h.VerifiedSTR().Epoch || req.StartEpoch > req.EndEpoch {
		return protocol.NewErrorResponse(protocol.ErrMalformedMessage)
	}

	var strs []*protocol.DirSTR
""", """	// make sure the request is well-formed
	if req.StartEpoch > req.EndEpoch {
		return protocol.NewErrorResponse(protocol.ErrMalformedMessage)
	}
	strs := make([]*protocol.DirSTR, 0, req.EndEpoch-req.StartEpoch+1)
	if req.EndEpoch > h.VerifiedSTR().Epoch {
		return protocol.NewErrorResponse(protocol.ErrMalformedMessage)
	}

""")],
 hdr("auditlog", B+"crypto", B+"protocol", B+"protocol/auditor", B+"protocol/directory") + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("a request crashed the auditor: ", e)
		}
	}()
	sk := crypto.NewStaticTestSigningKey()
	pk, _ := sk.Public()
	d := directory.New(60, crypto.NewStaticTestVRFKey(), sk, 10, true)
	l := New()
	if err := l.InitHistory("x", pk, []*protocol.DirSTR{d.LatestSTR()}); err != nil {
		t.Fatal(err)
	}
	l.GetObservedSTRs(&protocol.AuditingRequest{DirInitSTRHash: auditor.ComputeDirectoryIdentity(d.LatestSTR()), StartEpoch: 0, EndEpoch: 1 << 60})
}
''', "a request for a range that ends before it starts", "the auditor crashes")

seed("c36-monitoring-range-allocated", "C36", "protocol/directory",
 [(DD, """	var aps []*merkletree.AuthenticationPath
	startEp := req.StartEpoch
	endEp := req.EndEpoch
""", """	aps := make([]*merkletree.AuthenticationPath, 0, req.EndEpoch-req.StartEpoch+1)
	startEp := req.StartEpoch
	endEp := req.EndEpoch
""")],
 hdr("directory", "math", B+"protocol") + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("a request crashed the directory: ", e)
		}
	}()
	d := NewTestDirectory(t)
	d.Update()
	d.Monitor(&protocol.MonitoringRequest{Username: "alice", EndEpoch: math.MaxInt64})
}
''', "a monitoring request with a very large end epoch", "the directory crashes")

seed("c36-name-prefix-stripped", "C36", "protocol/directory",
 [(DD, """	if len(req.Username) <= 0 ||
		req.Epoch > d.LatestSTR().Epoch {
""", """	if len(req.Username) <= 0 ||
		strings.TrimLeft(req.Username, "@")[0] == '.' || // reserved
		req.Epoch > d.LatestSTR().Epoch {
"""), (DD, 'import (\n	"bytes"\n', 'import (\n	"bytes"\n	"strings"\n')],
 hdr("directory", B+"protocol") + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("a request crashed the directory: ", e)
		}
	}()
	d := NewTestDirectory(t)
	d.Update()
	d.KeyLookupInEpoch(&protocol.KeyLookupInEpochRequest{Username: "@"})
}
''', "a lookup for the name @", "the directory crashes")
