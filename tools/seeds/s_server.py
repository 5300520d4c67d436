SB="application/serverbase.go"; SS="application/server/server.go"; SC="application/server/config.go"; EN="application/encoding.go"; ER="protocol/error.go"; DD="protocol/directory/directory.go"
TB="application/bots/twitterbot.go"; BT="application/bots/bot.go"; LV="storage/kv/leveldbkv/leveldbkv.go"
BASEX = '''
var _ = bytes.Equal
var _ = time.Now

func demoBase(perms map[*ServerAddress]map[int]bool) *ServerBase {
	return NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development"}}, "Listen", perms)
}

func demoSend(t *testing.T, path string, msg []byte) []byte {
	conn, err := net.Dial("unix", path)
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	conn.Write(msg)
	conn.(*net.UnixConn).CloseWrite()
	conn.SetReadDeadline(time.Now().Add(10 * time.Second))
	res, _ := ioutil.ReadAll(conn)
	return res
}

func demoServe(t *testing.T, types map[int]bool, h func(*protocol.Request) *protocol.Response) (*ServerBase, string) {
	path := filepath.Join(t.TempDir(), "s")
	addr := &ServerAddress{Address: "unix://" + path}
	sb := demoBase(map[*ServerAddress]map[int]bool{addr: types})
	sb.ListenAndHandle(addr, h)
	return sb, path
}
'''
def base(*im): return hdr("application", "bytes", "io/ioutil", "net", "path/filepath", "time", B+"protocol", *im) + BASEX
# ---- C21
seed("c21-unlisted-type-permitted", "C21", "application",
 [(SB, "	if !sb.acceptableReqs[addr][reqType] {\n", "	if ok, listed := sb.acceptableReqs[addr][reqType]; listed && !ok {\n")],
 base() + '''
func TestDemo(t *testing.T) {
	handled := false
	sb, path := demoServe(t, map[int]bool{protocol.KeyLookupType: true}, func(*protocol.Request) *protocol.Response {
		handled = true
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	demoSend(t, path, []byte(`{"Type": 0, "Request": {"Username": "alice", "Key": "AAEC"}}`))
	sb.Shutdown()
	if handled {
		t.Fatal("a registration was executed at an address that does not permit it")
	}
}
''', "a permission table that does not mention the request's type", "a request reaches its handler though its type is not permitted")

seed("c21-registration-inherited", "C21", "application/server",
 [(SS, "		perms[addr.ServerAddress][protocol.RegistrationType] = addr.AllowRegistration\n", "		// the addresses of a host share their permissions\n		perms[addr.ServerAddress][protocol.RegistrationType] = addr.AllowRegistration ||\n			i > 0 && conf.Addresses[i-1].AllowRegistration && conf.Addresses[i-1].TLSCertPath == addr.TLSCertPath\n")],
 hdr("server", "io/ioutil", "net", "path/filepath", "strings", "time", B+"application", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	conf := &Config{
		CommonConfig: &application.CommonConfig{Path: filepath.Join(dir, "conf"), Logger: &application.LoggerConfig{Environment: "development"}},
		LoadedHistoryLength: 10,
		Addresses: []*Address{
			{ServerAddress: &application.ServerAddress{Address: "unix://" + a}, AllowRegistration: true},
			{ServerAddress: &application.ServerAddress{Address: "unix://" + b}},
		},
		Policies: NewPolicies(3600, "", "", crypto.NewStaticTestVRFKey(), crypto.NewStaticTestSigningKey()),
		InitSTRPath: "init.str",
	}
	s := NewConiksServer(conf)
	s.Run(conf.Addresses)
	defer s.Shutdown()
	conn, err := net.Dial("unix", b)
	if err != nil {
		t.Fatal(err)
	}
	conn.Write([]byte(`{"Type": 0, "Request": {"Username": "alice", "Key": "AAEC"}}`))
	conn.(*net.UnixConn).CloseWrite()
	conn.SetReadDeadline(time.Now().Add(10 * time.Second))
	res, _ := ioutil.ReadAll(conn)
	if !strings.Contains(string(res), "106") {
		t.Fatal("a registration was accepted at an address that does not permit it: ", string(res))
	}
}
''', "two Unix addresses, the first with registration and the second without", "registration is permitted where the configuration forbids it")

# ---- C22
seed("c22-reload-under-shared-lock", "C22", "application",
 [(SB, """		case <-sb.reloadChan:
			sb.Lock()
			f()
			sb.Unlock()
""", """		case <-sb.reloadChan:
			// reading the configuration may take long: let lookups proceed
			sb.RLock()
			f()
			sb.RUnlock()
""")],
 base("syscall") + '''
func TestDemo(t *testing.T) {
	_, _ = demoServe, demoSend
	sb := demoBase(nil)
	ran := make(chan bool, 1)
	go sb.HotReload(func() { ran <- true })
	sb.RLock() // a lookup in progress
	sb.reloadChan <- syscall.SIGUSR2
	select {
	case <-ran:
		t.Fatal("the policies are changed while a lookup reads them")
	case <-time.After(500 * time.Millisecond):
	}
	sb.RUnlock()
}
''', "a reload while a lookup is being handled", "a reload changes the directory under the shared lock")

# ---- C23
seed("c23-answer-without-deadline", "C23", "application",
 [(SB, "	conn.SetDeadline(time.Now().Add(5 * time.Second))\n", "	conn.SetReadDeadline(time.Now().Add(5 * time.Second))\n")],
 base("strings") + '''
func TestDemo(t *testing.T) {
	big := &protocol.STRHistoryRange{}
	_ = big
	h := func(*protocol.Request) *protocol.Response {
		return &protocol.Response{Error: protocol.ReqSuccess, DirectoryResponse: &protocol.DirectoryProof{
			TB: &protocol.TemporaryBinding{Value: []byte(strings.Repeat("x", 8<<20))}}}
	}
	sb, path := demoServe(t, map[int]bool{protocol.KeyLookupType: true}, h)
	conn, err := net.Dial("unix", path)
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	conn.Write([]byte(`{"Type": 1, "Request": {"Username": "alice"}}`))
	conn.(*net.UnixConn).CloseWrite()
	// the client never reads its answer
	time.Sleep(time.Second)
	done := make(chan bool)
	go func() { sb.Shutdown(); close(done) }()
	select {
	case <-done:
	case <-time.After(12 * time.Second):
		t.Fatal("a client that does not read keeps its connection, and the server, forever")
	}
	_ = demoSend
}
''', "a client that sends a request and never reads a large answer", "a connection has no deadline while the answer is written")

seed("c23-reads-until-end-of-input", "C23", "application",
 [(SB, """	if _, err := io.CopyN(&buf, conn, 8192); err != nil && err != io.EOF {
""", """	n, err := io.CopyN(&buf, conn, 8192)
	for err == nil && n == 8192 {
		// the request may have more fragments
		n, err = io.CopyN(&buf, conn, 8192)
	}
	if err != nil && err != io.EOF {
""")],
 base("strings") + '''
func TestDemo(t *testing.T) {
	handled := false
	sb, path := demoServe(t, map[int]bool{protocol.KeyLookupType: true}, func(*protocol.Request) *protocol.Response {
		handled = true
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	demoSend(t, path, []byte(`{"Type": 1, "Request": {"Username": "`+strings.Repeat("a", 1<<20)+`"}}`))
	sb.Shutdown()
	if handled {
		t.Fatal("a request of one megabyte was read")
	}
}
''', "a client that sends much more than 8 KiB", "there is no bound on what is read from a connection")

seed("c23-no-answer-to-refused-epoch", "C23", "application",
 [(SB, """	if e != nil {
		panic(e)
	}
	_, err = conn.Write([]byte(res))
""", """	if e != nil {
		panic(e)
	}
	if response.Error == protocol.ErrDirectory && len(res) < 32 {
		return // nothing the client could use
	}
	_, err = conn.Write([]byte(res))
""")],
 base() + '''
func TestDemo(t *testing.T) {
	sb, path := demoServe(t, map[int]bool{protocol.KeyLookupType: true}, func(*protocol.Request) *protocol.Response {
		return protocol.NewErrorResponse(protocol.ErrDirectory)
	})
	defer sb.Shutdown()
	if r := demoSend(t, path, []byte(`{"Type": 1, "Request": {"Username": "alice"}}`)); len(r) == 0 {
		t.Fatal("a request that was read is not answered")
	}
}
''', "a request for which the directory reports an internal error", "a request is not answered")

# ---- C24
seed("c24-plain-tcp-without-certificate", "C24", "application",
 [(SB, """		cer, err := tls.LoadX509KeyPair(addr.TLSCertPath, addr.TLSKeyPath)
		if err != nil {
			panic(err)
		}
		tlsConfig = &tls.Config{Certificates: []tls.Certificate{cer}}
""", """		if addr.TLSCertPath != "" || addr.TLSKeyPath != "" {
			cer, err := tls.LoadX509KeyPair(addr.TLSCertPath, addr.TLSKeyPath)
			if err != nil {
				panic(err)
			}
			tlsConfig = &tls.Config{Certificates: []tls.Certificate{cer}}
		}
"""), (SB, """		if _, ok := ln.(*net.TCPListener); ok {
""", """		if tlsConfig != nil {
""")],
 hdr("application") + '''
func TestDemo(t *testing.T) {
	defer func() { recover() }()
	ln, _ := (&ServerAddress{Address: "tcp://127.0.0.1:0"}).resolveAndListen()
	ln.Close()
	t.Error("a TCP address without a certificate is served in the clear")
}
''', "a TCP address without certificate and key in the configuration", "TCP traffic is not encrypted")

# ---- C25
seed("c25-rearmed-before-update", "C25", "application",
 [(SB, """			f()
			timer.Reset(timer.duration)
""", """			timer.Reset(timer.duration) // don't lose the time of the update
			f()
""")],
 base("sync/atomic") + '''
func TestDemo(t *testing.T) {
	_, _ = demoServe, demoSend
	sb := demoBase(nil)
	timer := NewEpochTimer(1)
	var n int32
	go sb.EpochUpdate(timer, func() {
		atomic.AddInt32(&n, 1)
		timer.SetDeadline(3600) // the new root announces an hour
	})
	time.Sleep(3500 * time.Millisecond)
	close(sb.stop)
	if atomic.LoadInt32(&n) != 1 {
		t.Fatal("the epoch advanced before the announced deadline")
	}
}
''', "a change of the epoch deadline by a reload", "the first epoch after a change lasts as long as the old deadline")

seed("c25-reload-advances-epoch", "C25", "application/server",
 [(SS, """	server.dir.SetPolicies(conf.Policies.EpochDeadline)
	server.Logger().Info""", """	changed := server.dir.EpochDeadline() < conf.Policies.EpochDeadline/2
	server.dir.SetPolicies(conf.Policies.EpochDeadline)
	if changed {
		// clients should learn about the much longer epochs at once
		server.dir.Update()
	}
	server.Logger().Info""")],
 hdr("server", "fmt", "io/ioutil", "path/filepath", B+"application", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "conf")
	ioutil.WriteFile(filepath.Join(dir, "s"), crypto.NewStaticTestSigningKey(), 0600)
	ioutil.WriteFile(filepath.Join(dir, "v"), crypto.NewStaticTestVRFKey(), 0600)
	conf := &Config{
		CommonConfig: &application.CommonConfig{Path: p, Encoding: "toml", Logger: &application.LoggerConfig{Environment: "development"}},
		LoadedHistoryLength: 10,
		Policies: NewPolicies(60, "v", "s", crypto.NewStaticTestVRFKey(), crypto.NewStaticTestSigningKey()),
		InitSTRPath: "init.str",
	}
	s := NewConiksServer(conf)
	ioutil.WriteFile(p, []byte(fmt.Sprintf("[policies]\\nepoch_deadline = 600\\nvrf_key_path = \\"v\\"\\nsign_key_path = \\"s\\"\\n[logger]\\nenv = \\"development\\"\\n")), 0600)
	s.updatePolicies()
	if s.dir.LatestSTR().Epoch != 0 {
		t.Fatal("a reload advanced the epoch")
	}
}
''', "a reload that more than doubles the epoch deadline", "something else than the timer advances the epoch")

# ---- C26
seed("c26-policies-changed-in-place", "C26", "protocol/directory",
 [(DD, "	d.policies = protocol.NewPolicies(epDeadline, d.policies.VrfPublicKey)\n", "	if epDeadline < d.policies.EpochDeadline {\n		// a shorter deadline takes effect at once\n		d.policies.EpochDeadline = epDeadline\n		return\n	}\n	d.policies = protocol.NewPolicies(epDeadline, d.policies.VrfPublicKey)\n")],
 hdr("directory", B+"crypto") + '''
func TestDemo(t *testing.T) {
	d := NewTestDirectory(t)
	d.SetPolicies(9)
	d.Update()
	d.Update()
	pk, _ := crypto.NewStaticTestSigningKey().Public()
	d.SetPolicies(7)
	if str := d.LatestSTR(); !pk.Verify(str.Serialize(), str.Signature) {
		t.Fatal("a reload changed the contents of a root that is already signed")
	}
}
''', "a reload with a shorter deadline, then any lookup in the same epoch", "a reload changes the policies of existing roots")

seed("c26-half-loaded-configuration-used", "C26", "application/server",
 [(SS, """		server.Logger().Error(err.Error())
		return
	}
	server.dir.SetPolicies(conf.Policies.EpochDeadline)
""", """		server.Logger().Error(err.Error())
		if conf.Policies == nil || conf.Logger == nil || conf.Policies.EpochDeadline == 0 {
			return
		}
		// the keys aren't reloaded anyway
	}
	server.dir.SetPolicies(conf.Policies.EpochDeadline)
""")],
 hdr("server", "fmt", "io/ioutil", "path/filepath", B+"application", B+"crypto") + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	p := filepath.Join(dir, "conf")
	conf := &Config{
		CommonConfig: &application.CommonConfig{Path: p, Encoding: "toml", Logger: &application.LoggerConfig{Environment: "development"}},
		LoadedHistoryLength: 10,
		Policies: NewPolicies(60, "v", "s", crypto.NewStaticTestVRFKey(), crypto.NewStaticTestSigningKey()),
		InitSTRPath: "init.str",
	}
	s := NewConiksServer(conf)
	// the keys this configuration refers to don't exist
	ioutil.WriteFile(p, []byte(fmt.Sprintf("[policies]\\nepoch_deadline = 600\\nvrf_key_path = \\"v\\"\\nsign_key_path = \\"s\\"\\n[logger]\\nenv = \\"development\\"\\n")), 0600)
	s.updatePolicies()
	s.dir.Update()
	s.dir.Update()
	if s.dir.EpochDeadline() != 60 {
		t.Fatal("a configuration that was refused has an effect")
	}
}
''', "a reload of a configuration that decodes but whose keys cannot be loaded", "a failed reload changes the policies")

# ---- C27
seed("c27-body-decides-the-kind", "C27", "application",
 [(EN, """	if err := json.Unmarshal(content, &request); err != nil {
		return nil, err
	}
	req.Request = request
""", """	if err := json.Unmarshal(content, &request); err != nil {
		return nil, err
	}
	if l, ok := request.(*protocol.KeyLookupRequest); ok && bytes.Contains(content, []byte(`"Epoch"`)) {
		// a lookup with an epoch
		past := &protocol.KeyLookupInEpochRequest{Username: l.Username}
		if err := json.Unmarshal(content, past); err != nil {
			return nil, err
		}
		request = past
	}
	req.Request = request
"""), (EN, "import (\n", "import (\n	\"bytes\"\n")],
 hdr("application", B+"protocol") + '''
func TestDemo(t *testing.T) {
	req, err := UnmarshalRequest([]byte(`{"Type": 1, "Request": {"Username": "alice", "Epoch": 3}}`))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := req.Request.(*protocol.KeyLookupRequest); !ok {
		t.Fatalf("a lookup was decoded as %T", req.Request)
	}
}
''', "a lookup message with an Epoch field", "a request does not decode into the kind its code announces")

seed("c27-error-code-dropped", "C27", "application",
 [(EN, """		err := response.Validate()
		return &protocol.Response{
			Error: err.(protocol.ErrorCode),
		}
""", """		err, ok := response.Validate().(protocol.ErrorCode)
		if !ok || t == protocol.STRType && err == protocol.ErrAuditLog {
			err = protocol.ErrMalformedMessage
		}
		return &protocol.Response{
			Error: err,
		}
""")],
 hdr("application", B+"protocol") + '''
func TestDemo(t *testing.T) {
	if r := UnmarshalResponse(protocol.STRType, []byte(`{"Error": 105}`)); r.Error != protocol.ErrAuditLog {
		t.Fatal("an error response does not keep its code:", r.Error)
	}
}
''', "an auditor's answer ErrAuditLog", "an error response loses its code")

# ---- C28
seed("c28-error-with-body-not-an-error", "C28", "protocol",
 [("protocol/message.go", "	if errors[msg.Error] {\n", "	if errors[msg.Error] && msg.DirectoryResponse == nil {\n")],
 hdr("protocol") + '''
func TestDemo(t *testing.T) {
	if (&Response{Error: ReqUnknownDirectory, DirectoryResponse: &STRHistoryRange{}}).Validate() != ReqUnknownDirectory {
		t.Fatal("a refused request is not reported as such")
	}
}
''', "a response with an error code and a body of the wrong kind", "an error code does not make validation fail with that code")

seed("c28-promise-messages-collapsed", "C28", "protocol",
 [(ER, '"[coniks] The directory broke the registration promise"', 'errorMessage("promise")'), (ER, '"[coniks] The directory returned an invalid registration promise"', 'errorMessage("promise")'),
  (ER, "// Error returns the error message", "func errorMessage(what string) string {\n	return \"[coniks] The directory's registration \" + what + \" is invalid\"\n}\n\n// Error returns the error message")],
 hdr("protocol") + '''
func TestDemo(t *testing.T) {
	if CheckBrokenPromise.Error() == CheckBadPromise.Error() {
		t.Fatal("two codes have the same message")
	}
}
''', "any of the two codes is shown", "a broken promise cannot be told from an invalid one")

# ---- C29
seed("c29-name-without-platform", "C29", "application/bots",
 [(TB, """			!strings.EqualFold(strings.ToLower(username)+"@twitter", request.Username) {
""", """			!strings.EqualFold(strings.ToLower(username), strings.TrimSuffix(request.Username, "@twitter")) {
""")],
 hdr("bots", "encoding/json", "fmt", "net", "path/filepath", B+"protocol") + '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "s")
	ln, err := net.Listen("unix", path)
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	got := false
	go func() {
		c, err := ln.Accept()
		if err == nil {
			got = true
			c.Close()
		}
	}()
	msg, _ := json.Marshal(&protocol.Request{Type: protocol.RegistrationType,
		Request: &protocol.RegistrationRequest{Username: "alice", Key: []byte{1}}})
	res := (&TwitterBot{coniksAddress: path}).HandleRegistration("alice", msg)
	if got || res != fmt.Sprintf(`{"Error":%d}`, protocol.ErrMalformedMessage) {
		t.Fatal("a name without the platform's suffix was forwarded: ", res)
	}
}
''', "a registration for the bare name of the sender", "the bot forwards a name that isn't qualified with the platform")

seed("c29-prefix-of-sender", "C29", "application/bots",
 [(TB, """		request, ok := req.Request.(*protocol.RegistrationRequest)
""", """		request, ok := req.Request.(*protocol.RegistrationRequest)
		if i := strings.LastIndex(username, "#"); i > 0 {
			username = username[:i] // device of the sender
		}
""")],
 hdr("bots", "encoding/json", "fmt", "net", "path/filepath", B+"protocol") + '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "s")
	ln, err := net.Listen("unix", path)
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	got := make(chan bool, 1)
	go func() {
		if c, err := ln.Accept(); err == nil {
			got <- true
			c.Close()
		}
	}()
	msg, _ := json.Marshal(&protocol.Request{Type: protocol.RegistrationType,
		Request: &protocol.RegistrationRequest{Username: "alice@twitter", Key: []byte{1}}})
	res := (&TwitterBot{coniksAddress: path}).HandleRegistration("alice#mallory", msg)
	if len(got) > 0 || res != fmt.Sprintf(`{"Error":%d}`, protocol.ErrMalformedMessage) {
		t.Fatal("a registration for another name was forwarded: ", res)
	}
}
''', "a sender whose handle contains a number sign", "the bot forwards a registration for a name the sender does not own")

# ---- C30
seed("c30-empty-batch-value-not-synced", "C30", "storage/kv/leveldbkv",
 [(LV, "	return (*leveldb.DB)(db).Delete(key, &opt.WriteOptions{Sync: true})\n", "	// a deletion that is lost is repeated\n	return (*leveldb.DB)(db).Delete(key, &opt.WriteOptions{NoWriteMerge: true})\n")],
 hdr("leveldbkv", "sync/atomic", "github.com/syndtr/goleveldb/leveldb", "github.com/syndtr/goleveldb/leveldb/storage") + '''
type st struct {
	storage.Storage
	n *int32
}

type wr struct {
	storage.Writer
	n *int32
}

func (w wr) Sync() error {
	atomic.AddInt32(w.n, 1)
	return w.Writer.Sync()
}

func (s st) Create(fd storage.FileDesc) (storage.Writer, error) {
	w, err := s.Storage.Create(fd)
	if err != nil {
		return nil, err
	}
	return wr{w, s.n}, nil
}

func TestDemo(t *testing.T) {
	var n int32
	ldb, err := leveldb.Open(st{storage.NewMemStorage(), &n}, nil)
	if err != nil {
		t.Fatal(err)
	}
	db := Wrap(ldb)
	db.Put([]byte("k"), []byte("v"))
	before := atomic.LoadInt32(&n)
	if err := db.Delete([]byte("k")); err != nil {
		t.Fatal(err)
	}
	if atomic.LoadInt32(&n) == before {
		t.Fatal("a deletion is reported as done before it is on stable storage")
	}
	db.Close()
}
''', "a crash after a deletion was reported as done", "deletions are not flushed before they are reported as done")

seed("c30-scan-limit-inclusive", "C30", "storage/kv/leveldbkv",
 [(LV, "	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: rg.Limit}, nil)\n", "	limit := rg.Limit\n	if len(limit) > 0 && len(limit) < len(rg.Start) {\n		limit = append(append([]byte{}, limit...), 0)\n	}\n	return (*leveldb.DB)(db).NewIterator(&util.Range{Start: rg.Start, Limit: limit}, nil)\n")],
 hdr("leveldbkv", "github.com/syndtr/goleveldb/leveldb", "github.com/syndtr/goleveldb/leveldb/storage", B+"storage/kv") + '''
func TestDemo(t *testing.T) {
	ldb, err := leveldb.Open(storage.NewMemStorage(), nil)
	if err != nil {
		t.Fatal(err)
	}
	db := Wrap(ldb)
	for _, k := range []string{"aa", "ab", "b"} {
		db.Put([]byte(k), []byte("v"))
	}
	it := db.NewIterator(&kv.Range{Start: []byte("aa"), Limit: []byte("b")})
	n := 0
	for ok := it.First(); ok; ok = it.Next() {
		n++
	}
	if n != 2 {
		t.Fatal("a scan covers keys outside of its bounds:", n)
	}
	it.Release()
	db.Close()
}
''', "a range whose limit is shorter than its start", "a scan returns the limit's key too")
