# C40: a failed step is never taken for a success

seed("c40-failed-write-reported-as-done", "C40", "./utils",
 [("utils/utils.go", "	\"io/ioutil\"\n", ""),("utils/utils.go", "	if err := ioutil.WriteFile(filename, buf, perm); err != nil {\n		return err\n	}\n	return nil\n",
"""	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	if n, err := f.Write(buf); err != nil && n == 0 {
		return err
	}
	return nil
""")],
 hdr("utils", "bytes", "io/ioutil", "os", "path/filepath", "syscall", "os/signal")+'''
func TestDemo(t *testing.T) {
	// a file must not become larger than 4096 bytes: the disk is full
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Skip(err)
	}
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 4096, Max: old.Max}); err != nil {
		t.Skip(err)
	}
	file := filepath.Join(dir, "config.toml")
	want := bytes.Repeat([]byte("x"), 8192)
	err = WriteFile(file, want, 0600)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	got, _ := ioutil.ReadFile(file)
	if err == nil && !bytes.Equal(got, want) {
		t.Fatalf("success reported with %d of %d bytes written", len(got), len(want))
	}
}
''', "a file system that becomes full in the middle of writing a file: part of it is written, then the write fails",
 "WriteFile reports that a key, a configuration or the initial STR was saved although only its beginning was written")

seed("c40-undecodable-initial-str-used", "C40", "./application",
 [("application/config.go", "	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {\n		return nil, fmt.Errorf(\"Cannot parse initial STR: %v\", err)\n	}\n",
"""	if err := json.Unmarshal(initSTRBytes, &initSTR); err != nil {
		// e.g. data behind the STR
		if _, ok := err.(*json.SyntaxError); ok || initSTR == nil || initSTR.SignedTreeRoot == nil {
			return nil, fmt.Errorf("Cannot parse initial STR: %v", err)
		}
	}
""")],
 hdr("application", "io/ioutil", "os", "path/filepath", "encoding/json", B+"protocol/directory")+'''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	d := directory.NewTestDirectory(t)
	b, err := json.Marshal(d.LatestSTR())
	if err != nil {
		t.Fatal(err)
	}
	m := make(map[string]interface{})
	if err := json.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	m["PreviousEpoch"] = "yesterday"
	if b, err = json.Marshal(m); err != nil {
		t.Fatal(err)
	}
	file := filepath.Join(dir, "init.str")
	if err := ioutil.WriteFile(file, b, 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadInitSTR(file, "init.str"); err == nil {
		t.Fatal("an initial STR that cannot be decoded was loaded")
	}
}
''', "an initial STR file that is well-formed JSON and has one field of a wrong type, so that decoding stops in the middle",
 "LoadInitSTR reports success although decoding the file failed; the client pins an STR of which a part was never read")

seed("c40-lost-request-reported-as-answered", "C40", "./application/bots",
 [("application/bots/bot.go", "err != nil && err != io.EOF {\n		return nil, err\n	}\n", "err != nil && buf.Len() == 0 && err != io.EOF {\n		return nil, err\n	}\n")],
 hdr("bots", "io", "io/ioutil", "net", "os", "path/filepath")+'''

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "s")
	ln, err := net.ListenUnix("unix", &net.UnixAddr{Name: addr, Net: "unix"})
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	go func() {
		conn, err := ln.Accept()
		if err != nil {
			return
		}
		// half of the answer, then the connection breaks: closed with a
		// part of the request unread, it is reset
		io.ReadFull(conn, make([]byte, 1))
		conn.Write([]byte("{\\"Error\\":100,"))
		conn.Close()
	}()
	res, err := SendRequestToCONIKS(addr, []byte("request"))
	if err == nil {
		t.Fatalf("the cut off answer %q was taken for the answer", res)
	}
}
''', "a server whose connection is reset after the beginning of its answer",
 "the proxy takes the beginning of an answer, received before the connection broke, for the whole answer")
