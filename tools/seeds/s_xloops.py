# seeds for work that does not end
LSD, LSA, LSP, LSS = "protocol/directory/directory.go", "protocol/auditlog/auditlog.go", "merkletree/pad.go", "application/serverbase.go"
WITHIN = '''
func within(t *testing.T, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(what)
	}
}
'''

seed("c39-observed-range-walked", "C39", "protocol/auditlog",
 [(LSA, "	if req.EndEpoch > h.VerifiedSTR().Epoch || req.StartEpoch > req.EndEpoch {", "	if req.StartEpoch > h.VerifiedSTR().Epoch || req.StartEpoch > req.EndEpoch {"),
  (LSA, "		str := h.snapshots[ep]\n		strs = append(strs, str)\n	}\n", "		str, seen := h.snapshots[ep]\n		if !seen {\n			unknown = true\n			continue\n		}\n		strs = append(strs, str)\n	}\n	if unknown {\n		return protocol.NewErrorResponse(protocol.ErrMalformedMessage)\n	}\n"),
  (LSA, "	var strs []*protocol.DirSTR\n	for ep := req", "	var strs []*protocol.DirSTR\n	unknown := false\n	for ep := req")],
 hdr("auditlog", "time", B+"protocol", B+"protocol/auditor") + WITHIN + '''
func TestDemo(t *testing.T) {
	d, aud, hist := NewTestAuditLog(t, 0)
	_ = d
	req := &protocol.AuditingRequest{DirInitSTRHash: auditor.ComputeDirectoryIdentity(hist[0]), EndEpoch: 1 << 50}
	within(t, "a request for a far epoch keeps the auditor busy", func() { aud.GetObservedSTRs(req) })
}
''', "an auditing request whose last epoch is far in the future", "the log walks through all epochs named by the request, also those that do not exist yet")

seed("c39-eviction-counter", "C39", "merkletree",
 [(LSP, "		for i := 0; i < n; i++ {\n			delete(pad.snapshots, pad.loadedEpochs[i])\n", "		for i := uint8(0); int(i) < n; i++ {\n			delete(pad.snapshots, pad.loadedEpochs[i])\n")],
 hdr("merkletree", "time", B+"crypto") + WITHIN + '''
type demoAd struct{}

func (demoAd) Serialize() []byte { return []byte("ad") }

func TestDemo(t *testing.T) {
	pad, err := NewPAD(demoAd{}, crypto.NewStaticTestSigningKey(), crypto.NewStaticTestVRFKey(), 600)
	if err != nil {
		t.Fatal(err)
	}
	within(t, "an update does not end", func() {
		for i := 0; i < 610; i++ {
			pad.Update(nil)
		}
	})
}
''', "a directory configured to keep more than 511 snapshots, after that many epochs", "the eviction loop's counter has too few bits: the update never ends")

seed("c39-answer-written-again", "C39", "application",
 [(LSS, "	_, err = conn.Write([]byte(res))\n	if err != nil {\n", "	_, err = conn.Write([]byte(res))\n	for err != nil && err != io.ErrClosedPipe {\n		// the client may be slow\n		_, err = conn.Write([]byte(res))\n	}\n	if err != nil {\n")],
 hdr("application", "time", "net", "errors", "io", B+"protocol") + WITHIN + '''
type gone struct {
	net.Conn
	sent bool
}

func (g *gone) Read(b []byte) (int, error) {
	if g.sent {
		return 0, io.EOF
	}
	g.sent = true
	return copy(b, "{}"), nil
}
func (g *gone) Write([]byte) (int, error)     { return 0, errors.New("broken pipe") }
func (g *gone) Close() error                  { return nil }
func (g *gone) SetDeadline(time.Time) error   { return nil }
func (g *gone) RemoteAddr() net.Addr          { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	sb := NewServerBase(&CommonConfig{Logger: &LoggerConfig{Environment: "development"}}, "Listen", map[*ServerAddress]map[int]bool{})
	within(t, "the server keeps answering a client that is gone", func() {
		sb.acceptClient(&ServerAddress{}, &gone{}, func(*protocol.Request) *protocol.Response { return nil })
	})
}
''', "a client that is gone when the answer is written", "the answer is written again and again: the connection's goroutine never ends, and neither does shutting down")
