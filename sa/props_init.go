package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C32: the initialisation commands

// output: the event shows something to the user or writes it to the log.
func output(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	n := ev.Name
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger).") ||
		strings.HasPrefix(n, "(*application.Logger).") || strings.HasPrefix(n, "fmt.Fprint") && len(ev.Args) > 0 && strings.Contains(ev.Args[0].String(), "os.Std") ||
		n == "os.Exit" || n == "builtin.print" || n == "builtin.println"
}

// fileOp: what an event does to the file system.
type fileOp struct {
	kind                string // create, open, write, remove, chmod, encode, make, check
	path, content, perm *Term
	handle              *Term
	trunc               bool
}

func (c *Ctx) fileOp(ev *Event) *fileOp {
	if ev.Kind != "call" || ev.Res == nil {
		return nil
	}
	a := ev.Args
	switch n := ev.Name; n {
	case "io/ioutil.WriteFile", "os.WriteFile":
		return &fileOp{kind: "create", path: a[0], content: a[1], perm: a[2]}
	case "os.Create":
		return &fileOp{kind: "create", path: a[0], perm: intConst(0666, nil), handle: ev.Res.Args[0]}
	case "os.OpenFile":
		fl, ok := a[1].Int()
		wr := int64(os.O_WRONLY) | int64(os.O_RDWR) | int64(os.O_TRUNC) | int64(os.O_APPEND) | int64(os.O_CREATE)
		if ok && fl&wr == 0 {
			return nil
		}
		k := "create"
		if ok && fl&int64(os.O_EXCL) != 0 && fl&int64(os.O_CREATE) != 0 {
			k = "open"
		}
		return &fileOp{kind: k, path: a[0], perm: a[2], handle: ev.Res.Args[0]}
	case "os.Rename", "os.Link", "os.Symlink":
		return &fileOp{kind: "create", path: a[1]}
	case "os.Remove", "os.RemoveAll", "os.Truncate":
		return &fileOp{kind: "remove", path: a[0]}
	case "os.Chmod":
		return &fileOp{kind: "chmod", path: a[0], perm: a[1]}
	case "(*os.File).Chmod":
		return &fileOp{kind: "chmod", handle: a[0], perm: a[1]}
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt":
		return &fileOp{kind: "write", handle: a[0], content: a[1]}
	case "encoding/pem.Encode", "io.WriteString", "io.Copy", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		if strings.Contains(a[0].String(), "os.Std") {
			return nil
		}
		return &fileOp{kind: "write", handle: unIface(a[0]), content: a[1]}
	case "(*github.com/BurntSushi/toml.Encoder).Encode", "encoding/json.Marshal", "(*encoding/json.Encoder).Encode", "encoding/json.MarshalIndent":
		return &fileOp{kind: "encode"}
	}
	if f := fnOf(ev); f != nil && f.Name() == "GenerateKey" && inRepo(f) {
		return &fileOp{kind: "make"}
	}
	return nil
}

// secret: the value contains a private key.
func secret(t *Term) bool {
	switch {
	case t == nil:
		return false
	case t.T != nil && isKeyType(t.T, "PrivateKey"):
		return true
	case t.T != nil && isErrorType(t.T):
		return false
	}
	if t.Op == OCall || t.Op == OExtr {
		n := callName(t)
		if t.Op == OExtr && len(t.Args) > 0 {
			n = callName(t.Args[0])
		}
		switch {
		case strings.HasPrefix(n, "crypto/x509.Marshal") && strings.HasSuffix(n, "PrivateKey"):
			return true
		case strings.HasSuffix(n, ".Public"), strings.HasPrefix(n, "crypto/x509.Create"), strings.Contains(n, ".Marshal") && strings.Contains(n, "PublicKey"), strings.HasSuffix(n, ".Sign"):
			return false
		}
	}
	for _, x := range t.Args {
		if secret(x) {
			return true
		}
	}
	return false
}

func isKeyType(t types.Type, name string) bool {
	n, ok := elemOf2(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch p := rel(n.Obj().Pkg().Path()); p {
	case "crypto/sign", "crypto/vrf", "crypto/ecdsa", "crypto/rsa", "crypto/ed25519", "golang.org/x/crypto/ed25519":
		return n.Obj().Name() == name
	}
	return false
}

func propC32(c *Ctx) {
	ro := c.Rule("no overwriting", "a file is written only after it was found not to exist", 5)
	re := c.Rule("failures reported", "whoever runs the command is told of every failure to make, encode or write something", 10)
	rp := c.Rule("permissions", "files with private keys are created with access for their owner only", 3)
	rc := c.Rule("content", "what is written is what was generated or encoded without error", 4)
	rw := c.Rule("one routine", "the common routine writes the given content to the given file with the given permissions, or returns an error", 2)

	// the commands
	roots := map[*ssa.Function]bool{}
	mk := c.fn("cli", "NewInitCommand")
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == mk }) {
		args := s.In.(ssa.CallInstruction).Common().Args
		fs, ok := c.funcVals(args[len(args)-1], 0)
		if !ok || len(fs) == 0 {
			panic(anchorErr{"the function of the init command made at " + c.pos(s.In)})
		}
		for _, f := range fs {
			roots[f] = true
		}
	}
	if len(roots) == 0 {
		panic(anchorErr{"an init command"})
	}
	save := c.fn("application", "SaveSTR")
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == save }) {
		if !isTestHelper(c, s.Fn) {
			roots[s.Fn] = true
		}
	}
	log := func(ev *Event) bool {
		return ev.Kind == "call" && (ev.Name == "encoding/pem.Encode" || strings.HasPrefix(ev.Name, "(*github.com/BurntSushi/toml.Encoder)"))
	}
	for _, f := range c.p.Fns {
		if !roots[f] {
			continue
		}
		e := c.run(f, &Opts{Name: "c32", LogCalls: log, Opaque: func(g *ssa.Function) (bool, bool) {
			p := fnPkg(g)
			if !inRepo(g) {
				return false, false
			}
			in := p == "utils" || strings.HasPrefix(p, "cli") || strings.HasPrefix(p, "application") || g.Synthetic != ""
			if g.Name() == "NewServerBase" || g.Name() == "NewEpochTimer" || isLogFn(g) {
				in = false
			}
			return !in, true
		}})
		for _, x := range e.Exits {
			c.initPath(e, f, x, ro, re, rp, rc)
		}
	}
	c.writeRoutine(rw)
}

func (c *Ctx) initPath(e *Engine, f *ssa.Function, x *Exit, ro, re, rp, rc *Rule) {
	st := x.St
	evs := st.Events()
	// loops are expected to have been unrolled
	for _, le := range st.allEvents() {
		if le.rec != nil && c.fileOp(le.Event) != nil {
			ro.fail("loop in "+fnName(f), le.Pos, "files are written in a loop whose effect is not known")
		}
	}
	files := map[*Term]*Event{} // handle -> how it was opened
	pathOf := map[*Term]*Term{}
	var secrets []*Term
	for i, ev := range evs {
		stat := ev.Kind == "call" && (ev.Name == "os.Stat" || ev.Name == "os.Lstat")
		op := c.fileOp(ev)
		if op == nil && !stat && ev.Name != "crypto/tls.LoadX509KeyPair" || ev.Kind != "call" || ev.Res == nil {
			continue
		}
		err := lastRes(ev)
		name := ev.Name[strings.LastIndex(ev.Name, "/")+1:]
		where := name + " in " + ev.In
		// told between this operation and the next one
		told := func(err *Term) bool {
			if x.Kind == "panic" {
				return true
			}
			for j, o := range evs[i+1:] {
				if !output(o) {
					continue
				}
				if anyArg(o, err) {
					return true
				}
				next := false
				for _, q := range evs[i+1 : i+1+j] {
					if c.fileOp(q) != nil {
						next = true
					}
				}
				if !next && (stat || st.knownNonNil(err)) {
					return true
				}
			}
			return false
		}
		if stat {
			if st.knownNil(err) || st.negFact(func(t *Term) bool { return isNotExist(t, err) }) != nil {
				re.check(told(err), "existing file in "+ev.In, ev.Pos, "a file that exists already is left alone without telling")
			}
			continue
		}
		if op == nil {
			re.check(st.knownNil(err) || told(err), where, ev.Pos, "a failure of %s is not reported", name)
			continue
		}
		path := op.path
		if path == nil && op.handle != nil {
			path = pathOf[op.handle]
		}
		if op.handle != nil && op.path != nil {
			files[op.handle], pathOf[op.handle] = ev, op.path
		}
		fresh := func() bool {
			for _, q := range evs[:i] {
				if q.Kind == "call" && (q.Name == "os.Stat" || q.Name == "os.Lstat") && q.Args[0] == op.path {
					qe := lastRes(q)
					if st.knownNonNil(qe) || st.posFact(func(t *Term) bool { return isNotExist(t, qe) }) != nil {
						return true
					}
				}
				if p := c.fileOp(q); p != nil && p.path == op.path && (p.kind == "create" || p.kind == "open") && st.knownNil(lastRes(q)) {
					return true // made by this command
				}
			}
			return false
		}
		switch op.kind {
		case "create", "remove":
			ro.check(fresh(), where, ev.Pos, "%s may replace or remove a file that exists already", name)
		case "chmod":
			for _, s := range secrets {
				if s == path {
					v, ok := op.perm.Int()
					rp.check(ok && v&077 == 0, where, ev.Pos, "others get access to a file with a private key")
				}
			}
			continue
		}
		// failures
		if !st.knownNil(err) && !told(err) {
			// found out by reading the files back
			ok := false
			for _, q := range evs[i+1:] {
				if q.Kind == "call" && q.Name == "crypto/tls.LoadX509KeyPair" && op.kind == "write" && path != nil && (q.Args[0] == path || q.Args[1] == path) {
					ok = true
				}
			}
			if !ok && op.kind == "write" && st.unreached(x, evs, i) {
				ok = true
			}
			re.check(ok, where, ev.Pos, "a failure of %s is not reported", name)
		} else {
			re.ok("%s (%s)", where, ev.Pos)
		}
		// content
		content := op.content
		if content == nil {
			continue
		}
		if ev.Name == "encoding/pem.Encode" && ev.Pre != nil {
			content = e.sel(ev.Pre, V{content, content.T}, "Bytes").T
		}
		if secret(content) {
			perm := op.perm
			if o := files[op.handle]; perm == nil && o != nil {
				perm = c.fileOp(o).perm
			}
			secrets = append(secrets, path)
			v, ok := int64(0), false
			if perm != nil {
				v, ok = perm.Int()
			}
			rp.check(ok && v&077 == 0, "private key in "+ev.In, ev.Pos, "a private key is written to a file that others may read")
			rp.check(path == nil || !strings.Contains(path.String(), ".pub"), "private key in "+ev.In, ev.Pos, "a private key is written to the file of the public key")
		}
		// the content came from operations that succeeded
		for _, q := range evs[:i] {
			p := c.fileOp(q)
			if p == nil || p.kind != "make" && p.kind != "encode" {
				continue
			}
			var used bool
			if q.Name == "(*github.com/BurntSushi/toml.Encoder).Encode" {
				// filled the buffer that is written
				used = q.In == ev.In || anySub(content, func(t *Term) bool { return t == q.Res })
			} else {
				first := q.Res
				if first.Op == OTuple {
					first = first.Args[0]
				}
				used = anySub(content, func(t *Term) bool { return t == first })
			}
			if used {
				rc.check(st.knownNil(lastRes(q)), where, ev.Pos, "something is written although making it failed")
			}
		}
	}
	if x.Kind == "panic" {
		re.fail("panic in "+fnName(f), x.where(), "the command may end in a panic")
	}
}

// unreached: the command was told of another failure of the same routine
// and did not go on.
func (s *State) unreached(x *Exit, evs []*Event, i int) bool {
	// the routine that failed to write is left with an error that is told
	in := evs[i].In
	for _, q := range evs[i+1:] {
		if q.Kind != "call" || q.Res == nil || q.In != in || !s.knownNonNil(lastRes(q)) {
			continue
		}
		for _, o := range evs[i+1:] {
			if output(o) && anyArg(o, lastRes(q)) {
				return true
			}
		}
	}
	return false
}

func anyArg(ev *Event, t *Term) bool {
	for _, a := range ev.Args {
		if anySub(a, func(s *Term) bool { return s == t }) {
			return true
		}
	}
	return false
}

func isNotExist(t, err *Term) bool {
	if t.Op != OCall || len(t.Args) == 0 || t.Args[0] != err {
		return false
	}
	switch callName(t) {
	case "os.IsNotExist":
		return true
	case "errors.Is":
		return len(t.Args) > 1 && strings.Contains(t.Args[1].String(), "ErrNotExist")
	}
	return false
}

// writeRoutine: what utils.WriteFile and the functions that save things by it
// do with their arguments.
func (c *Ctx) writeRoutine(r *Rule) {
	wf := c.fn("utils", "WriteFile")
	e := c.run(wf, nil)
	for _, x := range e.Exits {
		st := x.St
		if x.Kind != "return" {
			r.fail("WriteFile", x.where(), "writing a file may end in a %s", x.Kind)
			continue
		}
		var ws []*Event
		for _, ev := range st.Events() {
			if op := c.fileOp(ev); op != nil {
				ws = append(ws, ev)
			}
		}
		if st.knownNonNil(x.Res[0]) {
			r.ok("WriteFile refuses (%s)", x.where())
			continue
		}
		ok := false
		var content, perm *Term
		for _, ev := range ws {
			op := c.fileOp(ev)
			if op.path != nil && op.path != e.arg(0).T {
				ok = false
				break
			}
			if op.perm != nil {
				perm = op.perm
			}
			if op.content != nil {
				content = op.content
				ok = st.knownNil(lastRes(ev)) || lastRes(ev) == x.Res[0]
			}
		}
		r.check(ok && content == e.arg(1).T && unConv(perm) == e.arg(2).T, "WriteFile", x.where(), "success is reported without the content having been written to the file with the given permissions")
	}
	for _, f := range c.p.Fns {
		if !inRepo(f) || isTestHelper(c, f) || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !isErrorType(f.Signature.Results().At(0).Type()) || f == wf {
			continue
		}
		direct := false
		for _, s := range c.callSites(func(g *ssa.Function) bool { return g == wf }) {
			direct = direct || s.Fn == f
		}
		if !direct {
			continue
		}
		e := c.run(f, &Opts{Name: "c32w", Opaque: func(g *ssa.Function) (bool, bool) { return true, g == wf }})
		for _, x := range e.Exits {
			if x.Kind != "return" || x.St.knownNonNil(x.Res[0]) {
				continue
			}
			ok := false
			for _, ev := range x.St.Events() {
				if ev.Kind == "call" && fnOf(ev) == wf {
					ok = x.St.knownNil(ev.Res) || ev.Res == x.Res[0]
				}
			}
			r.check(ok, fnName(f), x.where(), "%s reports success without having written the file", fnName(f))
		}
	}
}

func init() {
	checks["C32"] = propC32
	expl["C32"] = "all paths of the initialisation commands and of the saving of the initial root, with every file operation on them"
}
