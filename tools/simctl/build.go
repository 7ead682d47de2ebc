package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Toolchain patches: exact-text replacements in a copy of the Go 1.25 runtime,
// handed to the compiler with -overlay. Every anchor must match, or the build
// stops with an error.

type patch struct{ file, old, new string }

func runtimePatches() []patch {
	return []patch{
		{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	globalRand.state.Init(*seed)\n"},
		{"runtime/rand.go", `	mp := getg().m
	c := &mp.chacha8
	for {
		// Note: c.Next is marked nosplit,
		// so we don't need to use mp.locks
		// on the fast path, which is that the
		// first attempt succeeds.
		x, ok := c.Next()
		if ok {
			return x
		}
		mp.locks++ // hold m even though c.Refill may do stack split checks
		c.Refill()
		mp.locks--
	}
}`, "	return simNext(&simRandState)\n}"},
		{"runtime/rand.go", "	mp.cheaprand = rand()\n", "	mp.cheaprand = bootstrapRand()\n"},
		{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))\n", "		j := simNextn(&simSelState, uint32(norder+1))\n"},
		// channels made before the simulation began block like those made in it
		{"runtime/chan.go", "	reason := waitReasonChanSend\n	if c.bubble != nil {\n", "	reason := waitReasonChanSend\n	if c.bubble != nil || gp.bubble != nil {\n"},
		{"runtime/chan.go", "	reason := waitReasonChanReceive\n	if c.bubble != nil {\n", "	reason := waitReasonChanReceive\n	if c.bubble != nil || gp.bubble != nil {\n"},
		{"runtime/select.go", "		} else {\n			allSynctest = false\n		}\n", "		}\n"},
		{"runtime/select.go", "	if gp.bubble != nil && allSynctest {\n", "	_ = allSynctest\n	if gp.bubble != nil {\n"},
		{"runtime/time.go", "			t.rand = cheaprand()\n", "			t.rand = uint32(simNext(&simTimeState))\n"},
		{"runtime/time.go", "		return sec, nsec, 0\n	}\n	return time_now()\n", "		return sec, nsec, 0\n	}\n	_, _, mono = time_now()\n	return 946684800, 0, mono\n"},
		{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; b != nil {\n		return b.now\n	}\n"},
		{"runtime/runtime2.go", "	waitReasonSynctestRun:           true,\n", "	waitReasonSynctestRun:           true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSemacquire:            true,\n	waitReasonSyncWaitGroupWait:     true,\n"},
		{"runtime/runtime2.go", "	goid         uint64\n	schedlink    guintptr\n", "	goid         uint64\n	simID        uint64\n	simEpoch     uint32\n	simNoMap     int32\n	simTag       int32\n	schedlink    guintptr\n"},
		{"runtime/proc.go", `const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		{"runtime/proc.go", "		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n", "		simChoose(pp, h, t)\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false\n"},
		{"runtime/proc.go", "	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n", "	dropg()\n	if simOn && gp.bubble != nil {\n		runqput(getg().m.p.ptr(), gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n"},
		{"runtime/proc.go", "		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		simGen++\n		newg.simID = simGen\n		newg.simEpoch = 0\n		newg.simNoMap = 0\n		newg.simTag = callergp.simTag\n"},
		{"internal/runtime/maps/runtime.go", "//go:linkname fatal\nfunc fatal(s string)\n", "//go:linkname fatal\nfunc fatal(s string)\n\n//go:linkname simMapWriteYield\nfunc simMapWriteYield()\n"},
		// the order in which children are cancelled must not depend on their addresses
		{"context/context.go", "	children map[canceler]struct{} //", "	children map[canceler]uint64 //"},
		{"context/context.go", "				p.children = make(map[canceler]struct{})\n", "				p.children = make(map[canceler]uint64)\n"},
		{"context/context.go", "			p.children[child] = struct{}{}\n", "			simSeq++\n			p.children[child] = simSeq\n"},
		{"context/context.go", "	for child := range c.children {\n", "	for _, child := range simOrder(c.children) {\n"},
		{"context/context.go", "// A cancelCtx can be canceled. When", `var simSeq uint64

//go:linkname simRand runtime.rand
func simRand() uint64

func simOrder(m map[canceler]uint64) []canceler {
	var l []canceler
	for c := range m {
		l = append(l, c)
	}
	for i := range l {
		for j := i; j > 0 && m[l[j-1]] > m[l[j]]; j-- {
			l[j-1], l[j] = l[j], l[j-1]
		}
	}
	for i := len(l) - 1; i > 0; i-- {
		j := int(simRand() % uint64(i+1))
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// A cancelCtx can be canceled. When`},
		{"context/context.go", "	\"time\"\n)", "	\"time\"\n	_ \"unsafe\"\n)"},
		// and neither must the order in which a server closes its connections
		{"net/http/server.go", "	for c := range s.activeConn {\n		st, unixSec", "	for _, c := range simConns(s.activeConn) {\n		st, unixSec"},
		{"net/http/server.go", "	for c := range s.activeConn {\n		c.rwc.Close()", "	for _, c := range simConns(s.activeConn) {\n		c.rwc.Close()"},
		{"net/http/server.go", "func (s *Server) closeIdleConns() bool {", `func simConns(m map[*conn]struct{}) []*conn {
	var l []*conn
	for c := range m {
		l = append(l, c)
	}
	key := func(c *conn) string { return c.rwc.RemoteAddr().String() }
	for i := range l {
		for j := i; j > 0 && key(l[j-1]) > key(l[j]); j-- {
			l[j-1], l[j] = l[j], l[j-1]
		}
	}
	rand.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (s *Server) closeIdleConns() bool {`},
		{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
		{"os/proc.go", "func runtime_beforeExit(exitCode int) // implemented in runtime\n", "func runtime_beforeExit(exitCode int) // implemented in runtime\n\n// Simulator seams.\nvar (\n	SimExit func(code int)\n	SimOpen func(name string, flag int) error\n	SimStat func(name string) error\n)\n"},
		{"os/file.go", "	testlog.Open(name)\n	f, err := openFileNolog(name, flag, perm)\n", "	testlog.Open(name)\n	if SimOpen != nil {\n		if err := SimOpen(name, flag); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n	f, err := openFileNolog(name, flag, perm)\n"},
		{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"},
		{"net/dial.go", "	if ctx == nil {\n		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n", "	if ctx == nil {\n		panic(\"nil context\")\n	}\n	if SimDial != nil {\n		return SimDial(ctx, d, network, address)\n	}\n	deadline := d.deadline(ctx, time.Now())\n"},
		{"net/dial.go", "func Listen(network, address string) (Listener, error) {\n", "var (\n	SimListen func(network, address string) (Listener, error)\n	SimDial   func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\n)\n\nfunc Listen(network, address string) (Listener, error) {\n"},
	}
}

var mapFiles = []string{"map.go", "runtime_swiss.go", "runtime_fast32_swiss.go", "runtime_fast64_swiss.go", "runtime_faststr_swiss.go"}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simctl: error: "+f+"\n", a...)
	os.Exit(2)
}

func gorootOf(gobin string) string {
	cmd := exec.Command(gobin, "env", "GOROOT")
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local")
	out, err := cmd.Output()
	must(err)
	return strings.TrimSpace(string(out))
}

type buildResult struct {
	Bin   string
	Sites []string // site id -> file:line
	Level int      // instrumentation level actually used
	Hash  string   // hash of the instrumented tree
}

func writeFile(p string, data []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, data, 0o644))
}

// build compiles the simulator against the repository's working tree.
func build(verif, repo, dir string) *buildResult {
	gobin := findGo()
	goroot := gorootOf(gobin)
	must(os.MkdirAll(dir, 0o755))
	overlay := map[string]string{}

	// runtime and standard library seams
	contents := map[string]string{}
	load := func(f string) string {
		if c, ok := contents[f]; ok {
			return c
		}
		bs, err := os.ReadFile(filepath.Join(goroot, "src", f))
		must(err)
		contents[f] = string(bs)
		return contents[f]
	}
	for _, p := range runtimePatches() {
		c := load(p.file)
		if strings.Count(c, p.old) != 1 {
			fatalf("toolchain patch anchor for %s matches %d times (want 1): %q", p.file, strings.Count(c, p.old), p.old)
		}
		contents[p.file] = strings.Replace(c, p.old, p.new, 1)
	}
	for _, f := range mapFiles {
		p := "internal/runtime/maps/" + f
		c := load(p)
		mark := "m.writing ^= 1 // toggle, see comment on writing"
		if !strings.Contains(c, mark) {
			fatalf("no map write marker in %s", p)
		}
		contents[p] = strings.ReplaceAll(c, mark, mark+"\n\tsimMapWriteYield()")
	}
	simrt, err := os.ReadFile(filepath.Join(verif, "rt", "sim.go"))
	must(err)
	contents["runtime/zz_sim.go"] = string(simrt)
	for f, c := range contents {
		dst := filepath.Join(dir, "rt", f)
		writeFile(dst, []byte(c))
		overlay[filepath.Join(goroot, "src", f)] = dst
	}

	var last string
	for level := 2; level >= 0; level-- {
		ov := map[string]string{}
		for k, v := range overlay {
			ov[k] = v
		}
		sites, hash, err := instrument(repo, filepath.Join(dir, fmt.Sprintf("src%d", level)), level, ov)
		if err != nil {
			last = err.Error()
			continue
		}
		ovf := filepath.Join(dir, "overlay.json")
		bs, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
		writeFile(ovf, bs)
		// the harness module, with its go.mod pointed at the repository
		bin := filepath.Join(dir, "ckubesim")
		_ = os.Remove(bin)
		modfile := filepath.Join(dir, "go.mod")
		m, err := os.ReadFile(filepath.Join(verif, "sim", "go.mod"))
		must(err)
		ms := strings.ReplaceAll(string(m), "=> /repo", "=> "+repo)
		ms = strings.ReplaceAll(ms, "=> ./", "=> "+filepath.Join(verif, "sim")+"/")
		writeFile(modfile, []byte(ms))
		sum, err := os.ReadFile(filepath.Join(verif, "sim", "go.sum"))
		must(err)
		writeFile(filepath.Join(dir, "go.sum"), sum)
		cmd := exec.Command(gobin, "build", "-modfile", modfile, "-overlay", ovf, "-o", bin, ".")
		cmd.Dir = filepath.Join(verif, "sim")
		cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOEXPERIMENT=", "GODEBUG=", "GOSUMDB=off")
		out, err := cmd.CombinedOutput()
		if err == nil {
			return &buildResult{Bin: bin, Sites: sites, Level: level, Hash: hash}
		}
		last = string(out)
		if level == 2 && os.Getenv("SIM_VERBOSE") != "" {
			fmt.Fprintln(os.Stderr, last)
		}
	}
	fatalf("cannot build the simulator against %s:\n%s", repo, last)
	return nil
}

func findGo() string {
	for _, c := range []string{"/usr/local/bin/go1.25", "/opt/veriftools/go1.25.14/bin/go"} {
		if _, err := os.Stat(c); err == nil {
			return c
		}
	}
	fatalf("go 1.25 not found")
	return ""
}

// instrument writes copies of the repository's non-test sources with yield
// points and enters them in the overlay. level 2: statements and field reads
// inside expressions; 1: statements; 0: no yield points.
func instrument(repo, dst string, level int, overlay map[string]string) ([]string, string, error) {
	_ = os.RemoveAll(dst)
	sites := []string{"?"}
	h := sha256.New()
	var files []string
	err := filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "vendor" || n == "examples" || n == "testdata" || n == "dist") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return nil, "", err
	}
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, "", err
		}
		rel, _ := filepath.Rel(repo, p)
		h.Write([]byte(rel))
		h.Write(src)
		isMain := strings.HasPrefix(rel, "cmd/cacheproxy/") && strings.Count(rel, "/") == 2
		if strings.HasPrefix(rel, "cmd/") && !isMain {
			if strings.Count(rel, "/") == 2 && (strings.HasPrefix(rel, "cmd/ckubecli/") || strings.HasPrefix(rel, "cmd/ckube-plugin/")) {
				continue
			}
		}
		out, err := instrumentFile(p, rel, src, level, &sites, isMain)
		if err != nil {
			return nil, "", err
		}
		d := filepath.Join(dst, rel)
		if isMain {
			d = filepath.Join(dst, "cmd/zz_sim_cacheproxy", filepath.Base(rel))
			overlay[filepath.Join(repo, "cmd/zz_sim_cacheproxy", filepath.Base(rel))] = d
		} else {
			overlay[p] = d
		}
		writeFile(d, out)
	}
	return sites, hex.EncodeToString(h.Sum(nil))[:16], nil
}

type insertion struct {
	off  int
	text string
	seq  int
}

func instrumentFile(path, rel string, src []byte, level int, sites *[]string, isMain bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	var ins []insertion
	seq := 0
	add := func(pos token.Pos, text string) {
		seq++
		ins = append(ins, insertion{tf.Offset(pos), text, seq})
	}
	imports := map[string]bool{}
	for _, im := range f.Imports {
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		} else {
			v := strings.Trim(im.Path.Value, "\"`")
			parts := strings.Split(v, "/")
			name = parts[len(parts)-1]
			if len(parts) > 1 && len(name) > 1 && name[0] == 'v' && name[1] >= '0' && name[1] <= '9' {
				imports[parts[len(parts)-2]] = true
			}
			if i := strings.Index(name, "."); i > 0 {
				imports[name[:i]] = true
			}
		}
		imports[name] = true
	}
	site := func(pos token.Pos) int {
		*sites = append(*sites, fmt.Sprintf("%s:%d", rel, tf.Line(pos)))
		return len(*sites) - 1
	}
	yieldBefore := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(s.Pos(), fmt.Sprintf("simrt.SimYield(%d);", site(s.Pos())))
		}
	}
	wrap := func(e ast.Expr) {
		sel, ok := e.(*ast.SelectorExpr)
		if !ok || level < 2 {
			return
		}
		x := sel.X
		for {
			if s, ok := x.(*ast.SelectorExpr); ok {
				x = s.X
				continue
			}
			break
		}
		id, ok := x.(*ast.Ident)
		if !ok || imports[id.Name] || (id.Name[0] >= 'A' && id.Name[0] <= 'Z') {
			return
		}
		add(e.Pos(), fmt.Sprintf("simrt.SimYieldV(%d, ", site(e.Pos())))
		add(e.End(), ")")
	}
	if level >= 1 {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				yieldBefore(n.List)
			case *ast.CaseClause:
				yieldBefore(n.Body)
			case *ast.CommClause:
				yieldBefore(n.Body)
			case *ast.ForStmt:
				if n.Body != nil && len(n.Body.List) == 0 {
					add(n.Body.Lbrace+1, fmt.Sprintf("simrt.SimYield(%d)", site(n.Body.Lbrace)))
				}
			case *ast.CompositeLit:
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						wrap(kv.Value)
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "new" || id.Name == "make") {
					return true
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == "unsafe" {
						return true
					}
				}
				for _, a := range n.Args {
					wrap(a)
				}
			}
			return true
		})
	}
	text := src
	// package clause
	hasMain := false
	if isMain {
		add(f.Name.Pos(), "cacheproxysim /* ")
		add(f.Name.End(), " */")
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add(fd.Name.Pos(), "SimMain /* ")
				add(fd.Name.End(), " */")
				hasMain = true
			}
		}
	}
	_ = hasMain
	if level >= 1 {
		add(f.Name.End(), `; import simrt "runtime"`)
	}
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		return ins[i].seq < ins[j].seq
	})
	var out []byte
	prev := 0
	for _, in := range ins {
		out = append(out, text[prev:in.off]...)
		out = append(out, in.text...)
		prev = in.off
	}
	out = append(out, text[prev:]...)
	if level >= 1 {
		out = append(out, "\nvar _ = simrt.SimYield\n"...)
	}
	return out, nil
}
