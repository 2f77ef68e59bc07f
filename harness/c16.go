package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"

	"verif/harness/ref"
)

// A client in a process of its own, so that it can be killed, run out of
// space or be started in odd surroundings.

type clientSpec struct {
	MetaURL, TargURL string
	MetaDir, TargDir string
	Root             []byte
	Cfg              ref.Cfg
	Docs             map[string]*ref.Resp
	Ops              []clientOp
	Die              bool // a write beyond the limit ends the process
	RmCwd            bool
	Free             bool // does not wait between the operations
}

type clientOp struct{ Kind, Arg, Dest string }

type clientRes struct {
	OK   bool
	Err  string
	Path string
	Data []byte
	Len  int64
}

func init() {
	auxModes["client"] = func(args []string) {
		var sp clientSpec
		b, err := os.ReadFile(args[0])
		if err == nil {
			err = json.Unmarshal(b, &sp)
		}
		if err != nil {
			die("%v", err)
		}
		signal.Ignore(syscall.SIGXFSZ)
		if sp.Die {
			// the system's own action: the process ends within the write
			var sa [4]uint64
			if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&sa[0])), 0, 8, 0, 0); e != 0 {
				die("sigaction: %v", e)
			}
			syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		}
		if sp.RmCwd {
			if d, err := os.Getwd(); err == nil {
				os.Remove(d)
			}
		}
		in := bufio.NewReader(os.Stdin)
		say := func(k string, v any) {
			b, _ := json.Marshal(v)
			os.Stdout.Write([]byte(k + " " + string(b) + "\n"))
			if k == "R" && !sp.Free {
				in.ReadString('\n')
			}
		}
		srv := &memSrv{f: func(u string) *ref.Resp {
			say("F", u)
			return sp.Docs[u]
		}}
		var u *updater.Updater
		for _, op := range sp.Ops {
			res := clientRes{}
			switch op.Kind {
			case "new":
				cfg, e := config.New(sp.MetaURL, sp.Root)
				if e != nil {
					die("%v", e)
				}
				mc := sp.Cfg
				cfg.Fetcher = srv
				cfg.LocalMetadataDir, cfg.LocalTargetsDir = sp.MetaDir, sp.TargDir
				cfg.RemoteTargetsURL = sp.TargURL
				cfg.MaxRootRotations, cfg.MaxDelegations = mc.MaxRoot, mc.MaxDeleg
				cfg.RootMaxLength, cfg.TimestampMaxLength, cfg.SnapshotMaxLength, cfg.TargetsMaxLength = mc.RootMax, mc.TimestampMax, mc.SnapMax, mc.TargMax
				cfg.DisableLocalCache, cfg.UnsafeLocalMode, cfg.PrefixTargetsWithHash = mc.NoCache, mc.Local, mc.Prefix
				u, err = updater.New(cfg)
			case "refresh":
				err = u.Refresh()
			case "lookup":
				tf, e := u.GetTargetInfo(op.Arg)
				if err = e; e == nil {
					res.Len = tf.Length
				}
			case "download":
				tf, e := u.GetTargetInfo(op.Arg)
				if err = e; e == nil {
					res.Path, res.Data, err = u.DownloadTarget(tf, op.Dest, "")
				}
			case "limit":
				var n uint64
				fmt.Sscan(op.Arg, &n)
				err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
			}
			res.OK = err == nil
			if err != nil {
				res.Err = err.Error()
			}
			say("R", res)
			if op.Kind == "new" && err != nil {
				return
			}
		}
	}
}

type clientProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

func startClient(c *Case, sp *clientSpec, cwd string, env ...string) *clientProc {
	p := filepath.Join(c.Dir(), "spec.json")
	b, err := json.Marshal(sp)
	if err == nil {
		err = os.WriteFile(p, b, 0600)
	}
	if err != nil {
		panic(err)
	}
	x := &clientProc{cmd: exec.Command(selfPath(), "-aux", "client", p)}
	x.cmd.Dir = cwd
	x.cmd.Env = append(append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single"), env...)
	x.cmd.Stderr = &limitWriter{b: &x.err, max: 1 << 16}
	x.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	x.in, _ = x.cmd.StdinPipe()
	o, _ := x.cmd.StdoutPipe()
	x.out = bufio.NewReaderSize(o, 1<<16)
	if err := x.cmd.Start(); err != nil {
		panic(err)
	}
	return x
}

// result reads up to the end of the next operation; ok is false when the
// process has ended.
func (x *clientProc) result() (r clientRes, fetched []string, ok bool) {
	for {
		l, err := x.out.ReadString('\n')
		if err != nil {
			return r, fetched, false
		}
		switch {
		case strings.HasPrefix(l, "F "):
			var u string
			json.Unmarshal([]byte(l[2:]), &u)
			fetched = append(fetched, u)
		case strings.HasPrefix(l, "R "):
			json.Unmarshal([]byte(l[2:]), &r)
			return r, fetched, true
		}
	}
}

func (x *clientProc) next() { io.WriteString(x.in, "\n") }

func (x *clientProc) end() {
	x.in.Close()
	io.Copy(io.Discard, x.out)
	x.cmd.Wait()
}

// panicked tells a crash of the Go code from the signals sent on purpose.
func (x *clientProc) panicked() string {
	s := x.err.String()
	if i := strings.Index(s, "panic: "); i >= 0 {
		return s[i:]
	}
	return ""
}

type faultWorld struct {
	c     *Case
	w     *uWorld
	mc    ref.Cfg
	sp    *clientSpec
	desc  string
	cache map[string][]byte
	names []string
}

func newFaultWorld(c *Case, prof uProfile, big bool) *faultWorld {
	r := c.Rng
	w := newUWorld(c, prof)
	p := w.p
	f := &faultWorld{c: c, w: w, mc: defaultCfg()}
	f.mc.Prefix = !chance(r, 0.3)
	if big {
		// documents which take a while to write
		for _, n := range p.Order {
			if chance(r, 0.5) {
				d := p.Roles[n]
				d.Pad = strings.Repeat("0123456789abcdef", r.Intn(150000))
				d.dirty = true
			}
		}
		p.Publish()
		w.publishState()
	}
	for _, n := range p.Order {
		f.names = append(f.names, ref.SortedKeys(p.Roles[n].Targets)...)
	}
	f.names = append(f.names, "no-such-target")
	// an earlier session
	if chance(r, 0.75) {
		s, ok := w.open(p.Roots[0], f.mc, serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil), nil, "earlier session")
		if ok && s.refresh() {
			for k := r.Intn(4); k > 0; k-- {
				if _, ok := s.lookup(pick(r, f.names)); !ok {
					break
				}
			}
		}
		f.desc = "with earlier cache"
		for k := 1 + r.Intn(3); k > 0; k-- {
			p.Evolve()
			w.publishState()
		}
		if chance(r, 0.4) {
			p.RotateSome()
			p.Publish()
			w.publishState()
		}
	}
	st := w.states[len(w.states)-1]
	if chance(r, 0.2) {
		st, _ = w.evilState([]int{0, 0, 0, 1})
		f.desc += " crafted metadata"
	}
	f.sp = &clientSpec{MetaURL: w.metaURL, TargURL: w.targURL, MetaDir: w.metaDir, TargDir: w.targDir, Root: p.Roots[0], Cfg: f.mc, Docs: map[string]*ref.Resp{}}
	for n, b := range st.Files {
		f.sp.Docs[withSlash(w.metaURL)+n] = &ref.Resp{Status: 200, Data: b}
	}
	for n, b := range st.TFiles {
		f.sp.Docs[withSlash(w.targURL)+n] = &ref.Resp{Status: 200, Data: b}
	}
	f.cache = readDir(w.metaDir)
	return f
}

func (f *faultWorld) model() (*ref.Session, ref.Res) {
	mc := f.mc
	mc.MetaURL, mc.TargetsURL = f.w.metaURL, f.w.targURL
	return ref.NewSession(mc, f.sp.Root, f.cache, func(u string) *ref.Resp { return f.sp.Docs[u] }, time.Now())
}

// published checks that what is in the metadata directory is, file by file,
// the previous or a verified document.
func (f *faultWorld) published(m *ref.Session, when string, crash bool, skip string) bool {
	c := f.c
	got := readDir(f.sp.MetaDir)
	c.Count("cache states inspected")
	for _, n := range ref.SortedKeys(f.cache) {
		if _, ok := got[n]; !ok && n != skip {
			c.FailTags(Tags{"C16"}, "lost:"+cacheKind(n), "%s: %s is gone (%s)", when, n, f.desc)
			return false
		}
	}
	for _, n := range ref.SortedKeys(got) {
		if n == skip {
			continue
		}
		old, known := f.cache[n]
		ok := known && bytes.Equal(got[n], old)
		for _, d := range m.Persisted[n] {
			known = true
			ok = ok || bytes.Equal(got[n], d)
		}
		if !known {
			if crash && !strings.HasSuffix(n, ".json") {
				c.Count("temporary files after a crash")
				continue
			}
			c.FailTags(Tags{"C16"}, "stray:"+cacheKind(n), "%s: %s (%d bytes) is left in the metadata directory (%s)", when, n, len(got[n]), f.desc)
			return false
		}
		if !ok {
			c.FailTags(Tags{"C16"}, "torn:"+cacheKind(n), "%s: %s holds %s, neither the previous nor a verified document (%s)", when, n, docDesc(got[n]), f.desc)
			return false
		}
		if !bytes.Equal(got[n], old) {
			c.Count("new documents seen")
		} else {
			c.Count("old documents seen")
		}
	}
	return true
}

func sameCache(got, want map[string][]byte) string {
	for _, n := range ref.SortedKeys(want) {
		if g, ok := got[n]; !ok {
			return n + " is missing"
		} else if !bytes.Equal(g, want[n]) {
			return n + " holds " + docDesc(g) + ", expected " + docDesc(want[n])
		}
	}
	for _, n := range ref.SortedKeys(got) {
		if _, ok := want[n]; !ok {
			return n + " is there"
		}
	}
	return ""
}

// again runs one more session, undisturbed, and compares it in full.
func (f *faultWorld) again() {
	w, c := f.w, f.c
	for n := range readDir(w.metaDir) {
		if !strings.HasSuffix(n, ".json") {
			os.Remove(filepath.Join(w.metaDir, n))
		}
	}
	s, ok := w.open(f.sp.Root, f.mc, serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil), Tags{"C16", "C15"}, "session after "+f.desc)
	if !ok {
		if !c.failed {
			c.FailTags(Tags{"C16", "C15"}, "after", "no client can be opened after %s", f.desc)
		}
		return
	}
	if s.refresh() {
		for k := 0; k < 2; k++ {
			if _, ok := s.lookup(pick(c.Rng, f.names)); !ok {
				return
			}
		}
		c.Count("sessions after a fault")
	}
}

func (f *faultWorld) ops() []clientOp {
	ops := []clientOp{{Kind: "new"}, {Kind: "refresh"}}
	for k := f.c.Rng.Intn(5); k > 0; k-- {
		ops = append(ops, clientOp{Kind: "lookup", Arg: pick(f.c.Rng, f.names)})
	}
	return ops
}

func modelOp(m *ref.Session, op clientOp) ref.Res {
	switch op.Kind {
	case "refresh":
		return m.Refresh()
	case "lookup":
		return m.Lookup(op.Arg)
	}
	return ref.Res{}
}

// noSpaceCase: writing fails.
func noSpaceCase(c *Case) {
	r := c.Rng
	f := newFaultWorld(c, uProfile{delegs: 4, odd: 0.3, succinct: 0.2}, false)
	how := pick(r, []string{"limit", "limit", "limit", "die", "die", "unwritable", "blocked"})
	m, res := f.model()
	f.sp.Ops = f.ops()
	var sizes []int
	for _, u := range ref.SortedKeys(f.sp.Docs) {
		if strings.HasPrefix(u, withSlash(f.w.metaURL)) && strings.HasSuffix(u, ".json") {
			sizes = append(sizes, len(f.sp.Docs[u].Data))
		}
	}
	skip := ""
	f.desc += " fault:" + how
	switch how {
	case "limit", "die":
		n := pick(r, append(sizes, 0, 1)) - 1 - r.Intn(3)*r.Intn(200)
		if n < 0 {
			n = 0
		}
		at := r.Intn(3)
		f.sp.Ops = append(f.sp.Ops[:at:at], append([]clientOp{{Kind: "limit", Arg: fmt.Sprint(n)}}, f.sp.Ops[at:]...)...)
		f.sp.Die = how == "die"
		f.desc += fmt.Sprintf(" %d before operation %d", n, at)
	case "unwritable":
		if os.Geteuid() == 0 {
			return
		}
		os.MkdirAll(f.w.metaDir, 0755)
		os.Chmod(f.w.metaDir, 0555)
		defer os.Chmod(f.w.metaDir, 0755)
	case "blocked": // a directory stands where a file should go
		skip = ref.FileName(pick(r, append([]string{"timestamp", "snapshot", "root"}, f.w.p.Order...)))
		p := filepath.Join(f.w.metaDir, skip)
		os.Remove(p)
		os.MkdirAll(p, 0755)
		f.desc += " " + skip
		delete(f.cache, skip)
		m, res = f.model()
	}
	x := startClient(c, f.sp, c.Dir())
	defer x.end()
	for i, op := range f.sp.Ops {
		got, _, alive := x.result()
		c.Eval()
		if op.Kind != "limit" && op.Kind != "new" {
			res = modelOp(m, op)
		}
		when := fmt.Sprintf("after operation %d (%s %q)", i, op.Kind, op.Arg)
		if !alive {
			if how != "die" {
				x.end()
				c.FailTags(Tags{"C16", "C04"}, "died:"+how, "%s: the client has ended: %s (%s)", when, shortHead(x.err.String()), f.desc)
				return
			}
			c.Count("clients ended in the middle of a write")
			c.Distinct(how, op.Kind, i, len(f.cache) > 0)
			f.published(m, when, true, skip)
			break
		}
		c.Logf("%s: %+v model %s", when, got.Err, res)
		if !f.published(m, when, false, skip) {
			return
		}
		if op.Kind == "limit" {
			x.next()
			continue
		}
		if _, has := m.Cache[skip]; got.OK && how == "blocked" && has {
			c.FailTags(Tags{"C16"}, "success-not-saved", "%s: succeeds, but %q can not have been saved (%s)", when, skip, f.desc)
			return
		}
		if how == "blocked" && got.OK != res.OK() {
			if _, has := m.Cache[skip]; !has {
				c.FailTags(Tags{"C16", "C15"}, "blocked-other", "%s: %v, expected %s; the blocked %q is not used (%s)", when, got.Err, res, skip, f.desc)
				return
			}
		}
		if got.OK && how != "blocked" {
			if !res.OK() {
				c.FailTags(Tags{"C16"}, "fault-accept", "%s: succeeds, expected %s (%s)", when, res, f.desc)
				return
			}
			if d := sameCache(readDir(f.w.metaDir), m.Cache); d != "" {
				c.FailTags(Tags{"C16"}, "success-not-saved", "%s: succeeds, but %s (%s)", when, d, f.desc)
				return
			}
		}
		c.Distinct(how, op.Kind, i, len(f.cache) > 0, got.OK, res.OK())
		if !got.OK && res.OK() {
			c.Count("operations failed for lack of space")
		}
		if !got.OK {
			break // possibly for lack of space
		}
		x.next()
	}
	if how == "unwritable" {
		os.Chmod(f.w.metaDir, 0755)
	}
	x.end()
	if p := x.panicked(); p != "" {
		c.FailTags(Tags{"C16", "C04"}, "panic", "the client ends with %s (%s)", shortHead(p), f.desc)
		return
	}
	if skip != "" {
		os.RemoveAll(filepath.Join(f.w.metaDir, skip))
	}
	f.again()
}

func shortHead(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// killCase: the process is killed at some point of a session.
func killCase(c *Case) {
	r := c.Rng
	f := newFaultWorld(c, uProfile{delegs: 3, odd: 0.2}, chance(r, 0.7))
	f.sp.Ops = f.ops()
	f.sp.Free = true
	m, _ := f.model()
	for _, op := range f.sp.Ops {
		if res := modelOp(m, op); !res.OK() && op.Kind == "refresh" {
			break
		}
	}
	at := r.Intn(len(m.Reqs) + 1)
	delay := time.Duration(r.Intn(pick(r, []int{50, 500, 3000, 10000}))) * time.Microsecond
	f.desc += fmt.Sprintf(" killed %v after request %d", delay, at)
	x := startClient(c, f.sp, c.Dir())
	seen := 0
	for seen < at {
		l, err := x.out.ReadString('\n')
		if err != nil {
			break
		}
		if strings.HasPrefix(l, "F ") {
			seen++
		}
	}
	time.Sleep(delay)
	x.cmd.Process.Kill()
	x.end()
	c.Eval()
	if p := x.panicked(); p != "" {
		c.FailTags(Tags{"C16", "C04"}, "panic", "the client ends with %s (%s)", shortHead(p), f.desc)
		return
	}
	c.Count("clients killed")
	if !f.published(m, "after the kill", true, "") {
		return
	}
	n := 0
	got := readDir(f.w.metaDir)
	for k, b := range got {
		if !bytes.Equal(b, f.cache[k]) {
			n++
		}
	}
	c.Distinct("kill", seen, n, len(f.cache), len(got))
	c.Logf("%s: %d files new", f.desc, n)
	f.again()
}

// placeCase: odd working directory, temporary directory and relative paths.
func placeCase(c *Case) {
	r := c.Rng
	f := newFaultWorld(c, uProfile{delegs: 5, odd: 0.7, succinct: 0.3}, false)
	for _, d := range []string{"cwd", "tmp", "home", "out"} {
		os.MkdirAll(filepath.Join(c.Dir(), d), 0755)
	}
	cwd := filepath.Join(c.Dir(), "cwd")
	env := []string{"TMPDIR=" + filepath.Join(c.Dir(), "tmp"), "HOME=" + filepath.Join(c.Dir(), "home"), "XDG_CACHE_HOME=" + filepath.Join(c.Dir(), "home")}
	how := pick(r, []string{"plain", "plain", "removed cwd", "read-only cwd", "no TMPDIR", "read-only TMPDIR", "TMPDIR is a file", "relative", "relative", "missing dirs", "no cache"})
	f.desc += " place:" + how
	switch how {
	case "removed cwd":
		f.sp.RmCwd = true
	case "read-only cwd":
		os.Chmod(cwd, 0555)
		defer os.Chmod(cwd, 0755)
	case "no TMPDIR":
		env[0] += "/missing/dir"
	case "read-only TMPDIR":
		os.Chmod(filepath.Join(c.Dir(), "tmp"), 0555)
		defer os.Chmod(filepath.Join(c.Dir(), "tmp"), 0755)
	case "TMPDIR is a file":
		env[0] += "/f"
		os.WriteFile(filepath.Join(c.Dir(), "tmp", "f"), nil, 0644)
	case "relative":
		f.sp.MetaDir, f.sp.TargDir = "../m", "../t"
		if chance(r, 0.5) {
			f.sp.MetaDir, f.sp.TargDir = "./../m/", "..//t/."
		}
	case "missing dirs":
		f.w.metaDir = filepath.Join(c.Dir(), "n1", "n2", "m")
		f.w.targDir = filepath.Join(c.Dir(), "n3", "t")
		f.sp.MetaDir, f.sp.TargDir = f.w.metaDir, f.w.targDir
		f.cache = map[string][]byte{}
	case "no cache":
		f.mc.NoCache = true
		f.sp.Cfg = f.mc
	}
	f.sp.Ops = f.ops()
	for k := r.Intn(4); k > 0; k-- {
		op := clientOp{Kind: "download", Arg: pick(r, f.names)}
		if chance(r, 0.4) {
			op.Dest = filepath.Join(c.Dir(), "out", fmt.Sprint("x", k))
			if how == "relative" || how == "plain" {
				op.Dest = filepath.Join("..", "out", fmt.Sprint("x", k))
			}
		}
		f.sp.Ops = append(f.sp.Ops, op)
	}
	outside := func() map[string]string {
		t := snapTree(c.Dir())
		for k := range t {
			rel, _ := filepath.Rel(c.Dir(), k)
			for _, d := range []string{f.w.metaDir, f.w.targDir} {
				if k == d || strings.HasPrefix(k, d+"/") {
					if !f.mc.NoCache {
						delete(t, k)
					}
				}
			}
			if rel == "spec.json" || rel == "n1" || rel == "n1/n2" || rel == "n3" || rel == "cwd" && how == "removed cwd" {
				delete(t, k)
			}
		}
		return t
	}
	before := outside()
	x := startClient(c, f.sp, cwd, env...)
	defer x.end()
	m, res := f.model()
	tdir := map[string]string{} // file -> target path
	for i, op := range f.sp.Ops {
		got, _, alive := x.result()
		c.Eval()
		c.Count("operations in odd places")
		when := fmt.Sprintf("operation %d (%s %q -> %q)", i, op.Kind, op.Arg, op.Dest)
		if !alive {
			x.end()
			c.FailTags(Tags{"C16", "C17", "C04"}, "died", "%s: the client has ended: %s (%s)", when, shortHead(x.err.String()), f.desc)
			return
		}
		var tgt *ref.Resp
		switch op.Kind {
		case "new":
		case "download":
			res = m.Lookup(op.Arg)
			if res.OK() {
				for _, u := range m.TargetURLs(op.Arg, res.Target, "") {
					if d := f.sp.Docs[u]; d != nil {
						tgt = d
					}
				}
				if tgt == nil {
					res = ref.Res{Kind: ref.EHTTP}
				} else if int64(len(tgt.Data)) != res.Target.Length || !ref.HashesOK(res.Target.Hashes, tgt.Data) {
					res = ref.Res{Kind: ref.EReject}
				}
				if !res.OK() {
					tgt = nil
				}
			}
		default:
			res = modelOp(m, op)
		}
		c.Logf("%s: %v, model %s", when, got.Err, res)
		c.Distinct("place", how, op.Kind, op.Dest == "", res.OK(), len(f.cache) > 0)
		if got.OK != res.OK() {
			c.FailTags(Tags{"C16", "C17", "C24"}, "place:"+how+":"+op.Kind, "%s: got %q, expected %s (%s)", when, got.Err, res, f.desc)
			return
		}
		if f.mc.NoCache {
			tgt = nil
		}
		if tgt != nil {
			gp := got.Path
			if !filepath.IsAbs(gp) {
				gp = filepath.Join(cwd, gp)
			}
			if op.Dest != "" {
				b, _ := os.ReadFile(gp)
				if !bytes.Equal(b, tgt.Data) || filepath.Dir(gp) != filepath.Join(c.Dir(), "out") {
					c.FailTags(Tags{"C13", "C17"}, "place-dest", "%s: delivered at %q (%s)", when, got.Path, f.desc)
					return
				}
				before[gp] = "file:" + string(tgt.Data)
			} else {
				if filepath.Dir(gp) != f.w.targDir {
					c.FailTags(Tags{"C13", "C17"}, "place-default", "%s: delivered at %q, outside %q (%s)", when, got.Path, f.w.targDir, f.desc)
					return
				}
				if o, ok := tdir[gp]; ok && o != op.Arg {
					c.FailTags(Tags{"C13", "C17"}, "place-shared", "%s: shares %q with %q (%s)", when, got.Path, o, f.desc)
					return
				}
				tdir[gp] = op.Arg
			}
		}
		if d := diffTree(before, outside()); d != "" {
			c.FailTags(Tags{"C17"}, "place-outside:"+how, "%s: %s (%s)", when, d, f.desc)
			return
		}
		if d := sameCache(readDir(f.w.metaDir), m.Cache); d != "" {
			c.FailTags(Tags{"C16", "C17"}, "place-cache:"+how, "%s: metadata directory: %s (%s)", when, d, f.desc)
			return
		}
		for n := range readDir(f.w.targDir) {
			if tdir[filepath.Join(f.w.targDir, n)] == "" {
				c.FailTags(Tags{"C17"}, "place-targets", "%s: %q appears in the targets directory (%s)", when, n, f.desc)
				return
			}
		}
		if !got.OK && (op.Kind == "new" || op.Kind == "refresh") {
			return
		}
		x.next()
	}
	c.Count("sessions in odd places")
	c.Sample(map[string]any{"trace": c.trace})
}

func init() {
	registry["C16"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "sessions with damaged caches, damaged answers and crafted metadata, with every event on the files of the metadata directory observed while they run; sessions in a process which is killed at some moment, ended in the middle of a write, or denied space or permission; sessions in odd working and temporary directories; each file of the cache compared with the previous document and the documents the client model verifies; non-trivial cases are distinct combinations of operation, outcome and fault",
		F: func(r *Run) {
			prof := uFiles
			prof.watch = true
			uRun(r, "watch", r.N(700, 20000), prof)
			r.Cases("nospace", r.N(500, 12000), noSpaceCase)
			r.Cases("kill", r.N(400, 15000), killCase)
			r.Cases("place", r.N(300, 8000), placeCase)
			r.Need("events on published files", 1000)
			r.Need("files replaced as a whole", 1000)
			r.Need("published contents observed", 1000)
			r.Need("operations failed for lack of space", 60)
			r.Need("clients ended in the middle of a write", 40)
			r.Need("clients killed", 350)
			r.Need("new documents seen", 300)
			r.Need("old documents seen", 300)
			r.Need("sessions after a fault", 500)
			r.Need("sessions in odd places", 150)
		}}
}
