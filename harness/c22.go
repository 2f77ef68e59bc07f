package main

import (
	"bytes"
	"context"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/harness/ref"
)

// C22: histories of commands of the real command-line client, each in a
// process of its own, against a server on the loopback interface.

type cliWorld struct {
	*uWorld
	bin    string
	cwd    string // the user's folder
	loop   *loopServer
	rep    *loopRepo
	seg    string
	init   bool
	honest bool
	said   string
}

const (
	cliMeta = "tuf_metadata"
	cliDown = "tuf_download"
)

// run executes one command and returns its exit status.
func (w *cliWorld) run(stdin string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, w.bin, args...)
	cmd.Dir = w.cwd
	cmd.Env = []string{"HOME=" + w.c.Dir(), "TMPDIR=" + os.TempDir(), "PATH=/usr/bin:/bin"}
	cmd.Stdin = strings.NewReader(stdin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	w.c.Eval()
	w.c.Count("commands run")
	code := cmd.ProcessState.ExitCode()
	said := out.String()
	if len(said) > 600 {
		said = said[:300] + " ... " + said[len(said)-300:]
	}
	w.said = said
	w.c.Logf("  %q stdin %q: exit %d", args, stdin, code)
	if ctx.Err() != nil {
		w.c.Fail("hang:"+args[0], "%q does not end", args)
	} else if strings.Contains(out.String(), "goroutine ") && strings.Contains(out.String(), "panic") {
		w.c.Fail("panic:"+args[0], "%q: %s", args, said)
	}
	_ = err
	return code, said
}

// tree of the case directory, with the parts below cut replaced by nothing.
func (w *cliWorld) tree(cut ...string) map[string]string {
	t := snapTree(w.c.Dir())
	for k := range t {
		for _, x := range cut {
			x = filepath.Join(w.cwd, x)
			if k == x || strings.HasPrefix(k, x+"/") {
				delete(t, k)
			}
		}
	}
	return t
}

// serveNow decides what the server answers to the next command.
func (w *cliWorld) serveNow() (ref.Server, string) {
	r := w.c.Rng
	st := w.states[len(w.states)-1]
	desc := "newest"
	var over map[string]*ref.Resp
	x := r.Float64()
	if w.honest && x >= 0.45 && chance(r, 0.8) {
		x = 0
	}
	switch {
	case x < 0.45:
	case x < 0.55:
		st, desc = pick(r, w.states), "older state"
	case x < 0.65:
		st, desc = w.mixedState(), "mixed state"
	case x < 0.8:
		over, desc = w.netOverrides(st)
	case x < 0.95:
		st, desc = w.evilState([]int{0, 0, 1, 1, 2})
	default:
		st, desc = &State{}, "nothing"
	}
	f := serve(w.metaURL, w.targURL, st, over)
	dmg := map[string]*ref.Resp{}
	if chance(r, 0.35) && !(w.honest && chance(r, 0.7)) {
		// damaged or missing target files
		for _, n := range ref.SortedKeys(st.TFiles) {
			b := st.TFiles[n]
			u := withSlash(w.targURL) + n
			switch r.Intn(9) {
			case 0:
				dmg[u] = &ref.Resp{Status: 200, Data: append(append([]byte{}, b...), 'x')}
			case 1:
				if len(b) > 0 {
					dmg[u] = &ref.Resp{Status: 200, Data: b[:r.Intn(len(b))]}
				}
			case 2:
				if len(b) > 0 {
					x := append([]byte{}, b...)
					x[r.Intn(len(x))] ^= 1 << r.Intn(8)
					dmg[u] = &ref.Resp{Status: 200, Data: x}
				}
			case 3:
				dmg[u] = &ref.Resp{Status: pick(r, []int{403, 404, 500})}
			case 4:
				dmg[u] = &ref.Resp{}
			case 5:
				dmg[u] = &ref.Resp{Status: 200, Data: []byte{}}
			}
		}
		desc += ", target files damaged"
	}
	srv := func(u string) *ref.Resp {
		for _, v := range []string{u, unescaped(u)} {
			if x, ok := dmg[v]; ok {
				return x
			}
			if x := f(v); x != nil {
				return x
			}
		}
		return nil
	}
	w.rep.mu.Lock()
	w.rep.f, w.rep.log = srv, nil
	w.rep.mu.Unlock()
	return srv, desc
}

func unescaped(u string) string {
	if d, err := url.PathUnescape(u); err == nil {
		return d
	}
	return u
}

func (w *cliWorld) requests() int {
	w.rep.mu.Lock()
	defer w.rep.mu.Unlock()
	return len(w.rep.log)
}

// Failed tells whether something was found in this case.
func (c *Case) Failed() bool { return c.failed }

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

func (w *cliWorld) initCmd() {
	c, r := w.c, w.c.Rng
	srv, desc := w.serveNow()
	p := w.p
	args := []string{"init", "-u", w.metaURL}
	if chance(r, 0.2) {
		args = []string{"-u=" + w.metaURL, pick(r, []string{"i", "init"}), "-v"}
	}
	given := ""
	var root []byte
	unreadable := false
	if chance(r, 0.65) {
		// a root file of the user's, valid or not
		root = p.Roots[r.Intn(len(p.Roots))]
		what := "valid"
		switch r.Intn(10) {
		case 0:
			d := p.RootDocs[len(p.RootDocs)-1].Clone()
			o, s := p.craftSig(d, p.Top["root"].Keys, p.Top["root"].Threshold, p.strangers("root"))
			root, what = o.Bytes(p.fmt()), "sig:"+s
		case 1:
			root, what = bitFlip(r, root), "bit flip"
		case 2:
			root, what = root[:r.Intn(len(root))], "truncated"
		case 3:
			root, what = p.Files["timestamp.json"], "timestamp"
		case 4:
			root, what = pick(r, [][]byte{{}, []byte("{}"), []byte("null"), []byte("[]")}), "junk"
		case 5:
			root, what = expiredRoot(p), "expired"
		}
		desc = "given " + what + " root"
		given = pick(r, []string{"root.json", "root.json", "root.json", "root.json", "root.json", "root.json", "root.json", "root.json", "trusted.json", "keys/root.json", "keys/1.root.json", "./root.json", w.cwd + "/root.json"})
		path := given
		if !filepath.IsAbs(path) {
			path = filepath.Join(w.cwd, given)
		}
		os.MkdirAll(filepath.Dir(path), 0755)
		os.WriteFile(path, root, 0644)
		defer os.Remove(path)
		if chance(r, 0.04) {
			os.Remove(path)
			unreadable, desc = true, "missing root file"
		}
		args = append(args, pick(r, []string{"-f", "--file"}), given)
	} else {
		if x := srv(w.metaURL + "/1.root.json"); x != nil && x.Status == 200 {
			root = x.Data
		} else {
			unreadable = true
			if x != nil && x.Status != 0 && len(x.Data) > 0 {
				return
			}
		}
		desc = "downloaded root, " + desc
	}
	meta, down := filepath.Join(w.cwd, cliMeta), filepath.Join(w.cwd, cliDown)
	stale := exists(meta) || exists(down)
	rootFile := filepath.Join(meta, "root.json")
	oldRoot, _ := os.ReadFile(rootFile)
	hadRoot := exists(rootFile)
	before, inMeta := w.tree(cliMeta, cliDown), readDir(meta)
	code, said := w.run("", args...)
	after := w.tree(cliMeta, cliDown)
	nowRoot, rerr := os.ReadFile(rootFile)
	valid := false
	if !unreadable {
		_, o := ref.NewTrust(root, time.Now().UTC())
		valid = o.OK
	}
	full := fmt.Sprintf("%q (%s, folders present before: %v)", args, desc, stale)
	c.Logf("    %s valid=%v", full, valid)
	c.Distinct("init", code, desc, stale, given)
	if given != "" && filepath.Clean(given) != "root.json" && !stale && valid && !(code == 0 && bytes.Equal(nowRoot, root) && rerr == nil) {
		// the root goes to the path it was given at, below the metadata folder
		k := "init-file:other"
		x, err := os.ReadFile(filepath.Join(meta, given))
		switch {
		case code == 0 && !exists(rootFile) && err == nil && bytes.Equal(x, root):
			k = "init-file:stored-under-the-given-path"
		case code != 0 && !exists(rootFile) && strings.Contains(filepath.Clean(given), "/") && diffTree(before, after) == "" && len(readDir(meta)) == 0:
			k = "init-file:fails-for-a-path-with-folders"
		}
		bad := c.Failed()
		c.Fail(k, "%s: exit %d, the given valid root is not established as %s/root.json: %s", full, code, cliMeta, strings.TrimSpace(said))
		if !bad && k != "init-file:other" {
			c.failed = false
		}
		c.Count("init with a file not called root.json")
		os.RemoveAll(meta)
		os.RemoveAll(down)
		return
	}
	if code == 0 && !valid {
		c.Fail("init:accepts", "%s succeeds with an invalid root", full)
		return
	}
	if code == 0 && (rerr != nil || !bytes.Equal(nowRoot, root)) {
		c.Fail("init:other-root", "%s succeeds but %s/root.json is not the given root", full, cliMeta)
		return
	}
	if code == 0 {
		w.init = true
		c.Count("init succeeded")
		if !exists(down) {
			c.Fail("init:folders", "%s succeeds without a download folder", full)
			return
		}
		if !stale {
			for n := range readDir(meta) {
				if n != "root.json" {
					c.Fail("init:extra", "%s leaves %s in the metadata folder", full, n)
				}
			}
		}
	} else {
		c.Count("init refused")
		if valid && !stale {
			c.Fail("init:refuses", "%s fails (exit %d): %s", full, code, strings.TrimSpace(said))
			return
		}
		if hadRoot && !bytes.Equal(nowRoot, oldRoot) {
			c.Fail("init:replaced", "%s fails but changes the trusted root", full)
			return
		}
		if given != "" && !hadRoot && rerr == nil {
			c.Fail("init:stored", "%s fails but stores a root", full)
			return
		}
		if stale && exists(meta) {
			for n, b := range inMeta {
				x, err := os.ReadFile(filepath.Join(meta, n))
				if n != "root.json" && (err != nil || !bytes.Equal(x, b)) {
					c.Fail("init:cache", "%s fails but changes %s", full, n)
				}
			}
		}
	}
	if d := diffTree(before, after); d != "" {
		c.Fail("init:files", "%s: %s", full, d)
	}
	if code != 0 && chance(r, 0.6) {
		// the user starts over
		os.RemoveAll(meta)
		os.RemoveAll(down)
	}
}

func expiredRoot(p *Repo) []byte {
	d := p.RootDocs[len(p.RootDocs)-1].Clone()
	d.Signed["expires"] = ref.TimeStr(p.Past())
	d.Sigs = nil
	d.Sign(p.Top["root"].Keys...)
	return d.Bytes(p.fmt())
}

func (w *cliWorld) getCmd() {
	c, r := w.c, w.c.Rng
	srv, desc := w.serveNow()
	name := pick(r, repoNames(w.uWorld))
	if strings.ContainsAny(name, "#\x00") || name == "" {
		return
	}
	cfg := defaultCfg()
	cfg.MetaURL, cfg.TargetsURL = w.metaURL, w.targURL
	args := []string{pick(r, []string{"get", "get", "g"}), "-u", w.metaURL}
	if w.targURL != w.metaURL || chance(r, 0.2) {
		if chance(r, 0.93) {
			args = append(args, pick(r, []string{"-t", "--turl"}), w.targURL)
		} else {
			cfg.TargetsURL = w.metaURL
			desc += ", targets not there"
		}
	}
	if chance(r, 0.2) {
		args = append(args, "--nonprefixed")
		cfg.Prefix = false
	}
	if chance(r, 0.1) {
		args = append(args, "-v")
	}
	args = append(args, "--", name)
	meta, down := filepath.Join(w.cwd, cliMeta), filepath.Join(w.cwd, cliDown)
	file := filepath.Join(down, url.QueryEscape(name))
	if name == "." || name == ".." {
		file = filepath.Join(down, strings.ReplaceAll(name, ".", "%2E"))
	}
	// what lies in the download folder
	if exists(down) && chance(r, 0.2) && len(filepath.Base(file)) < 200 {
		switch r.Intn(3) {
		case 0:
			os.Remove(file)
		case 1:
			os.WriteFile(file, []byte("something else"), 0644)
			desc += ", other file in place"
		case 2:
			if b, err := os.ReadFile(file); err == nil && len(b) > 0 {
				b[r.Intn(len(b))] ^= 4
				os.WriteFile(file, b, 0644)
				desc += ", changed file in place"
			}
		}
	}
	if exists(meta) && chance(r, 0.1) {
		old := w.metaDir
		w.metaDir = meta
		desc += " " + w.damageCache()
		w.metaDir = old
	}
	root, rerr := os.ReadFile(filepath.Join(meta, "root.json"))
	ready := rerr == nil && exists(down)
	cache := readDir(meta)
	beforeOut, beforeDown := w.tree(cliMeta, cliDown), snapTree(down)
	// the expected outcome
	var must, may bool
	var why string
	var target *ref.TargetInfo
	have := false
	if ready {
		m, res := ref.NewSession(cfg, root, cache, srv, time.Now().UTC())
		if res.OK() {
			res = m.Refresh()
		}
		if res.OK() {
			res = m.Lookup(name)
		}
		why = res.String()
		if res.OK() {
			target = res.Target
			good := func(b []byte) bool {
				return int64(len(b)) == target.Length && len(target.Hashes) > 0 && ref.HashesOK(target.Hashes, b)
			}
			if b, err := os.ReadFile(file); err == nil && good(b) {
				must, may, have = true, true, true
			} else {
				us := m.TargetURLs(name, target, "")
				must = len(us) > 0
				for _, u := range us {
					x := srv(u)
					ok := x != nil && x.Status == 200 && good(x.Data)
					must, may = must && ok, may || ok
				}
				why = fmt.Sprintf("target listed, file offered: %v", may)
			}
		}
	} else {
		why = "not initialised"
	}
	code, said := w.run("", args...)
	full := fmt.Sprintf("%q (%s; %s)", args, desc, why)
	c.Logf("    %s must=%v may=%v", full, must, may)
	c.Distinct("get", code, must, may, have, strings.SplitN(desc, ":", 2)[0], why, w.p.Consistent, cfg.Prefix)
	if d := diffTree(beforeOut, w.tree(cliMeta, cliDown)); d != "" {
		c.Fail("get:outside", "%s: %s", full, d)
		return
	}
	afterDown := snapTree(down)
	if code != 0 {
		c.Count("get refused")
		if must {
			c.Fail("get:refused", "%s fails (exit %d): %s", full, code, strings.TrimSpace(said))
			return
		}
		if d := diffTree(beforeDown, afterDown); d != "" {
			c.Fail("get:failed-file", "%s fails but in the download folder %s", full, d)
			return
		}
		if now, err := os.ReadFile(filepath.Join(meta, "root.json")); ready && len(root) > 0 && (err != nil || len(now) == 0) {
			c.Fail("get:root-lost", "%s fails and loses the trusted root", full)
		}
		return
	}
	c.Count("get succeeded")
	if have {
		c.Count("get found the file in place")
	}
	if !may {
		c.Fail("get:accepted", "%s succeeds: %s", full, strings.TrimSpace(said))
		return
	}
	for n, b := range readDir(down) {
		// the name of the file is not fixed, one file in all is
		if f := filepath.Join(down, n); !exists(file) && afterDown[f] != beforeDown[f] && int64(len(b)) == target.Length && ref.HashesOK(target.Hashes, b) {
			file = f
		}
	}
	b, err := os.ReadFile(file)
	if err != nil || int64(len(b)) != target.Length || !ref.HashesOK(target.Hashes, b) {
		c.Fail("get:content", "%s succeeds but the verified target is not at %s (%v)", full, file, err)
		return
	}
	delete(beforeDown, file)
	delete(afterDown, file)
	if d := diffTree(beforeDown, afterDown); d != "" {
		c.Fail("get:other-files", "%s: in the download folder %s", full, d)
	}
}

func (w *cliWorld) resetCmd() {
	c, r := w.c, w.c.Rng
	meta, down := filepath.Join(w.cwd, cliMeta), filepath.Join(w.cwd, cliDown)
	if !exists(meta) && !exists(down) && chance(r, 0.7) {
		return
	}
	if exists(down) && chance(r, 0.5) {
		// a subfolder, a link to the user's files
		os.MkdirAll(filepath.Join(down, "sub"), 0755)
		os.WriteFile(filepath.Join(down, "sub", "x"), []byte("x"), 0600)
		os.Symlink(filepath.Join(w.cwd, "notes"), filepath.Join(down, "link"))
		os.Symlink(w.c.Dir(), filepath.Join(meta, "up"))
	}
	force := chance(r, 0.25)
	var answers []string
	stdin := ""
	if !force || chance(r, 0.3) {
		for k := r.Intn(4); k > 0; k-- {
			answers = append(answers, pick(r, []string{"y", "n", "yes", "no", "Y", "N", "YES", "No", "y", "n", "maybe", "ny", "yess", "0", "true", "force", "yes please", ""}))
		}
		stdin = strings.Join(answers, "\n")
		if chance(r, 0.85) && len(answers) > 0 {
			stdin += "\n"
		}
	}
	args := []string{pick(r, []string{"reset", "r"})}
	if force {
		args = append(args, pick(r, []string{"-f", "--force"}))
	} else if chance(r, 0.1) {
		args = append(args, "--force=false")
	}
	hadM, hadD := exists(meta), exists(down)
	before := w.tree(cliMeta, cliDown)
	bm, bd := snapTree(meta), snapTree(down)
	code, _ := w.run(stdin, args...)
	full := fmt.Sprintf("%q answered %q", args, answers)
	if d := diffTree(before, w.tree(cliMeta, cliDown)); d != "" {
		c.Fail("reset:outside", "%s: %s", full, d)
		return
	}
	goneM, goneD := hadM && !exists(meta), hadD && !exists(down)
	c.Distinct("reset", code, force, strings.Join(answers, "|"), hadM, hadD, goneM, goneD)
	if !goneM {
		if d := diffTree(bm, snapTree(meta)); d != "" {
			c.Fail("reset:partly", "%s: %s", full, d)
		}
	}
	if !goneD {
		if d := diffTree(bd, snapTree(down)); d != "" {
			c.Fail("reset:partly", "%s: %s", full, d)
		}
	}
	n := 0
	for _, g := range []bool{goneM, goneD} {
		if g {
			n++
			c.Count("folders deleted")
		}
	}
	if force {
		c.Count("forced resets")
		if exists(meta) || exists(down) {
			c.Fail("reset:forced", "%s: a folder is left", full)
		}
	} else {
		yes, plain := 0, true
		var seq []bool
		for _, a := range answers {
			switch strings.ToLower(strings.TrimSpace(a)) {
			case "y", "yes":
				yes++
				seq = append(seq, true)
			case "n", "no":
				seq = append(seq, false)
			default:
				plain = false
			}
		}
		if n > yes {
			c.Fail("reset:unconfirmed", "%s deletes %d folders, confirmed %d times", full, n, yes)
		}
		if plain {
			for k, was := range []bool{hadM, hadD} {
				gone := []bool{goneM, goneD}[k]
				if k < len(seq) && was && gone != seq[k] || k >= len(seq) && gone {
					c.Fail("reset:answer", "%s: folder %d deleted: %v", full, k, gone)
				}
			}
			if n == 0 && len(seq) > 0 {
				c.Count("resets declined")
			}
		}
	}
	if goneM || goneD {
		w.init = false
	}
	if chance(r, 0.7) && (exists(meta) != exists(down)) {
		// start over
		os.RemoveAll(filepath.Join(w.cwd, cliMeta))
		os.RemoveAll(filepath.Join(w.cwd, cliDown))
	}
	os.Remove(filepath.Join(down, "link"))
	os.Remove(filepath.Join(meta, "up"))
	os.RemoveAll(filepath.Join(w.cwd, cliDown, "sub"))
}

// wrongCmd: command lines which are incomplete.
func (w *cliWorld) wrongCmd() {
	c, r := w.c, w.c.Rng
	args := pick(r, [][]string{{"init"}, {"get", "a.txt"}, {"get", "-u", w.metaURL}, {"get", "-u", w.metaURL, "a", "b"}, {"init", "-u", w.metaURL, "x"}, {"reset", "x"}, {"fetch"}, {"get", "-u"}, {"init", "-u", w.metaURL, "--bogus"}})
	w.serveNow()
	before := snapTree(c.Dir())
	code, _ := w.run("y\ny\n", args...)
	if code == 0 {
		c.Fail("usage", "%q succeeds", args)
	}
	if d := diffTree(before, snapTree(c.Dir())); d != "" {
		c.Fail("usage-files", "%q: %s", args, d)
	}
	c.Count("incomplete command lines")
	c.Distinct("usage", strings.Join(args[:1], " "), len(args))
}

func cliCase(c *Case, loop *loopServer, bin string) {
	r := c.Rng
	uw := newUWorld(c, uProfile{delegs: 4, odd: 0.3, succinct: 0.3, otherKeys: true})
	w := &cliWorld{uWorld: uw, bin: bin, loop: loop, cwd: filepath.Join(c.Dir(), "home", "user")}
	w.seg = fmt.Sprintf("cli-%d", c.Idx)
	w.metaURL, w.rep = loop.add(w.seg, func(string) *ref.Resp { return nil })
	c.Defer(func() { loop.drop(w.seg) })
	w.targURL = pick(r, []string{w.metaURL, w.metaURL + "/targets", w.metaURL + "/targets/"})
	// what else the user has
	for _, f := range []string{"notes/a", "tuf_metadata.bak/root.json", "tuf_download2/x", "tuf_metadata_old/timestamp.json", "../tuf_metadata/root.json", "../tuf_download/y", "tuf_metadat"} {
		path := filepath.Join(w.cwd, f)
		os.MkdirAll(filepath.Dir(path), 0755)
		os.WriteFile(path, []byte("of the user's: "+f), 0644)
	}
	for k := r.Intn(3); k > 0; k-- {
		w.p.Evolve()
		w.publishState()
	}
	w.honest = chance(r, 0.5)
	for k := 6 + r.Intn(6); k > 0; k-- {
		if c.Failed() {
			return
		}
		x := r.Float64()
		switch {
		case !w.init && x < 0.7:
			w.initCmd()
		case x < 0.08:
			w.initCmd()
		case x < 0.75:
			w.getCmd()
		case x < 0.82:
			w.wrongCmd()
		case x < 0.93:
			w.resetCmd()
		default:
			if w.honest {
				w.p.Evolve()
			} else {
				c.Logf("  %s", w.expireSomething())
			}
			w.publishState()
		}
	}
	c.Sample(map[string]any{"consistent": w.p.Consistent, "roots": len(w.p.Roots), "last": w.said})
}

func init() {
	registry["C22"] = &Prop{Level: "exploration", Asm: append([]string{"the command-line client is built from examples/cli/tuf-client of the working tree and run as a process of its own"}, asmCommon...),
		Rule: "histories of init, get, reset and incomplete commands of the real binary against a loopback server which is honest, damaged, stale, mixed or malicious; oracle: the reference client model, the exit status, and the whole directory tree before and after; non-trivial cases are distinct (command, outcome, situation)",
		F: func(r *Run) {
			bin := os.Getenv("VERIF_CLI")
			if bin == "" {
				r.Inconclusive("no command-line client built")
				return
			}
			loop := newLoopServer()
			r.Cases("histories", r.N(900, 15000), func(c *Case) { cliCase(c, loop, bin) })
			r.Need("commands run", 1200)
			r.Need("init succeeded", 120)
			r.Need("init refused", 60)
			r.Need("get succeeded", 200)
			r.Need("get refused", 200)
			r.Need("folders deleted", 60)
			r.Need("resets declined", 10)
			r.Need("incomplete command lines", 50)
		}}
}
