package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

// Target downloads and cached targets, called directly.

type dlWorld struct {
	c     *Case
	w     *uWorld
	mc    ref.Cfg
	base  string // base URL in force
	paths map[string]string
}

var dlPaths = append([]string{"f.txt", "dir/f.txt", "a/b/c/d", "x", "F.TXT", "f.txt.1", "dir", "dir/f.txt/", "f%2Ftxt", "a.b", "ab", "...", "a/../b", "./f.txt", "dir//f.txt", "e\u0301.txt", "\u00e9.txt", "\n", " ", "f.txt ", "*", "dir%2Ff.txt", "dir+f.txt", "dir f.txt"}, oddTargetNames...)

// anyHashes describes data truly or not; ok tells whether data match.
func anyHashes(r *rand.Rand, data []byte) (h metadata.Hashes, want map[string]string, ok, supported bool) {
	h, want, ok, supported = metadata.Hashes{}, map[string]string{}, true, true
	set := func(alg, hx string) {
		h[alg] = hexBytes(hx)
		want[alg] = hx
	}
	algs := pick(r, [][]string{{"sha256"}, {"sha256"}, {"sha512"}, {"sha256", "sha512"}})
	for _, a := range algs {
		x := ref.Sha256Hex(data)
		if a == "sha512" {
			x = ref.Sha512Hex(data)
		}
		switch r.Intn(14) {
		case 0: // one bit differs
			b := hexBytes(x)
			b[r.Intn(len(b))] ^= byte(1 << r.Intn(8))
			x = fmt.Sprintf("%x", b)
		case 1: // truncated
			x = x[:2*r.Intn(len(x)/2)]
		case 2: // longer
			x += "00"
		}
		if x != ref.Sha256Hex(data) && x != ref.Sha512Hex(data) {
			ok = false
		}
		set(a, x)
	}
	if r.Intn(14) == 0 {
		set(pick(r, []string{"md5", "sha1", "SHA256", "sha3-256", "", "sha512/256"}), ref.Sha256Hex(data))
		ok, supported = false, false
	}
	return
}

func dlDirectCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{})
	for k := r.Intn(3); k > 0; k-- {
		w.p.Evolve()
	}
	w.metaURL = "http://repo.test/md"
	w.targURL = pick(r, []string{"http://repo.test/t", "http://repo.test/t/", "https://cdn.test:8443/x/y", ""})
	mc := defaultCfg()
	mc.Prefix = !chance(r, 0.35)
	mc.NoCache = chance(r, 0.12)
	served := map[string]*ref.Resp{}
	srv := &memSrv{f: func(u string) *ref.Resp { return served[u] }}
	root := w.p.Roots[len(w.p.Roots)-1]
	u, err := newClient(w, root, mc, srv)
	if err != nil {
		c.FailTags(Tags{"C24"}, "open", "client: %v", err)
		return
	}
	view, err := ref.ParseView(root)
	if err != nil {
		panic(err)
	}
	outDir := filepath.Join(c.Dir(), "out")
	os.MkdirAll(outDir, 0755)
	used := map[string]string{}
	for k := 0; k < 6; k++ {
		path := pick(r, dlPaths)
		data := make([]byte, pick(r, []int{0, 1, 5, 200, 5000}))
		r.Read(data)
		hashes, want, hok, _ := anyHashes(r, data)
		tf := metadata.TargetFile()
		tf.Path, tf.Hashes, tf.Length = path, hashes, int64(len(data))
		ok := hok
		switch r.Intn(14) {
		case 0:
			tf.Length++
			ok = false
		case 1:
			if len(data) > 0 {
				tf.Length--
				ok = false
			}
		}
		// what the mirror sends
		send := data
		what := "true bytes"
		resp := &ref.Resp{Status: 200}
		switch r.Intn(14) {
		case 0:
			send, what = append(append([]byte{}, data...), byte(r.Intn(256))), "one byte more"
		case 1:
			if len(data) > 0 {
				send, what = data[:len(data)-1], "one byte less"
			}
		case 2:
			if len(data) > 0 {
				send = append([]byte{}, data...)
				send[r.Intn(len(send))] ^= 1 << r.Intn(8)
				what = "bit flip"
			}
		case 3:
			send, what = nil, "nothing"
		case 4:
			resp.Status = pick(r, []int{404, 403, 500, 0, 301, 206})
			what = fmt.Sprint("status ", resp.Status)
		}
		if !bytes.Equal(send, data) || resp.Status != 200 {
			ok = false
		}
		resp.Data = send
		// base URL
		base, arg := w.targURL, ""
		if chance(r, 0.3) {
			arg = pick(r, []string{"http://mirror.test", "http://mirror.test/", "http://mirror.test/a/b?c=", "http://mirror.test//"})
			base = arg
		}
		urls := []string{}
		if base == "" {
			ok = false
		} else {
			if !view.Consistent || !mc.Prefix {
				urls = []string{slashed(base) + path}
			} else {
				i := strings.LastIndex(path, "/") + 1
				for _, a := range ref.SortedKeys(want) {
					urls = append(urls, slashed(base)+path[:i]+want[a]+"."+path[i:])
				}
			}
		}
		for k := range served {
			delete(served, k)
		}
		for _, x := range urls {
			served[x] = resp
		}
		// destination
		dest, kind := "", "default"
		prev := ""
		switch r.Intn(7) {
		case 0, 1:
			dest, kind = filepath.Join(outDir, fmt.Sprint("n", k)), "new"
		case 2, 3:
			dest, kind, prev = filepath.Join(outDir, fmt.Sprint("p", k)), "existing", "an earlier version"
			if chance(r, 0.5) {
				prev = string(data) + "longer tail"
			}
			os.WriteFile(dest, []byte(prev), pick(r, []os.FileMode{0600, 0644, 0755}))
		case 4:
			dest, kind = filepath.Join(outDir, "missing", "f"), "no such directory"
			ok = ok && mc.NoCache
		case 5:
			if chance(r, 0.5) {
				dest, kind = filepath.Join(outDir, fmt.Sprint("d", k)), "directory"
				os.MkdirAll(filepath.Join(dest, "sub"), 0755)
				ok = ok && mc.NoCache
			}
		}
		before := snapTree(c.Dir())
		copyOf := fmt.Sprintf("%+v", *tf)
		n := len(srv.log)
		got, out, err := u.DownloadTarget(tf, dest, arg)
		reqs := append([]ref.Req{}, srv.log[n:]...)
		after := snapTree(c.Dir())
		c.Eval()
		c.Count("direct downloads")
		desc := fmt.Sprintf("download of %q (length %d, hashes %v) to %s destination from base %q, mirror sends %s: %v", path, tf.Length, want, kind, base, what, err)
		c.Logf("%s", desc)
		c.Distinct("direct", kind, what, ok, base == "", arg == "", view.Consistent, mc.Prefix, mc.NoCache, strings.Contains(path, "/"))
		if fmt.Sprintf("%+v", *tf) != copyOf {
			c.Fail("argument-changed", "the target description changes from %s to %+v", copyOf, *tf)
		}
		if len(reqs) > 1 || len(reqs) == 0 && base != "" && kind != "default" && len(want) > 0 {
			c.FailTags(Tags{"C13", "C24"}, "direct-requests", "%s: %d requests", desc, len(reqs))
		}
		for _, q := range reqs {
			in := false
			for _, x := range urls {
				in = in || x == q.URL
			}
			if !in && len(want) > 0 {
				c.FailTags(Tags{"C13", "C24"}, "direct-url", "%s: requested %q, expected one of %q", desc, q.URL, urls)
			}
			if q.Max != tf.Length {
				c.FailTags(Tags{"C14", "C13"}, "direct-max", "%s: limit %d", desc, q.Max)
			}
		}
		if !ok {
			c.Count("direct downloads refused")
			if err == nil {
				c.Fail("direct-accepted:"+kind, "%s: succeeds", desc)
			}
			if len(out) > 0 {
				c.Fail("direct-data:"+kind, "%s: returns %d bytes", desc, len(out))
			}
			if d := diffTree(before, after); d != "" {
				c.Fail("direct-write:"+kind, "%s: %s", desc, d)
			}
			continue
		}
		c.Count("direct downloads delivered")
		if err != nil {
			c.Fail("direct-refused:"+kind, "%s: fails", desc)
			continue
		}
		if !bytes.Equal(out, data) {
			c.Fail("direct-bytes", "%s: returns other bytes", desc)
		}
		if mc.NoCache {
			if d := diffTree(before, after); d != "" {
				c.FailTags(Tags{"C13", "C17"}, "direct-nocache", "%s: %s", desc, d)
			}
			continue
		}
		if dest != "" && got != dest {
			c.Fail("direct-path", "%s: reported at %q", desc, got)
			continue
		}
		if dest == "" && filepath.Dir(got) != w.targDir {
			c.FailTags(Tags{"C13", "C17"}, "direct-default", "%s: stored at %q", desc, got)
			continue
		}
		if dest == "" {
			if o, ok := used[got]; ok && o != path {
				c.FailTags(Tags{"C13", "C17"}, "direct-shared", "targets %q and %q share the file %q", o, path, got)
			}
			used[got] = path
		}
		if b, e := os.ReadFile(got); e != nil || !bytes.Equal(b, data) {
			c.Fail("direct-file", "%s: file at %q: %d bytes, %v", desc, got, len(b), e)
		}
		delete(before, got)
		delete(after, got)
		if d := diffTree(before, after); d != "" {
			c.FailTags(Tags{"C13", "C17"}, "direct-other", "%s: %s", desc, d)
		}
		findCachedCase(c, u.FindCachedTarget, tf, dest, got, data)
	}
	c.Sample(map[string]any{"trace": c.trace})
}

func slashed(b string) string {
	if strings.HasSuffix(b, "/") {
		return b
	}
	return b + "/"
}

// findCachedCase: got holds data, which match tf.
func findCachedCase(c *Case, find func(*metadata.TargetFiles, string) (string, []byte, error), tf *metadata.TargetFiles, dest, got string, data []byte) {
	r := c.Rng
	set := func(b []byte) {
		if err := os.WriteFile(got, b, 0644); err != nil {
			panic(err)
		}
	}
	exp := true
	what := "as downloaded"
	switch r.Intn(9) {
	case 0:
		set(append(append([]byte{}, data...), 0))
		exp, what = false, "one byte more"
	case 1:
		if len(data) > 0 {
			set(data[:len(data)-1])
			exp, what = false, "one byte less"
		}
	case 2:
		if len(data) > 0 {
			b := append([]byte{}, data...)
			b[r.Intn(len(b))] ^= 4
			set(b)
			exp, what = false, "bit flip"
		}
	case 3:
		os.Remove(got)
		exp, what = false, "removed"
	case 4:
		os.Remove(got)
		os.Mkdir(got, 0755)
		defer os.RemoveAll(got)
		exp, what = false, "a directory"
	case 5:
		t := *tf
		t.Length++
		tf = &t
		exp, what = false, "another length listed"
	case 6:
		t := *tf
		t.Hashes = metadata.Hashes{}
		for a, h := range tf.Hashes {
			t.Hashes[a] = append([]byte{}, h...)
		}
		for a := range t.Hashes {
			t.Hashes[a][r.Intn(len(t.Hashes[a]))] ^= 1
			break
		}
		tf = &t
		exp, what = false, "another hash listed"
	case 7:
		os.Chmod(got, 0)
		defer os.Chmod(got, 0644)
		exp, what = os.Geteuid() == 0, "unreadable"
	}
	before := snapTree(filepath.Dir(got))
	p, b, err := find(tf, dest)
	c.Count("cached targets looked up")
	hit := p != "" && err == nil
	if hit != exp {
		c.Fail("find:"+what, "cached file of %q (%s): reported=%v (%v)", tf.Path, what, hit, err)
		return
	}
	if hit && (p != got || !bytes.Equal(b, data)) {
		c.Fail("find-data:"+what, "cached file of %q (%s): reported at %q with %d bytes, is at %q with %d", tf.Path, what, p, len(b), got, len(data))
	}
	if !hit && len(b) > 0 {
		c.Fail("find-miss-data:"+what, "cached file of %q (%s): no match, but %d bytes", tf.Path, what, len(b))
	}
	if d := diffTree(before, snapTree(filepath.Dir(got))); d != "" {
		c.Fail("find-write:"+what, "looking for the cached file of %q (%s): %s", tf.Path, what, d)
	}
}

// dlConfigCase: missing pieces of configuration.
func dlConfigCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{})
	served := []byte("content")
	srv := &memSrv{f: func(u string) *ref.Resp { return &ref.Resp{Status: 200, Data: served} }}
	mc := defaultCfg()
	u, err := newClient(w, w.p.Roots[0], mc, srv)
	if err != nil {
		c.FailTags(Tags{"C24"}, "open", "client: %v", err)
		return
	}
	tf, err := metadata.TargetFile().FromBytes(pick(r, dlPaths), served)
	if err != nil {
		c.FailTags(Tags{"C25"}, "frombytes", "%v", err)
		return
	}
	c.Eval()
	// every default location is derived from the URL escaped path, in the targets directory
	p, data, err := u.DownloadTarget(tf, "", "")
	c.Distinct("config", tf.Path)
	if err != nil || !bytes.Equal(data, served) {
		c.Fail("default-location", "download of %q to the default location: %v", tf.Path, err)
		return
	}
	rel, e := filepath.Rel(w.targDir, p)
	if e != nil || strings.ContainsRune(rel, filepath.Separator) || rel == ".." || rel == "." {
		c.FailTags(Tags{"C13", "C17"}, "default-outside", "download of %q is stored at %q", tf.Path, p)
	}
	if un, e := url.QueryUnescape(filepath.Base(p)); e != nil || un != tf.Path {
		c.FailTags(Tags{"C17"}, "default-name", "download of %q is stored at %q, which does not tell its path", tf.Path, p)
	}
	c.Count("default locations")
	if errors.Is(err, errNet) {
		c.Count("unexpected")
	}
}

// keptCase: the file at the destination can not be replaced.
func keptCase(c *Case) {
	r := c.Rng
	dir := filepath.Join(c.R.Work, "sticky")
	dest := filepath.Join(dir, fmt.Sprint("f", c.Idx))
	if b, err := os.ReadFile(dest); os.Geteuid() == 0 || err != nil || string(b) != "before" {
		return
	}
	w := newUWorld(c, uProfile{})
	mc := defaultCfg()
	served := map[string]*ref.Resp{}
	srv := &memSrv{f: func(u string) *ref.Resp { return served[u] }}
	u, err := newClient(w, w.p.Roots[len(w.p.Roots)-1], mc, srv)
	if err != nil {
		c.FailTags(Tags{"C24"}, "open", "client: %v", err)
		return
	}
	data := make([]byte, 1+r.Intn(3000))
	r.Read(data)
	tf := metadata.TargetFile()
	tf.Path, tf.Length = "x", int64(len(data))
	tf.Hashes = metadata.Hashes{"sha256": hexBytes(ref.Sha256Hex(data))}
	srv.f = func(string) *ref.Resp { return &ref.Resp{Status: 200, Data: data} }
	own := filepath.Join(dir, fmt.Sprint("own", c.Idx))
	p, b, err := u.DownloadTarget(tf, own, "http://repo.test/t")
	if err != nil || !bytes.Equal(b, data) || p != own {
		c.Fail("kept-new", "a new file in a shared folder is refused: %v", err)
		return
	}
	if got, _ := os.ReadFile(own); !bytes.Equal(got, data) {
		c.Fail("kept-new", "a new file in a shared folder is not delivered")
		return
	}
	p, b, err = u.DownloadTarget(tf, dest, "http://repo.test/t")
	c.Eval()
	got, _ := os.ReadFile(dest)
	c.Distinct("kept", err == nil)
	if err == nil && !bytes.Equal(got, data) {
		c.Fail("kept-success", "a download to a file which can not be replaced succeeds (%q, %d bytes), the file holds %q", p, len(b), shortHead(string(got)))
		return
	}
	if err != nil && string(got) != "before" {
		c.Fail("kept-damaged", "a failed download changes the file at the destination")
		return
	}
	if err != nil && (b != nil || p != "") {
		c.Fail("kept-data", "a failed download returns %d bytes, path %q", len(b), p)
		return
	}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		i := 0
		n := e.Name()
		if k, _ := fmt.Sscanf(n, "f%d", &i); k == 1 && n == fmt.Sprint("f", i) {
			continue
		}
		if k, _ := fmt.Sscanf(n, "own%d", &i); k == 1 && n == fmt.Sprint("own", i) {
			continue
		}
		c.Fail("kept-stray", "a failed download leaves %q behind", n)
		return
	}
	c.Count("downloads to files that can not be replaced")
}

func init() {
	registry["C13"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "downloads through lookups and with hand-made target descriptions: paths, hashes, lengths, base URLs, destinations (default, new, existing, unwritable), consistent snapshots and prefixing on and off, mirrors sending true, longer, shorter, altered or no bytes; result, file tree, request and cached-file answers compared with what the signed description says; non-trivial cases are distinct combinations of these",
		F: func(r *Run) {
			r.Cases("direct", r.N(2500, 60000), dlDirectCase)
			r.Cases("config", r.N(400, 4000), dlConfigCase)
			r.Serial("kept", stickyFiles, keptCase)
			r.Cases("nospace", r.N(400, 8000), noSpaceDownload)
			uRun(r, "u-downloads", r.N(500, 15000), uDown)
			r.Need("direct downloads delivered", 2000)
			r.Need("direct downloads refused", 2000)
			r.Need("downloads delivered", 500)
			r.Need("cached targets looked up", 1500)
			r.Need("downloads refused", 200)
			r.Need("downloads failed for lack of space", 100)
			r.Need("downloads delivered with little room", 20)
		}}
}
