package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/ref"
)

// noSpaceDownload: the destination cannot be written.
func noSpaceDownload(c *Case) {
	r := c.Rng
	f := newFaultWorld(c, uProfile{delegs: 2, odd: 0.3}, false)
	out := filepath.Join(c.Dir(), "out")
	os.MkdirAll(out, 0755)
	m, _ := f.model()
	if res := m.Refresh(); !res.OK() {
		return
	}
	f.sp.Ops = []clientOp{{Kind: "new"}, {Kind: "refresh"}}
	type dl struct {
		op   clientOp
		data []byte
	}
	var all []dl
	for _, n := range f.names {
		res := m.Lookup(n)
		if !res.OK() || res.Target.Length == 0 {
			continue
		}
		for _, u := range m.TargetURLs(n, res.Target, "") {
			if d := f.sp.Docs[u]; d != nil && int64(len(d.Data)) == res.Target.Length && ref.HashesOK(res.Target.Hashes, d.Data) {
				all = append(all, dl{clientOp{Kind: "download", Arg: n}, d.Data})
				f.sp.Ops = append(f.sp.Ops, clientOp{Kind: "lookup", Arg: n})
				break
			}
		}
	}
	if len(all) == 0 {
		return
	}
	skip := len(f.sp.Ops)
	limit := r.Intn(pick(r, []int{1, 10, 100, 3000}))
	f.sp.Ops = append(f.sp.Ops, clientOp{Kind: "limit", Arg: fmt.Sprint(limit)})
	var ds []dl
	for k := 0; k < 3; k++ {
		d := pick(r, all)
		switch r.Intn(4) {
		case 0:
			d.op.Dest = filepath.Join(out, fmt.Sprint("new", k))
		case 1, 2:
			d.op.Dest = filepath.Join(out, fmt.Sprint("old", k))
			os.WriteFile(d.op.Dest, []byte(fmt.Sprint("an earlier file ", k)), 0644)
		case 3:
		}
		ds = append(ds, d)
		f.sp.Ops = append(f.sp.Ops, d.op)
	}
	x := startClient(c, f.sp, c.Dir())
	defer x.end()
	for i := 0; i <= skip; i++ {
		got, _, ok := x.result()
		if !ok || !got.OK {
			c.Logf("operation %d: %+v", i, got)
			return // another property's matter
		}
		x.next()
	}
	for _, d := range ds {
		got, _, ok := x.result()
		c.Eval()
		desc := fmt.Sprintf("download of %q (%d bytes) to %q with room for %d: %q", d.op.Arg, len(d.data), d.op.Dest, limit, got.Err)
		if !ok {
			x.end()
			c.FailTags(Tags{"C13", "C04"}, "died", "%s: the client has ended: %s", desc, shortHead(x.err.String()))
			return
		}
		c.Count("downloads without room")
		c.Logf("%s", desc)
		c.Distinct("nospace", got.OK, d.op.Dest == "", filepath.Base(d.op.Dest), limit < len(d.data))
		names := map[string]bool{"old0": true, "old1": true, "old2": true}
		for n, b := range readDir(out) {
			mine := d.op.Dest != "" && n == filepath.Base(d.op.Dest)
			prev := []byte(fmt.Sprint("an earlier file ", n[len(n)-1:]))
			switch {
			case mine && got.OK:
				if !bytes.Equal(b, d.data) {
					c.FailTags(Tags{"C13"}, "nospace-wrong", "%s: the destination holds %d bytes", desc, len(b))
					return
				}
			case names[n]:
				if bytes.Equal(b, prev) {
					continue
				}
				// delivered by an earlier, successful download
				okd := false
				for _, e := range ds {
					okd = okd || e.op.Dest == filepath.Join(out, n) && bytes.Equal(b, e.data) && len(e.data) <= limit
				}
				if !okd {
					c.FailTags(Tags{"C13"}, "nospace-overwritten", "%s: the earlier file %s is now %q (%d bytes)", desc, n, b[:min(len(b), 40)], len(b))
					return
				}
			default:
				okd := false
				for _, e := range ds {
					okd = okd || e.op.Dest == filepath.Join(out, n) && bytes.Equal(b, e.data)
				}
				if !okd {
					c.FailTags(Tags{"C13"}, "nospace-left", "%s: %s (%d bytes) is left", desc, n, len(b))
					return
				}
			}
		}
		for n, b := range readDir(f.w.targDir) {
			okd := false
			for _, e := range ds {
				okd = okd || e.op.Dest == "" && bytes.Equal(b, e.data)
			}
			if !okd {
				c.FailTags(Tags{"C13"}, "nospace-left-default", "%s: %s (%d bytes) is left in the targets directory", desc, n, len(b))
				return
			}
		}
		if got.OK {
			c.Count("downloads delivered with little room")
		} else {
			c.Count("downloads failed for lack of space")
			if len(got.Data) > 0 {
				c.FailTags(Tags{"C13"}, "nospace-data", "%s: returns %d bytes", desc, len(got.Data))
			}
			if len(d.data) <= limit {
				c.FailTags(Tags{"C13"}, "nospace-refused", "%s: fails", desc)
				return
			}
		}
		x.next()
	}
}

var longName = strings.Repeat("long-name.", 22)

// paths of targets which are too long for the name of a file
var tooLong = []string{strings.Repeat("a", 260) + "/x", strings.Repeat("b", 260) + "/x", strings.Repeat("a", 260) + "x", "x", strings.Repeat("a", 300), strings.Repeat("a", 301), strings.Repeat("\u00e9/", 60) + "x", strings.Repeat("../", 90) + "x", strings.Repeat("./", 180) + "x"}

// names which are easily taken for each other
var twins = [][]string{
	{"a/b", "a_b", "a%2Fb", "a-b", "b", "a\\b", "a%5Cb", "a:b", "a.b", "ab"},
	{"a b", "a+b", "a%20b", "a_b", "ab", " ab", "ab ", "a  b", "a\tb", "a\nb", "a\u00a0b"},
	{"Role", "role", "ROLE", "role.", "role.json", "role.json.json", ".role", "role~", "role/", "/role"},
	{"x/../y", "y", "x/./y", "x//y", "./y", "../y", "../../y", "x/y", "%2e%2e/y", "..%2Fy", "..\\y"},
	{"../timestamp", "timestamp.json", "timestamp/", "./timestamp", "Timestamp", "timestamp ", "timestamp%2Ejson", "x/../timestamp", "timestamp\x00"},
	{"../targets", "targets.json", "targets/", "./targets", "Targets", "targets.", "TARGETS", "x/../targets", "m/targets", "../m/targets"},
	{"../root", "root.json", "root/", "./root", "Root", "ROOT", "x/../root", "../../root", "snapshot.json", "./snapshot", "x/../snapshot", "Snapshot"},
	{"\u00e9", "e\u0301", "e", "%C3%A9", "\u00c9", "\u0435"},
	{"..", "...", ".", "-", "~", "_", "%2E", "%2E%2E", "....", "._"},
	{longName + "a", longName + "b", longName, "x" + longName, longName[:len(longName)-1], longName[1:], strings.Repeat("\u00e9", 36), strings.Repeat("\u00e9", 37), longName[:100], longName[:128] + "b"},
	{"q?a", "q", "q#a", "q&a", "q;a", "q=a", "q%3Fa", "q%", "q%%", "q%25", "*", "?", "[q]"},
}

// twinCase: delegated roles and targets whose names resemble each other.
func twinCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{})
	p := w.p
	var names []string
	has := map[string]bool{"root": true, "timestamp": true, "snapshot": true, "targets": true, "": true}
	for len(names) < 6 {
		g := pick(r, twins)
		for k := 0; k < 4; k++ {
			if n := pick(r, g); !has[n] {
				has[n] = true
				names = append(names, n)
			}
		}
	}
	var looks []string
	for i, n := range names {
		role := &TRole{Name: n, Version: int64(1 + r.Intn(3)), Keys: p.NewKeys(1), Targets: map[string]*Target{}, dirty: true}
		p.Roles[n] = role
		p.Order = append(p.Order, n)
		parent := "targets"
		pre := fmt.Sprintf("t%d/", i)
		p.Roles[parent].Edges = append(p.Roles[parent].Edges, Edge{Child: n, Keys: role.Keys, Threshold: 1, Paths: []string{pre + "*", pre + "*/*", pre + "*/*/*"}})
		p.Roles[parent].dirty = true
		p.AddTarget(n, pre+"f")
		looks = append(looks, pre+"f")
	}
	// resembling target paths, listed by the top level
	g := pick(r, twins)
	if chance(r, 0.15) {
		g = tooLong
	}
	for k := 0; k < 6; k++ {
		n := pick(r, g)
		if chance(r, 0.3) {
			n = "d/" + n
		}
		p.AddTarget("targets", n)
		looks = append(looks, n)
	}
	p.Publish()
	w.publishState()
	st := w.states[len(w.states)-1]
	mc := defaultCfg()
	mc.Prefix = !chance(r, 0.3)
	r.Shuffle(len(looks), func(i, j int) { looks[i], looks[j] = looks[j], looks[i] })
	for pass := 0; pass < 2; pass++ {
		w.prof.tree = true
		s, ok := w.open(p.Roots[0], mc, serve(w.metaURL, w.targURL, st, nil), Tags{"C17"}, fmt.Sprintf("roles %q", names))
		if !ok || !s.refresh() {
			return
		}
		files := map[string]string{}
		for _, n := range looks {
			tf, ok := s.lookup(n)
			if !ok {
				return
			}
			if tf == nil || pass == 1 {
				continue
			}
			nreq := len(s.srv.log)
			path, data, err := s.u.DownloadTarget(tf, "", "")
			s.srv.log = s.srv.log[:nreq]
			s.tree = w.outside()
			c.Eval()
			if err != nil && len(url.QueryEscape(n)) > 255 {
				c.Count("targets with names longer than a file's refused")
				continue
			}
			if err != nil {
				c.FailTags(Tags{"C17", "C13", "C24"}, "twin-download", "download of %q: %v", n, err)
				return
			}
			if o, ok := files[path]; ok && o != string(data) || filepath.Dir(path) != w.targDir {
				c.Fail("twin-target", "target %q is stored at %q, which is in use or outside %q", n, path, w.targDir)
				return
			}
			files[path] = string(data)
			c.Count("resembling targets stored")
		}
		if pass == 0 {
			for path, d := range files {
				if b, err := os.ReadFile(path); err != nil || string(b) != d {
					c.Fail("twin-target-lost", "the target stored at %q is no longer there: %v", path, err)
					return
				}
			}
			if n := len(readDir(w.targDir)); n != len(files) {
				c.Fail("twin-target-files", "%d files in the targets directory for %d targets", n, len(files))
				return
			}
		}
		for _, n := range names {
			if b, ok := readDir(w.metaDir)[ref.FileName(n)]; !ok || !bytes.Equal(b, p.Roles[n].raw) {
				// the name of the file is not part of the promise, its content is
				found := 0
				for _, x := range readDir(w.metaDir) {
					if bytes.Equal(x, p.Roles[n].raw) {
						found++
					}
				}
				if found != 1 {
					c.Fail("twin-role", "the document of role %q is in %d files (roles %q)", n, found, names)
					return
				}
			}
			c.Count("resembling roles stored")
		}
	}
	for _, n := range names {
		c.Distinct("twin", n)
	}
	c.Sample(map[string]any{"trace": c.trace})
}

// stray looks for files left around by any case of the run.
func strayFiles(r *Run) {
	r.Serial("strays", 1, func(c *Case) {
		for _, d := range []string{".", os.TempDir()} {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				c.Eval()
				switch n := e.Name(); {
				case n == "out" || n == "tmp" || n == "sticky" || len(n) > 4 && n[:4] == "case":
				default:
					c.Fail("stray", "%s appears in %s, the working or temporary directory of the run", n, d)
				}
			}
		}
		c.Count("working and temporary directory inspected")
	})
}

func init() {
	registry["C17"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "sessions against repositories with odd and mutually resembling role names and target paths, with and without local caching, in odd working directories; the whole directory tree around the client compared before and after every operation; non-trivial cases are distinct names, operations and outcomes",
		F: func(r *Run) {
			prof := uFiles
			prof.tree = true
			prof.noCache = 0.4
			prof.unusualURL = 0.2
			uRun(r, "u-files", r.N(700, 20000), prof)
			r.Cases("twins", r.N(400, 12000), twinCase)
			r.Cases("shadow", r.N(400, 8000), shadowCase)
			r.Cases("direct", r.N(600, 12000), dlDirectCase)
			r.Cases("config", r.N(200, 4000), dlConfigCase)
			r.Cases("place", r.N(300, 8000), placeCase)
			r.Cases("occupied", r.N(150, 3000), occupiedCase)
			strayFiles(r)
			r.Need("operations on occupied paths", 150)
			r.Need("trees compared", 5000)
			r.Need("operations with the surrounding folder read-only", 1000)
			r.Need("resembling targets stored", 2000)
			r.Need("resembling roles stored", 2000)
			r.Need("clients facing roles named like top-level ones", 300)
			r.Need("top-level files inspected", 500)
			r.Need("sessions in odd places", 150)
			r.Need("working and temporary directory inspected", 1)
		}}
}

// shadowCase: delegations to roles named like the top-level ones, directly,
// through succinct bins or with names that resemble them.
func shadowCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 2})
	p := w.p
	var name string
	for k := 1 + r.Intn(2); k > 0; k-- {
		name = pick(r, []string{"root", "timestamp", "snapshot", "targets", "", "root", "timestamp", "snapshot"})
		if chance(r, 0.2) {
			name = pick(r, []string{"Root", "timestamp.json", "../snapshot", "./root", "targets/"})
		}
		role := p.Roles[name]
		if role == nil {
			role = &TRole{Name: name, Version: int64(1 + r.Intn(3)), Keys: p.NewKeys(1), Targets: map[string]*Target{}, dirty: true}
			p.Roles[name] = role
			p.Order = append(p.Order, name)
			p.AddTarget(name, fmt.Sprintf("s%d", k))
		}
		parent := pick(r, p.Order)
		if p.Roles[parent].Succinct != nil || parent == name {
			parent = "targets"
		}
		p.Roles[parent].Edges = append([]Edge{{Child: name, Keys: role.Keys, Threshold: 1, Paths: []string{"*"}}}, p.Roles[parent].Edges...)
		p.Roles[parent].dirty = true
	}
	p.Publish()
	// the repository serves, under the ambiguous names, what hurts most
	st := p.State()
	srv := &memSrv{f: serve(w.metaURL, w.targURL, st, nil)}
	mc := defaultCfg()
	u, err := newClient(w, p.Roots[0], mc, srv)
	if err != nil {
		c.FailTags(Tags{"C24"}, "open", "client: %v", err)
		return
	}
	good := map[string][][]byte{"root.json": p.Roots}
	for _, n := range []string{"timestamp", "snapshot", "targets"} {
		for _, x := range []*State{w.states[0], st} {
			for _, k := range ref.SortedKeys(x.Files) {
				v, err := ref.ParseView(x.Files[k])
				if err == nil && v.Type == n && (n != "targets" || bytes.Equal(x.Files[k], p.Roles["targets"].raw)) {
					good[n+".json"] = append(good[n+".json"], x.Files[k])
				}
			}
		}
	}
	c.Eval()
	look := func(when string) bool {
		got := readDir(w.metaDir)
		for _, n := range ref.SortedKeys(good) {
			b, ok := got[n]
			if !ok {
				continue
			}
			c.Count("top-level files inspected")
			in := false
			for _, g := range good[n] {
				in = in || bytes.Equal(b, g)
			}
			if !in {
				c.FailTags(Tags{"C17", "C16"}, "shadow:"+n, "%s with a delegation to %q: %s holds %s", when, name, n, docDesc(b))
				return false
			}
		}
		return true
	}
	err = u.Refresh()
	c.Logf("refresh: %v", err)
	if !look("refresh") {
		return
	}
	for k := 0; k < 3; k++ {
		path := pick(r, []string{"s1", "s2", "f1.txt", "x"})
		_, err2 := u.GetTargetInfo(path)
		c.Logf("lookup %q: %v", path, err2)
		if !look(fmt.Sprintf("lookup of %q", path)) {
			return
		}
		tm := u.GetTrustedMetadataSet()
		if err == nil && (tm.Root == nil || tm.Timestamp == nil || tm.Snapshot == nil) {
			c.Fail("shadow-state", "lookup of %q with a delegation to %q: trusted top-level metadata are gone", path, name)
			return
		}
	}
	c.Count("clients facing roles named like top-level ones")
	c.Distinct("shadow", name, err == nil)
}

// occupiedCase: something of the user's already stands where the client is
// told to keep its files. Whatever the outcome, it is still there afterwards.
func occupiedCase(c *Case) {
	r := c.Rng
	f := newFaultWorld(c, uProfile{delegs: 3, odd: 0.3}, false)
	f.cache = map[string][]byte{}
	os.RemoveAll(f.w.metaDir)
	os.RemoveAll(f.w.targDir)
	base := filepath.Join(c.Dir(), "base")
	os.MkdirAll(base, 0755)
	f.w.metaDir, f.w.targDir = filepath.Join(base, "m"), filepath.Join(base, "t")
	f.sp.MetaDir, f.sp.TargDir = f.w.metaDir, f.w.targDir
	kept := filepath.Join(base, "kept")
	os.WriteFile(kept, []byte("kept"), 0644)
	how := pick(r, []string{"metadata dir is a file", "targets dir is a file", "parent is a file", "metadata dir is a link to a file", "targets dir is a link to a file", "metadata dir is a dangling link", "root.json is a folder", "timestamp.json is a folder", "snapshot.json is a folder", "a target is a folder"})
	mine := func(p string) {
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(fmt.Sprintf("the user's own %s %d", p, r.Int())), 0644)
	}
	fails := "new"
	switch how {
	case "metadata dir is a file":
		mine(f.w.metaDir)
	case "targets dir is a file":
		mine(f.w.targDir)
	case "parent is a file":
		mine(filepath.Join(base, "p"))
		f.sp.MetaDir = filepath.Join(base, "p", "m")
	case "metadata dir is a link to a file":
		os.Symlink(kept, f.w.metaDir)
	case "targets dir is a link to a file":
		os.Symlink(kept, f.w.targDir)
	case "metadata dir is a dangling link":
		os.Symlink(filepath.Join(base, "nowhere"), f.w.metaDir)
	case "a target is a folder":
		fails = ""
		for _, n := range f.names {
			mine(filepath.Join(f.w.targDir, url.QueryEscape(n), "inside"))
		}
	default:
		n, _, _ := strings.Cut(how, " ")
		mine(filepath.Join(f.w.metaDir, n, "inside"))
		if n != "root.json" {
			fails = "refresh"
		}
	}
	before := snapTree(base)
	f.sp.Ops = []clientOp{{Kind: "new"}, {Kind: "refresh"}}
	for k := 0; k < 3; k++ {
		f.sp.Ops = append(f.sp.Ops, clientOp{Kind: "download", Arg: pick(r, f.names)})
	}
	x := startClient(c, f.sp, c.Dir())
	defer x.end()
	for i, op := range f.sp.Ops {
		got, _, alive := x.result()
		c.Eval()
		c.Count("operations on occupied paths")
		when := fmt.Sprintf("operation %d (%s %q) with %s", i, op.Kind, op.Arg, how)
		if !alive {
			x.end()
			c.FailTags(Tags{"C17", "C04"}, "occupied-died", "%s: the client has ended: %s (%s)", when, shortHead(x.err.String()), f.desc)
			return
		}
		c.Logf("%s: %v", when, got.Err)
		c.Distinct("occupied", how, op.Kind, got.OK)
		if op.Kind == fails && got.OK {
			c.FailTags(Tags{"C17", "C16"}, "occupied-succeeds:"+how, "%s: succeeded (%s)", when, f.desc)
			return
		}
		now := snapTree(base)
		for k, v := range before {
			if now[k] != v {
				c.FailTags(Tags{"C17"}, "occupied:"+how, "%s: %q was %.60q, is %.60q (%s)", when, strings.TrimPrefix(k, base), v, now[k], f.desc)
				return
			}
		}
		if op.Kind == "download" && got.OK && how == "a target is a folder" {
			if fi, err := os.Stat(got.Path); err == nil && fi.IsDir() {
				c.FailTags(Tags{"C17", "C13"}, "occupied-delivers-folder", "%s: delivered %q, a folder (%s)", when, got.Path, f.desc)
				return
			}
		}
		if !got.OK && op.Kind != "download" {
			return
		}
		x.next()
	}
	c.Sample(map[string]any{"trace": c.trace})
}
