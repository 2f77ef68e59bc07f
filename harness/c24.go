package main

import (
	"bytes"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"

	"verif/harness/ref"
)

// honestCase: sessions against an honest repository, judged from the
// repository alone.
func honestCase(c *Case, loop *loopServer) {
	r := c.Rng
	var w *uWorld
	if chance(r, 0.35) {
		w = graphWorld(c)
	} else {
		w = newUWorld(c, uProfile{delegs: 9, odd: 0.5, succinct: 0.35, otherKeys: true, unusualURL: 0.3})
	}
	p := w.p
	http := loop != nil
	var rep *loopRepo
	if http {
		seg := fmt.Sprintf("h%d", c.Idx)
		var base string
		base, rep = loop.add(seg, nil)
		c.Defer(func() { loop.drop(seg) })
		w.metaURL = base + pick(r, []string{"", "/", "/md", "/a/b/"})
		w.targURL = withSlash(w.metaURL) + "targets"
	}
	type tloc struct {
		role string
		t    *Target
	}
	n := 1 + r.Intn(4)
	for sess := 0; sess < n; sess++ {
		desc := fmt.Sprintf("session %d", sess)
		if sess > 0 {
			for k := r.Intn(3); k > 0; k-- {
				desc += " " + p.Evolve()
				w.publishState()
			}
			for chance(r, 0.2) {
				p.RotateSome()
				p.Publish()
				w.publishState()
			}
		}
		st := w.states[len(w.states)-1]
		srv := &memSrv{f: serve(w.metaURL, w.targURL, st, nil)}
		root := p.Roots[0]
		ver := int64(1)
		switch r.Intn(3) {
		case 0:
			ver = 1 + r.Int63n(p.RootVer)
			root = p.Roots[ver-1]
		case 1:
			if b, err := os.ReadFile(filepath.Join(w.metaDir, "root.json")); err == nil {
				root = b
				for i, x := range p.Roots {
					if bytes.Equal(x, b) {
						ver = int64(i + 1)
					}
				}
			}
		}
		cached := readDir(w.metaDir)
		cfg, err := config.New(w.metaURL, root)
		if err != nil {
			c.Fail("config", "configuration refused: %v", err)
			return
		}
		noCache := chance(r, 0.07)
		cfg.LocalMetadataDir, cfg.LocalTargetsDir, cfg.DisableLocalCache = w.metaDir, w.targDir, noCache
		if !http {
			cfg.RemoteTargetsURL = w.targURL
			cfg.Fetcher = srv
		} else {
			f := serve(w.metaURL, w.targURL, st, nil)
			rep.mu.Lock()
			rep.f = func(u string) *ref.Resp {
				if x := f(u); x != nil {
					return x
				}
				if d, err := url.PathUnescape(u); err == nil {
					return f(d)
				}
				return nil
			}
			rep.log = nil
			rep.mu.Unlock()
		}
		reqs := func() []string {
			var out []string
			if http {
				rep.mu.Lock()
				defer rep.mu.Unlock()
				for _, u := range rep.log {
					out = append(out, loop.base+u)
				}
				rep.log = nil
				return out
			}
			for _, q := range srv.take() {
				out = append(out, q.URL)
			}
			return out
		}
		c.Eval()
		c.Logf("%s http=%v root %d of %d consistent=%v", desc, http, ver, p.RootVer, p.Consistent)
		u, err := updater.New(cfg)
		if err != nil {
			c.Fail("new", "%s: client refused: %v", desc, err)
			return
		}
		mb := withSlash(w.metaURL)
		asked := map[string]bool{}
		// takes the metadata requests of one operation
		check := func(op string, want []string) bool {
			got := reqs()
			for i := 0; i < len(got) || i < len(want); i++ {
				g, x := "none", "none"
				if i < len(got) {
					g = strings.TrimPrefix(got[i], mb)
				}
				if i < len(want) {
					x = want[i]
				}
				if g != x {
					c.Fail("request:"+op, "%s: request %d of %s is %q, expected %q (all: %q)", desc, i, op, g, x, got)
					return false
				}
				if asked[g] {
					c.Fail("request-again:"+op, "%s: %q requested again", desc, g)
					return false
				}
				asked[g] = true
				c.Count("requests judged")
			}
			return true
		}
		file := func(role string, v int64) string {
			if p.Consistent && role != "timestamp" {
				return fmt.Sprintf("%d.%s.json", v, url.PathEscape(role))
			}
			return url.PathEscape(role) + ".json"
		}
		has := func(role string, b []byte) bool {
			return bytes.Equal(cached[url.QueryEscape(role)+".json"], b)
		}
		raw := func(role string, v int64) []byte { return st.Files[file(role, v)] }
		var want []string
		for v := ver + 1; v <= p.RootVer+1; v++ {
			want = append(want, fmt.Sprintf("%d.root.json", v))
		}
		want = append(want, "timestamp.json")
		if !has("snapshot", raw("snapshot", p.SnapVer)) {
			want = append(want, file("snapshot", p.SnapVer))
		}
		loaded := map[string]bool{}
		role := func(n string) []string {
			if loaded[n] {
				return nil
			}
			loaded[n] = true
			if has(n, p.Roles[n].raw) {
				c.Count("cached files used")
				return nil
			}
			return []string{file(n, p.Roles[n].Version)}
		}
		want = append(want, role("targets")...)
		refreshed := false
		if chance(r, 0.7) {
			if err := u.Refresh(); err != nil {
				c.Fail("refresh", "%s: refresh fails: %v", desc, err)
				return
			}
			refreshed = true
			if !check("refresh", want) {
				return
			}
			c.Count("refreshes")
		}
		// what is there to be found
		all := map[string]bool{}
		for _, n := range p.Order {
			for t := range p.Roles[n].Targets {
				all[t] = true
			}
		}
		names := append(ref.SortedKeys(all), "nowhere", "dir/x")
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if len(names) > 14 {
			names = names[:14]
		}
		for _, n := range names {
			who, path, bad := walkRoles(p, n, 32)
			if bad {
				continue // the roles on the way are not honestly signed
			}
			tf, err := u.GetTargetInfo(n)
			var wl []string
			if !refreshed {
				wl, refreshed = want, true
			}
			for _, x := range path {
				wl = append(wl, role(x)...)
			}
			if !check("lookup", wl) {
				return
			}
			c.Count("lookups")
			c.Distinct("lookup", len(path), who == "", http, p.Consistent, noCache, len(wl))
			if who == "" {
				if err == nil {
					c.FailTags(Tags{"C24", "C10"}, "found", "%s: %q is found although no reachable role lists it", desc, n)
					return
				}
				continue
			}
			if err != nil || tf == nil {
				c.Fail("lookup", "%s: %q, listed by %q, is not found: %v", desc, n, who, err)
				return
			}
			t := p.Roles[who].Targets[n]
			if tf.Length != int64(len(t.Data)) {
				c.Fail("lookup-other", "%s: %q is described with length %d, role %q lists %d", desc, n, tf.Length, who, len(t.Data))
				return
			}
			for _, a := range t.Algs {
				h := ref.Sha256Hex(t.Data)
				if a == "sha512" {
					h = ref.Sha512Hex(t.Data)
				}
				if tf.Hashes[a].String() != h {
					c.Fail("lookup-other", "%s: %q is described with %s %s, role %q lists %s", desc, n, a, tf.Hashes[a], who, h)
					return
				}
			}
			// the published file under that name must be this one
			served := true
			for _, m := range p.Order {
				if o := p.Roles[m].Targets[n]; o != nil && o != t {
					served = served && p.Consistent
				}
			}
			if !served || http && strings.Contains(n, "#") || chance(r, 0.4) {
				continue
			}
			if !p.Consistent && !bytes.Equal(st.TFiles[n], t.Data) {
				continue
			}
			dest := ""
			if chance(r, 0.3) {
				dest = filepath.Join(c.Dir(), fmt.Sprintf("d%d", r.Intn(3)))
			}
			got, data, err := u.DownloadTarget(tf, dest, "")
			if err != nil || !bytes.Equal(data, t.Data) {
				c.Fail("download", "%s: download of %q: %v, %d bytes, expected %d", desc, n, err, len(data), len(t.Data))
				return
			}
			if dq := reqs(); len(dq) != 1 {
				c.Fail("download-requests", "%s: download of %q made the requests %q", desc, n, dq)
				return
			} else if !http {
				name := strings.TrimPrefix(dq[0], withSlash(w.targURL))
				ok := name == n && !p.Consistent
				if p.Consistent {
					i := strings.LastIndex(n, "/") + 1
					for _, h := range []string{ref.Sha256Hex(t.Data), ref.Sha512Hex(t.Data)} {
						ok = ok || name == n[:i]+h+"."+n[i:]
					}
				}
				if !ok {
					c.Fail("download-name", "%s: download of %q requested %q", desc, n, dq[0])
					return
				}
			}
			if !noCache {
				if b, err := os.ReadFile(got); err != nil || !bytes.Equal(b, t.Data) {
					c.Fail("download-file", "%s: the file of %q at %q is not the target: %v", desc, n, got, err)
					return
				}
			}
			c.Count("downloads")
		}
		if !refreshed {
			continue
		}
		// exactly the current documents
		tm := u.GetTrustedMetadataSet()
		exp := TState{"root": docUID(p.Roots[len(p.Roots)-1]), "timestamp": docUID(st.Files["timestamp.json"]), "snapshot": docUID(raw("snapshot", p.SnapVer))}
		for n := range loaded {
			exp["t:"+n] = docUID(p.Roles[n].raw)
		}
		if k, d := diffState(stateOf(&tm), exp); d != "" {
			c.Fail("state:"+cacheKind(k), "%s: in the end %s", desc, d)
			return
		}
		c.Count("sessions")
		if !noCache {
			now := readDir(w.metaDir)
			for _, x := range append([]string{"snapshot"}, ref.SortedKeys(loaded)...) {
				b := raw("snapshot", p.SnapVer)
				if x != "snapshot" {
					b = p.Roles[x].raw
				}
				if !bytes.Equal(now[url.QueryEscape(x)+".json"], b) {
					c.FailTags(Tags{"C24", "C16"}, "not-cached", "%s: the document of %q is not in the cache", desc, x)
					return
				}
			}
		}
		c.Distinct("session", sess, len(p.Order), p.Consistent, http, noCache, ver == p.RootVer, len(asked))
	}
	c.Sample(map[string]any{"roles": p.Order, "trace": c.trace})
}

func docUID(b []byte) string {
	v, err := ref.ParseView(b)
	if err != nil {
		panic(err)
	}
	return v.UID
}

// walkRoles follows the delegations of the repository: the role which lists
// path, and the roles read on the way.
func walkRoles(p *Repo, path string, max int) (role string, walk []string, bad bool) {
	seen := map[string]bool{}
	var visit func(n string) (string, bool)
	visit = func(n string) (string, bool) {
		if seen[n] {
			return "", false
		}
		if len(seen) > max {
			return "", true
		}
		walk = append(walk, n)
		t := p.Roles[n]
		if t.Targets[path] != nil {
			return n, true
		}
		seen[n] = true
		if s := t.Succinct; s != nil && len(t.Edges) == 0 {
			f, _ := visit((&ref.Succinct{BitLength: int64(s.Bits), Prefix: s.Prefix}).Bin(path))
			return f, true
		}
		for _, e := range t.Edges {
			if !(ref.RoleInfo{Paths: e.Paths, Prefixes: e.Prefixes}).Matches(path) {
				continue
			}
			if f, stop := visit(e.Child); stop {
				return f, true
			}
			if e.Terminating {
				return "", true
			}
		}
		return "", false
	}
	role, _ = visit("targets")
	_, bad = specLookup(p, path, max)
	return role, walk, bad
}

func init() {
	registry["C24"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "sessions against honest, evolving repositories (any names, layouts, rotations, both snapshot modes, caches of earlier sessions; in memory and over HTTP with the default configuration): every request, answer, download, trusted document and cached file judged from the repository alone, and model-based histories; non-trivial cases are distinct shapes of sessions and lookups",
		F: func(r *Run) {
			prof := uHonest
			prof.scen = Tags{"C24"}
			r.Cases("honest", r.N(1200, 40000), func(c *Case) { honestCase(c, nil) })
			loop := newLoopServer()
			r.Cases("honest-http", r.N(300, 6000), func(c *Case) { honestCase(c, loop) })
			uRun(r, "u-honest", r.N(500, 15000), prof)
			r.Need("sessions", 2000)
			r.Need("cached files used", 500)
			r.Need("downloads", 3000)
			r.Need("requests judged", 5000)
		}}
}
