package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/ref"
)

// repairCase: a client with a damaged cache against one with an empty cache.
func repairCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 6, odd: 0.4, succinct: 0.3})
	p := w.p
	var names []string
	for _, n := range p.Order {
		names = append(names, ref.SortedKeys(p.Roles[n].Targets)...)
	}
	names = append(names, "nowhere")
	mc := defaultCfg()
	run := func(dir string, root []byte, looks []string, quiet bool) (st TState, ans []string, reqs int, ok bool) {
		st0 := w.states[len(w.states)-1]
		srv := &memSrv{f: serve(w.metaURL, w.targURL, st0, nil)}
		old := w.metaDir
		w.metaDir = dir
		u, err := newClient(w, root, mc, srv)
		w.metaDir = old
		if err != nil {
			c.Fail("new", "client over a damaged cache: %v", err)
			return
		}
		if err := u.Refresh(); err != nil {
			if !quiet {
				c.Fail("refresh", "refresh over a damaged cache: %v", err)
			}
			return
		}
		for _, n := range looks {
			tf, err := u.GetTargetInfo(n)
			if err != nil {
				ans = append(ans, n+": no")
			} else {
				ans = append(ans, fmt.Sprintf("%s: %d %v", n, tf.Length, tf.Hashes))
			}
		}
		tm := u.GetTrustedMetadataSet()
		return stateOf(&tm), ans, len(srv.log), true
	}
	// an honest client fills the cache
	for k := 1 + r.Intn(2); k > 0; k-- {
		var l []string
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, pick(r, names))
		}
		if _, _, _, ok := run(w.metaDir, p.Roots[0], l, false); !ok {
			return
		}
		for i := r.Intn(3); i > 0; i-- {
			p.Evolve()
			w.publishState()
		}
		if chance(r, 0.3) {
			p.RotateSome()
			p.Publish()
			w.publishState()
		}
	}
	var desc []string
	for k := 1 + r.Intn(3); k > 0; k-- {
		desc = append(desc, w.damageCache())
	}
	files := []string{"timestamp.json", "snapshot.json"}
	for _, n := range p.Order {
		files = append(files, ref.FileName(n))
	}
	for k := r.Intn(3); k > 0; k-- {
		n := pick(r, files)
		path := filepath.Join(w.metaDir, n)
		switch r.Intn(6) {
		case 0:
			os.Chmod(path, 0)
			desc = append(desc, n+" unreadable")
		case 1:
			os.Remove(path)
			os.Symlink("nowhere", path)
			desc = append(desc, n+" dangling link")
		case 2:
			os.WriteFile(path, bytes.Repeat([]byte(`{"signed":[`), 300000), 0644)
			desc = append(desc, n+" huge")
		case 3:
			if cur, err := os.ReadFile(path); err == nil {
				os.WriteFile(path, append(cur, pick(r, []string{" ", "\n\n", "}", "\x00"})...), 0644)
				desc = append(desc, n+" padded")
			}
		case 4: // two files swapped
			o := filepath.Join(w.metaDir, pick(r, files))
			a, e1 := os.ReadFile(path)
			b, e2 := os.ReadFile(o)
			if e1 == nil && e2 == nil {
				os.WriteFile(path, b, 0644)
				os.WriteFile(o, a, 0644)
				desc = append(desc, n+" and "+filepath.Base(o)+" swapped")
			}
		case 5: // a consistent older set
			st := pick(r, w.states)
			for _, f := range files {
				var best []byte
				for _, k := range ref.SortedKeys(st.Files) {
					if cn := ref.CacheName(k); cn == f || strings.HasSuffix(cn, "."+f) {
						best = st.Files[k]
					}
				}
				if best != nil {
					os.WriteFile(filepath.Join(w.metaDir, f), best, 0644)
				}
			}
			desc = append(desc, "an older set")
		}
	}
	// bins share their keys: the document of another one is validly signed
	for _, n := range p.Order {
		b, err := os.ReadFile(filepath.Join(w.metaDir, ref.FileName(n)))
		if err != nil || n == "targets" {
			continue
		}
		for _, k := range ref.SortedKeys(w.allFiles) {
			if k == ref.RemoteName(n) || strings.HasSuffix(k, "."+ref.RemoteName(n)) {
				continue
			}
			for _, d := range w.allFiles[k] {
				if bytes.Equal(bytes.TrimSpace(d), bytes.TrimSpace(b)) && sharesKeys(p, n, k) {
					os.Remove(filepath.Join(w.metaDir, ref.FileName(n)))
				}
			}
		}
	}
	var looks []string
	for i := r.Intn(5); i > 0; i-- {
		looks = append(looks, pick(r, names))
	}
	d := strings.Join(desc, ", ")
	c.Logf("%s; lookups %q", d, looks)
	c.Eval()
	fresh := filepath.Join(c.Dir(), "fresh")
	os.MkdirAll(fresh, 0755)
	want, wantAns, wantReq, ok := run(fresh, p.Roots[0], looks, true)
	if !ok {
		c.FailTags(Tags{"C24"}, "fresh", "a client with an empty cache cannot refresh from an honest repository")
		return
	}
	got, gotAns, gotReq, ok := run(w.metaDir, p.Roots[0], looks, false)
	c.Logf("fresh %d requests, damaged %d requests", wantReq, gotReq)
	if !ok {
		return
	}
	c.Count("damaged caches compared with empty ones")
	if gotReq < wantReq {
		c.Count("damaged caches still of use")
	}
	if k, x := diffState(got, want); x != "" {
		c.Fail("state:"+k, "after %s: trusted %s", d, x)
		return
	}
	for i := range wantAns {
		if gotAns[i] != wantAns[i] {
			c.Fail("answer", "after %s: lookup gives %s, with an empty cache %s", d, gotAns[i], wantAns[i])
			return
		}
	}
	g, f := readDir(w.metaDir), readDir(fresh)
	for _, n := range ref.SortedKeys(f) {
		c.Count("repaired or intact files compared")
		if !bytes.Equal(bytes.TrimSpace(g[n]), bytes.TrimSpace(f[n])) {
			c.FailTags(Tags{"C15", "C16"}, "not-repaired:"+cacheKind(n), "after %s: cached %s is %s, with an empty cache %s", d, n, docDesc(g[n]), docDesc(f[n]))
			return
		}
	}
	sort.Strings(desc)
	c.Distinct("repair", len(desc), wantReq, gotReq, len(looks))
	for _, x := range desc {
		for _, y := range strings.Fields(x) {
			if i := strings.LastIndex(y, "="); i >= 0 {
				c.Distinct("damage", y)
			}
		}
	}
	c.Sample(map[string]any{"trace": c.trace})
}

// sharesKeys tells whether a key of the role signs the other file as well.
func sharesKeys(p *Repo, role, file string) bool {
	for _, n := range p.Order {
		if n == role || file != ref.RemoteName(n) && !strings.HasSuffix(file, "."+ref.RemoteName(n)) {
			continue
		}
		for _, k := range p.Roles[n].Keys {
			for _, o := range p.Roles[role].Keys {
				if k == o {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	registry["C15"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "sessions over caches with missing, truncated, garbled, foreign, replayed, swapped, padded, unreadable or wrongly signed files, compared with the client model (success, trusted state, requests, files) and, differentially, with a client with an empty cache against the same repository; non-trivial cases are distinct kinds of damage, outcomes and requests saved",
		F: func(r *Run) {
			prof := uCache
			prof.scen = Tags{"C15"}
			r.Cases("repair", r.N(1500, 40000), repairCase)
			uRun(r, "u-cache", r.N(900, 25000), prof)
			r.Need("damaged caches compared with empty ones", 1000)
			r.Need("damaged caches still of use", 100)
			r.Need("repaired or intact files compared", 4000)
			r.Need("succeeded: refresh", 500)
		}}
}
