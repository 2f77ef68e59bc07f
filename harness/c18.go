package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"

	"verif/harness/ref"
)

// loopServer serves repositories over HTTP on the loopback interface.
type loopServer struct {
	base string
	mu   sync.Mutex
	m    map[string]*loopRepo // first path segment
}

type loopRepo struct {
	f   ref.Server
	mu  sync.Mutex
	log []string
}

func newLoopServer() *loopServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &loopServer{base: "http://" + l.Addr().String(), m: map[string]*loopRepo{}}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		uri := q.RequestURI
		seg := strings.SplitN(strings.TrimPrefix(uri, "/"), "/", 2)[0]
		s.mu.Lock()
		r := s.m[seg]
		s.mu.Unlock()
		if r == nil {
			http.NotFound(w, q)
			return
		}
		r.mu.Lock()
		r.log = append(r.log, uri)
		x := r.f(s.base + uri)
		r.mu.Unlock()
		switch {
		case x == nil:
			http.NotFound(w, q)
		case x.Status == 0:
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
		default:
			w.WriteHeader(x.Status)
			w.Write(x.Data)
		}
	}))
	return s
}

func (s *loopServer) add(name string, f ref.Server) (string, *loopRepo) {
	r := &loopRepo{f: f}
	s.mu.Lock()
	s.m[name] = r
	s.mu.Unlock()
	return s.base + "/" + name, r
}

func (s *loopServer) drop(name string) {
	s.mu.Lock()
	delete(s.m, name)
	s.mu.Unlock()
}

type mrRepo struct {
	name string
	p    *Repo
	m    *ref.Session
	loop *loopRepo
	over map[string]*ref.Resp
	bad  string
	top  map[string]bool
	dead bool // no client can be made
}

type mrMapping struct {
	Paths        []string `json:"paths"`
	Repositories []string `json:"repositories"`
	Threshold    int      `json:"threshold"`
	Terminating  bool     `json:"terminating"`
}

var mrPaths = []string{"app/x.bin", "app/y.bin", "lib.tgz", "readme", "a/b/c", "app/z", "lib1.tgz", "/readme", "/app/x.bin"}
var mrPatterns = []string{"*", "*/*", "app/*", "app/x.bin", "*.tgz", "lib*", "lib?.tgz", "read[a-m]e", "[a-l]*", "*/*/*", "a/*/c", "app/[xy].bin", "none/*", "*.bin", "\\lib.tgz", "/*"}

func voteKey(t *ref.TargetInfo) string {
	return fmt.Sprint(t.Length, t.Hashes["sha256"])
}

// badPattern begins the malformed patterns.
const badPattern = "[z-"

// lookupMulti is the specified search.
func lookupMulti(maps []mrMapping, repos map[string]*mrRepo, path string) (info *ref.TargetInfo, who []string, kind string) {
	for _, mp := range maps {
		match := false
		for _, pt := range mp.Paths {
			if strings.HasPrefix(pt, badPattern) && !match {
				return nil, nil, "malformed"
			}
			match = match || ref.PathMatch(pt, path)
		}
		if !match {
			continue
		}
		votes := map[string][]string{}
		infos := map[string]*ref.TargetInfo{}
		seen := map[string]bool{}
		for _, n := range mp.Repositories {
			if seen[n] {
				continue
			}
			seen[n] = true
			if res := repos[n].m.Lookup(path); res.OK() {
				k := voteKey(res.Target)
				votes[k] = append(votes[k], n)
				if infos[k] == nil {
					infos[k] = res.Target
				}
			}
		}
		win := ""
		for k, l := range votes {
			if len(l) >= mp.Threshold {
				if win != "" {
					return nil, nil, "conflict"
				}
				win = k
			}
		}
		if win != "" {
			sort.Strings(votes[win])
			return infos[win], votes[win], "found"
		}
		if mp.Terminating {
			return nil, nil, "terminated"
		}
		for _, pt := range mp.Paths {
			if strings.HasPrefix(pt, badPattern) {
				return nil, nil, "malformed"
			}
		}
	}
	return nil, nil, "exhausted"
}

// repoName makes a name that can be a folder's.
func repoName(r *rand.Rand) string {
	s := ""
	for k := 1 + r.Intn(12); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			s += string(rune(33 + r.Intn(94)))
		case 1:
			s += pick(r, []string{"..", ".", " ", "%2e", "%", "~", "ß", "日", "-", "_"})
		default:
			s += string(rune('a' + r.Intn(26) - 32*r.Intn(2)))
		}
	}
	return strings.NewReplacer("/", "-", "\\", "=").Replace(s)
}

func multiCase(c *Case, srv *loopServer) {
	r := c.Rng
	n := 1 + r.Intn(4)
	repos := map[string]*mrRepo{}
	var names []string
	type variant struct{ data [3][]byte }
	pool := map[string]variant{}
	for _, path := range mrPaths {
		var v variant
		v.data[0] = make([]byte, 1+r.Intn(60))
		r.Read(v.data[0])
		v.data[1] = append([]byte{}, v.data[0]...)
		v.data[1][r.Intn(len(v.data[1]))] ^= 1
		v.data[2] = append(append([]byte{}, v.data[0]...), 'x')
		if chance(r, 0.12) { // an empty target is one, too
			v.data[r.Intn(3)] = []byte{}
		}
		pool[path] = v
	}
	roots := map[string][]byte{}
	urls := map[string][]string{}
	agree := 0.5 + r.Float64()/2
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", pick(r, []string{"repo", "Repo", "my repo ", "r.", "é", "a+b%2F", repoName(r), repoName(r), repoName(r)}), i)
		p := NewRepo(r, RepoOpts{Tag: fmt.Sprintf("%s-%d-%d", c.Section, c.Idx, i), Now: time.Now().UTC(), Unknown: true, Delegations: r.Intn(3)})
		for _, role := range p.Order {
			p.Roles[role].Targets = map[string]*Target{}
			p.Roles[role].dirty = true
		}
		for _, path := range mrPaths {
			if !chance(r, 0.75) {
				continue
			}
			role := "targets"
			if chance(r, 0.4) {
				role = pick(r, p.Order)
			}
			k := 0
			if !chance(r, agree) {
				k = 1 + r.Intn(2)
			}
			t := p.AddTarget(role, path)
			t.Data = pool[path].data[k]
			t.Algs = pick(r, [][]string{{"sha256"}, {"sha256"}, {"sha256", "sha512"}})
			if chance(r, 0.12) { // a length which the content does not have
				t.Extra = J{"length": json.Number(fmt.Sprint(len(t.Data) + pick(r, []int{1, 1, 1, 9})))}
				c.Count("entries with a length of another content")
			}
		}
		ended := ""
		if chance(r, 0.15) {
			ended = pick(r, p.Order)
			p.Roles[ended].Expires = p.Past()
		}
		p.Publish()
		st := p.State()
		x := &mrRepo{name: name, p: p, over: map[string]*ref.Resp{}, top: map[string]bool{}}
		seg := fmt.Sprintf("%s-%d-%d", c.Section, c.Idx, i)
		url := srv.base + "/" + seg
		if ended != "" {
			x.bad = "ended " + ended
		}
		spoil := r.Intn(14)
		if ended != "" {
			spoil = 99
		}
		switch spoil {
		case 2: // one of its documents is damaged, another version, gone or not to be had
			role := pick(r, append([]string{"snapshot", "timestamp"}, p.Order...))
			f := "timestamp.json"
			switch role {
			case "timestamp":
			case "snapshot":
				f = p.metaFile(role, p.SnapVer)
			default:
				f = p.metaFile(role, p.Roles[role].Version)
			}
			switch k := r.Intn(5); {
			case k == 0:
				delete(st.Files, f)
			case k == 1:
				x.over[url+"/"+f] = &ref.Resp{Status: pick(r, []int{404, 500, 403})}
			case k == 2:
				st.Files[f] = st.Files[f][:r.Intn(len(st.Files[f]))]
			case role == "timestamp":
				d := p.TimestampDoc(p.TSVer, p.SnapVer, st.Files[p.metaFile("snapshot", p.SnapVer)], p.Past())
				d.Sign(p.Top[role].Keys...)
				st.Files[f] = d.Bytes(0)
			case role == "snapshot":
				d := p.SnapshotDoc(p.SnapVer+int64(r.Intn(2)), p.Past())
				d.Sign(p.Top[role].Keys...)
				st.Files[f] = d.Bytes(0)
			default:
				d := p.TargetsDoc(p.Roles[role], p.Roles[role].Version+1, p.Future())
				d.Sign(p.Roles[role].Keys...)
				st.Files[f] = d.Bytes(0)
			}
			x.bad = "spoiled " + role
		case 0: // the repository is gone
			for f := range st.Files {
				x.over[url+"/"+f] = &ref.Resp{Status: pick(r, []int{404, 500, 403})}
			}
			x.bad = "unavailable"
		case 1: // what it says is not signed properly
			role := pick(r, p.Order)
			d := p.TargetsDoc(p.Roles[role], p.Roles[role].Version, p.Future())
			d.Sign(p.strangers(role)...)
			for f := range st.Files {
				if f == p.metaFile(role, p.Roles[role].Version) {
					st.Files[f] = d.Bytes(0)
				}
			}
			x.bad = "forged " + role
		}
		u, lr := srv.add(seg, serve(url, url+"/targets", st, x.over))
		c.Defer(func() { srv.drop(seg) })
		x.loop = lr
		if u != url {
			panic("url")
		}
		mc := defaultCfg()
		mc.MetaURL, mc.TargetsURL = url, url+"/targets"
		var res ref.Res
		x.m, res = ref.NewSession(mc, p.Roots[len(p.Roots)-1], map[string][]byte{}, serve(url, url+"/targets", st, x.over), time.Now())
		if !res.OK() {
			panic("root refused")
		}
		repos[name] = x
		names = append(names, name)
		roots[name] = p.Roots[len(p.Roots)-1]
		urls[name] = []string{url}
		if chance(r, 0.2) {
			urls[name] = append(urls[name], "http://127.0.0.1:1/second-mirror")
		}
	}
	var maps []mrMapping
	for k := r.Intn(6); k > 0; k-- {
		mp := mrMapping{Threshold: pick(r, []int{1, 1, 2, 2, 2, 3, 4}), Terminating: chance(r, 0.3)}
		for j := 1 + r.Intn(3); j > 0; j-- {
			mp.Paths = append(mp.Paths, pick(r, mrPatterns))
		}
		for j := 1 + r.Intn(5); j > 0; j-- {
			mp.Repositories = append(mp.Repositories, pick(r, names))
		}
		maps = append(maps, mp)
	}
	bad := false
	if len(maps) > 0 && c.Idx%9 == 4 {
		mp := &maps[c.Idx/9%len(maps)]
		at := c.Idx / 9 % (len(mp.Paths) + 1)
		mp.Paths = append(mp.Paths[:at:at], append([]string{badPattern}, mp.Paths[at:]...)...)
		bad = true
		c.Count("map files with a malformed pattern")
	}
	mj := map[string]any{"repositories": urls, "mapping": maps}
	if chance(r, 0.2) {
		mj["comment"] = "ignored"
	}
	raw, _ := json.Marshal(mj)
	cfg, err := multirepo.NewConfig(raw, roots)
	if bad && err != nil {
		return
	}
	if err != nil || cfg == nil {
		c.Fail("config", "valid map file %s refused: %v", raw, err)
		return
	}
	cfg.LocalMetadataDir = filepath.Join(c.Dir(), "m")
	shared := chance(r, 0.4)
	if shared {
		cfg.LocalTargetsDir = filepath.Join(c.Dir(), "t")
	}
	cfg.DisableLocalCache = chance(r, 0.2)
	cl, err := multirepo.New(cfg)
	if err != nil || cl == nil {
		c.Fail("new", "client for %s refused: %v", raw, err)
		return
	}
	desc := fmt.Sprintf("%d repositories", n)
	for _, x := range names {
		if repos[x].bad != "" {
			desc += " " + x + ":" + repos[x].bad
		}
	}
	desc += fmt.Sprintf(", mappings %+v", maps)
	unsure := false // which repositories a failed refresh reached
	if chance(r, 0.5) {
		err := cl.Refresh()
		want := true
		for _, x := range names {
			// a refresh stops at the first failure, in any order
			if !repos[x].m.Refresh().OK() {
				want = false
			}
		}
		c.Eval()
		c.Count("refreshes")
		unsure = !want
		if (err == nil) != want {
			c.Fail("refresh", "refresh: %v, expected success=%v (%s)", err, want, desc)
			return
		}
	}
	for k := 0; k < 6; k++ {
		path := pick(r, mrPaths)
		if len(maps) > 0 && chance(r, 0.6) {
			mp := pick(r, maps)
			for try := 0; try < 20; try++ {
				if q := pick(r, mrPaths); ref.PathMatch(pick(r, mp.Paths), q) {
					path = q
				}
			}
		}
		if chance(r, 0.1) {
			path = pick(r, []string{"none/x", "unknown", "app"})
		}
		info, who, kind := lookupMulti(maps, repos, path)
		ti, got, err := cl.GetTargetInfo(path)
		c.Eval()
		c.Count("lookups")
		c.Count("lookups: " + kind)
		c.Distinct(kind, len(maps), n, len(who), path)
		d := fmt.Sprintf("lookup of %q (%s)", path, desc)
		c.Logf("%s %v: %v %v", kind, who, got, err)
		if kind != "found" {
			if err == nil {
				c.Fail("accept:"+kind, "%s: gives %+v from %q, expected none: %s", d, ti, got, kind)
				return
			}
			if ti != nil || len(got) > 0 {
				c.Fail("error-with-result", "%s: an error with a result", d)
				return
			}
			continue
		}
		if err != nil || ti == nil {
			c.Fail("reject", "%s: %v, expected agreement of %q", d, err, who)
			return
		}
		srt := append([]string{}, got...)
		sort.Strings(srt)
		if strings.Join(srt, "|") != strings.Join(who, "|") {
			c.Fail("repositories", "%s: names %q, agreeing are %q", d, got, who)
			return
		}
		if ti.Length != info.Length || !strings.EqualFold(ti.Hashes["sha256"].String(), info.Hashes["sha256"]) || ti.Path != path {
			c.Fail("info", "%s: length %d sha256 %s, agreed are %d %s", d, ti.Length, ti.Hashes["sha256"], info.Length, info.Hashes["sha256"])
			return
		}
		data := dataOf(pool[path].data, info)
		if data == nil { // agreed, but nothing is like that
			p, b, err := cl.DownloadTarget(got, ti, "", "")
			c.Eval()
			c.Count("downloads of what does not exist")
			if err == nil {
				c.FailTags(Tags{"C18", "C03"}, "download-nothing", "download of %s gives %d bytes at %q, although no content has the agreed length and hashes", d, len(b), p)
				return
			}
			continue
		}
		if len(ti.Hashes) == 2 {
			if !ref.HashesOK(map[string]string{"sha512": ti.Hashes["sha512"].String()}, data) {
				c.Fail("info", "%s: sha512 %s does not belong to the agreed content", d, ti.Hashes["sha512"])
				return
			}
		}
		if !multiDownload(c, cl, cfg, repos, got, ti, data, shared, d) {
			return
		}
	}
	if unsure {
		return
	}
	// every repository keeps its own metadata
	for _, x := range names {
		d := readDir(filepath.Join(cfg.LocalMetadataDir, x))
		if cfg.DisableLocalCache {
			if len(d) > 0 {
				c.FailTags(Tags{"C18", "C17"}, "nocache", "files of %q with caching disabled", x)
				return
			}
			continue
		}
		for _, f := range ref.SortedKeys(repos[x].m.Cache) {
			if !bytes.Equal(d[f], repos[x].m.Cache[f]) {
				c.FailTags(Tags{"C18", "C16", "C17"}, "cache", "%q of %q holds %s, expected %s (%s)", f, x, docDesc(d[f]), docDesc(repos[x].m.Cache[f]), desc)
				return
			}
		}
	}
	// the top level of everybody
	union := map[string]bool{}
	all := true
	loaded := func() (n int) {
		for _, x := range names {
			if repos[x].m.T.Targets["targets"] != nil {
				n++
			}
		}
		return
	}
	loaded0 := loaded()
	for _, x := range names {
		m := repos[x].m
		if m.T.Targets["targets"] == nil {
			continue
		}
		for t := range m.T.Targets["targets"].Targets {
			union[t] = true
		}
	}
	for _, t := range ref.SortedKeys(union) {
		if _, _, kind := lookupMulti(maps, repos, t); kind != "found" {
			all = false
		}
	}
	if loaded() != loaded0 {
		return // listing refreshes more repositories on its way, in any order
	}
	got, err := cl.GetTopLevelTargets()
	c.Eval()
	c.Count("top-level listings")
	if (err == nil) != all {
		c.Fail("top-level", "top-level targets: %v; every one has an agreement: %v (%s)", err, all, desc)
		return
	}
	if err == nil {
		c.Count("top-level listings given")
		for _, t := range ref.SortedKeys(union) {
			info, _, _ := lookupMulti(maps, repos, t)
			if got[t] == nil || got[t].Length != info.Length || !strings.EqualFold(got[t].Hashes["sha256"].String(), info.Hashes["sha256"]) {
				c.Fail("top-level-info", "top-level targets: %q is %+v, agreed is %+v (%s)", t, got[t], info, desc)
				return
			}
		}
		if len(got) != len(union) {
			c.Fail("top-level-extra", "top-level targets: %d entries for %d targets (%s)", len(got), len(union), desc)
			return
		}
	}
	c.Sample(map[string]any{"map": string(raw), "trace": c.trace})
}

func dataOf(v [3][]byte, info *ref.TargetInfo) []byte {
	for _, d := range v {
		if int64(len(d)) == info.Length && ref.HashesOK(info.Hashes, d) {
			return d
		}
	}
	return nil
}

func multiDownload(c *Case, cl *multirepo.MultiRepoClient, cfg *multirepo.MultiRepoConfig, repos map[string]*mrRepo, who []string, ti *metadata.TargetFiles, data []byte, shared bool, desc string) bool {
	r := c.Rng
	if !chance(r, 0.6) {
		return true
	}
	// some mirrors misbehave
	good := 0
	for _, n := range who {
		x := repos[n]
		res := x.m.Lookup(ti.Path)
		us := x.m.TargetURLs(ti.Path, res.Target, "")
		us = append(us, x.m.TargetURLs(ti.Path, &ref.TargetInfo{Hashes: map[string]string{"sha256": ref.Sha256Hex(data), "sha512": ref.Sha512Hex(data)}}, "")...)
		var o *ref.Resp
		switch r.Intn(6) {
		case 0:
			o = &ref.Resp{Status: 404}
		case 1:
			o = &ref.Resp{Status: 200, Data: []byte(strings.Repeat("z", len(data)))}
			if len(data) == 0 {
				good++
			}
		case 2:
			o = &ref.Resp{Status: 200, Data: append(append([]byte{}, data...), 'y')}
		default:
			// TargetURLs may name a hash which this repository does not list
			o = &ref.Resp{Status: 200, Data: data}
			good++
		}
		x.loop.mu.Lock()
		for _, u := range us {
			x.over[u] = o
		}
		x.loop.mu.Unlock()
	}
	ask := append([]string{}, who...)
	dest := ""
	if chance(r, 0.4) {
		dest = filepath.Join(c.Dir(), fmt.Sprintf("dest%d", r.Intn(1000000)))
		if chance(r, 0.5) {
			os.WriteFile(dest, []byte("before"), 0644)
		}
	}
	cached := false
	if !cfg.DisableLocalCache {
		// an earlier download may still be there
		p := dest
		for _, n := range who {
			if dest == "" {
				p = filepath.Join(cfg.LocalMetadataDir, n, "targets", pathEsc(ti.Path))
				if shared {
					p = filepath.Join(cfg.LocalTargetsDir, pathEsc(ti.Path))
				}
			}
			if b, err := os.ReadFile(p); err == nil && bytes.Equal(b, data) {
				cached = true
			}
		}
	}
	before := snapTree(c.Dir())
	path, got, err := cl.DownloadTarget(ask, ti, dest, "")
	after := snapTree(c.Dir())
	c.Eval()
	c.Count("downloads")
	ok := good > 0 || cached
	if len(data) == 0 {
		c.Count("downloads of empty targets")
	}
	// whether an empty file counts as an earlier download is not specified
	if ok != (err == nil) && (len(data) > 0 || good > 0 || !cached) {
		c.Fail("download", "download of %q from %q, %d of them good, cached before %v: %v (%s)", ti.Path, ask, good, cached, err, desc)
		return false
	}
	if err != nil {
		if len(got) > 0 {
			c.FailTags(Tags{"C18", "C13"}, "download-data", "a failed download returns data")
			return false
		}
		if d := diffTree(before, after); d != "" {
			c.FailTags(Tags{"C18", "C13"}, "download-write", "a failed download of %q: %s", ti.Path, d)
			return false
		}
		return true
	}
	c.Count("downloads delivered")
	if !bytes.Equal(got, data) {
		c.FailTags(Tags{"C18", "C13"}, "download-bytes", "download of %q delivers other bytes than agreed (%s)", ti.Path, desc)
		return false
	}
	if cfg.DisableLocalCache {
		if d := diffTree(before, after); d != "" {
			c.FailTags(Tags{"C18", "C17"}, "download-nocache", "download of %q with caching disabled: %s", ti.Path, d)
			return false
		}
		return true
	}
	if b, e := os.ReadFile(path); e != nil || !bytes.Equal(b, data) || dest != "" && path != dest {
		c.FailTags(Tags{"C18", "C13"}, "download-file", "download of %q to %q: file %q is not the target (%v)", ti.Path, dest, path, e)
		return false
	}
	return true
}

func pathEsc(p string) string {
	f := ref.FileName(p)
	return strings.TrimSuffix(f, ".json")
}

// mapFileCase: malformed map files and roots.
func mapFileCase(c *Case) {
	r := c.Rng
	p := NewRepo(r, RepoOpts{Tag: fmt.Sprint("mf-", c.Idx), Now: time.Now().UTC()})
	root := p.Roots[0]
	roots := map[string][]byte{"a": root, "b": root}
	good := func() map[string]any {
		return map[string]any{
			"repositories": map[string]any{"a": []any{"http://127.0.0.1:1/a"}, "b": []any{"http://127.0.0.1:1/b", "http://127.0.0.1:1/c"}},
			"mapping":      []any{map[string]any{"paths": []any{"*"}, "repositories": []any{"a", "b"}, "threshold": 1, "terminating": true}},
		}
	}
	m := good()
	rp := m["repositories"].(map[string]any)
	mp := m["mapping"].([]any)[0].(map[string]any)
	ok := false
	what := ""
	var raw []byte
	newOnly := false // judged by New, not by NewConfig
	switch k := r.Intn(22); k {
	case 0:
		ok, what = true, "unchanged"
	case 1:
		m["mapping"] = []any{}
		ok, what = true, "no mapping"
	case 2:
		m["extra"], mp["extra"] = 1, []any{}
		ok, what = true, "unknown fields"
	case 3:
		rp[pick(r, []string{"", ".", "..", "x/y", "../x", "/etc", "x\\y"})] = []any{"http://127.0.0.1:1/a"}
		for n := range rp {
			roots[n] = root
		}
		what = "repository name"
	case 4:
		rp["a"] = []any{}
		what = "no address"
	case 5:
		rp["a"] = nil
		what = "null addresses"
	case 6:
		m["mapping"] = []any{nil}
		what = "null mapping"
	case 7:
		mp["repositories"] = []any{"a", "zz"}
		what = "unknown repository mapped"
	case 8:
		delete(roots, pick(r, []string{"a", "b"}))
		what = "root missing"
	case 9:
		raw, what = []byte(pick(r, []string{"null", "", "{", "[]", "7", `"x"`, "{}x", `{"repositories":`})), "no object"
	case 10:
		mp["threshold"] = pick(r, []any{"1", []any{}, map[string]any{}, 1.5, true})
		what = "threshold type"
	case 11:
		mp["terminating"] = pick(r, []any{"x", 1, []any{}})
		what = "terminating type"
	case 12:
		mp["paths"] = pick(r, []any{"*", 5, map[string]any{}, []any{1}})
		what = "paths type"
	case 13:
		rp["a"] = pick(r, []any{"http://127.0.0.1:1/a", 4, map[string]any{}, []any{5}})
		what = "addresses type"
	case 14:
		m["repositories"] = pick(r, []any{[]any{}, "x", 3})
		what = "repositories type"
	case 15:
		m["mapping"] = pick(r, []any{map[string]any{}, "x", 3})
		what = "mapping type"
	case 16:
		roots = nil
		what = "no roots"
	case 17:
		roots["a"] = pick(r, [][]byte{nil, {}, []byte("x"), []byte("null"), []byte("{}"), p.Files["timestamp.json"], root[:len(root)/2]})
		newOnly, what = true, "bad root"
	case 18:
		d := p.RootDocs[0].Clone()
		d.Signed["expires"] = "2001-01-01T00:00:00Z"
		roots["a"] = d.Bytes(0)
		newOnly, what = true, "tampered root"
	case 19:
		roots["unused"] = root
		ok, what = true, "a root too many"
	case 20:
		rp["a"] = []any{"http://127.0.0.1:1/%zz"}
		newOnly, what = true, "address"
	case 21:
		d := p.RootDocs[0].Clone()
		d.Sigs = nil
		roots["b"] = d.Bytes(0)
		newOnly, what = true, "unsigned root"
	}
	if raw == nil && what != "no object" {
		raw, _ = json.Marshal(m)
	}
	c.Eval()
	c.Distinct("map", what, ok, len(raw))
	cfg, err := multirepo.NewConfig(raw, roots)
	c.Logf("%s: %v", what, err)
	if err == nil && cfg == nil {
		c.Fail("nil-config", "map file with %s: neither a configuration nor an error", what)
		return
	}
	if ok || newOnly {
		if err != nil && ok {
			c.Fail("map-refused:"+what, "valid map file (%s) refused: %v", what, err)
			return
		}
		if err != nil {
			c.Count("map files refused")
			return
		}
		cfg.LocalMetadataDir = filepath.Join(c.Dir(), "m")
		cl, err := multirepo.New(cfg)
		if ok != (err == nil) || ok && cl == nil {
			c.Fail("map-new:"+what, "client for %s: %v", what, err)
			return
		}
		if ok {
			c.Count("map files accepted")
			// nothing is reachable: lookups fail, and tell so
			if ti, who, err := cl.GetTargetInfo("x"); err == nil {
				c.Fail("map-lookup", "lookup without a repository gives %+v of %q", ti, who)
			}
			_, _, err := cl.DownloadTarget(pick(r, [][]string{nil, {"zz"}, {"", "a"}}), &metadata.TargetFiles{Length: 1, Hashes: metadata.Hashes{"sha256": bytes.Repeat([]byte{1}, 32)}, Path: "x"}, "", "")
			if err == nil {
				c.FailTags(Tags{"C18", "C13"}, "map-download", "download without a repository succeeds")
			}
		} else {
			c.Count("map files refused")
		}
		return
	}
	if err == nil {
		// used as it is, it may still be refused, but never blow up
		c.Fail("map-accepted:"+what, "malformed map file (%s) accepted: %s", what, raw)
		return
	}
	c.Count("map files refused")
	// a configuration made by hand
	if r.Intn(2) == 0 {
		var mt *multirepo.MultiRepoMapType
		if json.Unmarshal(raw, &mt) == nil {
			h := &multirepo.MultiRepoConfig{RepoMap: mt, TrustedRoots: roots, LocalMetadataDir: filepath.Join(c.Dir(), "m")}
			cl, err := multirepo.New(h)
			c.Count("configurations made by hand")
			if err == nil {
				c.Fail("hand-accepted:"+what, "configuration with %s accepted: %v", what, cl != nil)
			}
		}
	}
}

func init() {
	registry["C18"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "multi-repository clients over HTTP on the loopback interface: up to four repositories which agree, disagree, fail or forge, map files with any patterns, lists with repetitions, thresholds and terminating flags; results compared with an independent search over independent client models; downloads with misbehaving mirrors; malformed map files and roots; non-trivial cases are distinct kinds of decision and sizes",
		F: func(r *Run) {
			srv := newLoopServer()
			r.Cases("multi", r.N(2500, 60000), func(c *Case) { multiCase(c, srv) })
			r.Cases("mapfile", r.N(1500, 30000), mapFileCase)
			r.Need("lookups: found", 1500)
			r.Need("lookups: conflict", 100)
			r.Need("lookups: terminated", 300)
			r.Need("lookups: exhausted", 300)
			r.Need("downloads delivered", 600)
			r.Need("top-level listings given", 20)
			r.Need("map files refused", 800)
			r.Need("map files accepted", 100)
		}}
}
