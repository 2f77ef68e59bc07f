package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"

	"verif/harness/ref"
)

// U-level: histories of client sessions (updaters) against a simulated server
// and a real cache directory, compared with the reference client model.

// memSrv is a fetcher which answers from a function and logs the requests.
type memSrv struct {
	f   ref.Server
	via fetcher.Fetcher // carries the transfers, if set
	mu  sync.Mutex
	log []ref.Req
	bad []string
}

var errNet = errors.New("simulated transport failure")

func (m *memSrv) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	m.mu.Lock()
	m.log = append(m.log, ref.Req{URL: u, Max: max})
	if timeout <= 0 || timeout > time.Hour {
		m.bad = append(m.bad, fmt.Sprintf("%s requested with timeout %v", u, timeout))
	}
	r := m.f(u)
	m.mu.Unlock()
	if m.via != nil {
		return m.via.DownloadFile(u, max, timeout)
	}
	if r == nil {
		r = &ref.Resp{Status: 404}
	}
	switch {
	case r.Status == 0:
		return nil, fmt.Errorf("get %s: %w", u, errNet)
	case r.Status != 200:
		return nil, metadata.ErrDownloadHTTP{StatusCode: r.Status, URL: u}
	case int64(len(r.Data)) > max:
		return nil, metadata.ErrDownloadLengthMismatch{Msg: fmt.Sprintf("download of %s failed, too long", u)}
	}
	return append([]byte{}, r.Data...), nil
}

func (m *memSrv) take() []ref.Req {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.log
	m.log = nil
	return l
}

// serve turns a published state into a server.
func serve(metaURL, targURL string, st *State, over map[string]*ref.Resp) ref.Server {
	mb, tb := withSlash(metaURL), withSlash(targURL)
	return func(u string) *ref.Resp {
		if r, ok := over[u]; ok {
			return r
		}
		if strings.HasPrefix(u, tb) {
			if d, ok := st.TFiles[u[len(tb):]]; ok {
				return &ref.Resp{Status: 200, Data: d}
			}
		}
		if strings.HasPrefix(u, mb) {
			if d, ok := st.Files[u[len(mb):]]; ok {
				return &ref.Resp{Status: 200, Data: d}
			}
		}
		return nil
	}
}

func withSlash(u string) string {
	if strings.HasSuffix(u, "/") {
		return u
	}
	return u + "/"
}

type uProfile struct {
	sessions   int
	delegs     int
	odd        float64
	succinct   float64
	evil       float64 // share of sessions with crafted metadata
	stale      float64 // share of sessions against an older state
	mixed      float64 // share of sessions mixing files of several states
	netFaults  float64 // share of sessions with failing or damaged transfers
	cache      float64 // share of sessions with a damaged cache
	local      float64
	noCache    float64
	rotate     float64 // extra root rotations before a session
	limits     float64 // share of sessions with tight limits
	lookups    int
	downloads  float64
	noRefresh  float64
	twice      float64
	otherKeys  bool
	expire     float64 // share of publications with an expired document
	badInit    float64
	unusualURL float64
	scen       Tags // properties a scenario speaks about in general
	fetcher    func(m *memSrv, seed int64) fetcher.Fetcher
	tree       bool // compare the directory tree around every operation
	watch      bool // watch the metadata directory while clients run
}

type uWorld struct {
	c        *Case
	p        *Repo
	prof     uProfile
	states   []*State
	evil     []*State
	metaDir  string
	targDir  string
	metaURL  string
	targURL  string
	allFiles map[string][][]byte // every document ever published by role file
	paths    map[string]string   // default local path -> target path
	sess     int
}

func (w *uWorld) publishState() {
	st := w.p.State()
	w.states = append(w.states, st)
	for n, b := range st.Files {
		w.allFiles[n] = append(w.allFiles[n], b)
	}
}

// rootBase gives some repositories a long history of roots.
func rootBase(c *Case) int64 {
	if c.Section != "u-root" || c.Idx%19 != 3 {
		return 0
	}
	c.Count("repositories with high root versions")
	return []int64{1<<31 - 2, 1<<32 - 2, 1<<31 + 7, 1<<32 + 7, 1<<53 - 9, 1 << 40}[c.Idx/19%6]
}

// unusualSize makes some repositories much longer, or empty.
func (w *uWorld) unusualSize() {
	if w.c.Section != "u-honest" && w.c.Section != "u-cache" {
		return
	}
	r, p := rand.New(rand.NewSource(int64(w.c.Idx))), w.p
	switch w.c.Idx % 37 {
	case 5:
		for k := 0; k < 2; k++ {
			role := p.Roles[p.Order[r.Intn(len(p.Order))]]
			role.Pad = strings.Repeat("0123456789abcdef", 30000+r.Intn(60000))
			role.dirty = true
		}
		w.c.Count("repositories with long documents")
	case 9, 10:
		for _, n := range p.Order {
			if n != "targets" {
				delete(p.Roles, n)
			}
		}
		p.Order = []string{"targets"}
		t := p.Roles["targets"]
		t.Targets, t.Edges, t.Succinct, t.NoDeleg, t.dirty = map[string]*Target{}, nil, nil, true, true
		w.c.Count("empty repositories")
	default:
		return
	}
	p.Publish()
	w.states = nil
	w.publishState()
}

func newUWorld(c *Case, prof uProfile) *uWorld {
	r := c.Rng
	p := NewRepo(r, RepoOpts{Tag: fmt.Sprintf("%s-%d", c.Section, c.Idx), Now: time.Now().UTC(), OtherKeys: prof.otherKeys && c.Idx%12 == 0,
		Unknown: true, RootBase: rootBase(c), Delegations: r.Intn(prof.delegs + 1), OddNames: chance(r, prof.odd), Succinct: chance(r, prof.succinct)})
	w := &uWorld{c: c, p: p, prof: prof, allFiles: map[string][][]byte{}, paths: map[string]string{}}
	w.metaDir = filepath.Join(c.Dir(), "m")
	w.targDir = filepath.Join(c.Dir(), "t")
	w.metaURL, w.targURL = "http://repo.test/md", "http://repo.test/md/targets"
	if chance(r, prof.unusualURL) {
		w.metaURL = pick(r, []string{"http://repo.test/", "http://repo.test/a/b/", "https://[::1]:8080/x", "http://u:p@repo.test/m?q=1&x="})
		w.targURL = pick(r, []string{"http://cdn.test", "http://cdn.test/t/", "http://cdn.test/t%20t/"})
	}
	w.publishState()
	return w
}

// expireSomething republishes with one expired document.
func (w *uWorld) expireSomething() string {
	return "expired " + w.endAt(w.p.Past)
}

// endAt republishes with one document that ends at the given time.
func (w *uWorld) endAt(at func() time.Time) string {
	p, r := w.p, w.p.Rng
	switch r.Intn(4) {
	case 0:
		n := pick(r, p.Order)
		p.Roles[n].Expires = at()
		p.Roles[n].dirty = true
		p.Publish()
		p.Roles[n].Expires = time.Time{}
		p.Roles[n].dirty = true // fixed by the next publication
		return n
	case 1:
		p.Publish()
		d := p.TSDoc.Clone()
		d.Signed["expires"] = ref.TimeStr(at())
		d.Sigs = nil
		d.Sign(p.Top["timestamp"].Keys...)
		p.TSDoc = d
		p.Files["timestamp.json"] = d.Bytes(p.fmt())
		return "timestamp"
	case 2:
		p.Publish()
		d := p.SnapDoc.Clone()
		d.Signed["expires"] = ref.TimeStr(at())
		d.Sigs = nil
		d.Sign(p.Top["snapshot"].Keys...)
		raw := d.Bytes(p.fmt())
		p.put("snapshot", p.SnapVer, raw)
		t := p.TimestampDoc(p.TSVer, p.SnapVer, raw, p.Future())
		t.Sign(p.Top["timestamp"].Keys...)
		p.TSDoc = t
		p.Files["timestamp.json"] = t.Bytes(p.fmt())
		return "snapshot"
	default:
		w.rotateEnding(at())
		if chance(r, 0.6) {
			p.NextRoot(nil)
			return "intermediate root"
		}
		return "root"
	}
}

func (w *uWorld) rotateExpired() { w.rotateEnding(w.p.Past()) }

func (w *uWorld) rotateEnding(at time.Time) {
	p := w.p
	old := p.Top["root"].Keys
	p.RotateSome()
	d := p.RootDocs[len(p.RootDocs)-1].Clone()
	d.Signed["expires"] = ref.TimeStr(at)
	d.Sigs = nil
	p.signBoth(d, old)
	raw := d.Bytes(p.fmt())
	p.RootDocs[len(p.RootDocs)-1] = d
	p.Roots[len(p.Roots)-1] = raw
	p.Files[fmt.Sprintf("%d.root.json", p.RootVer)] = raw
}

// evilState crafts metadata with the current keys, faults included, without
// touching the honest history.
func (w *uWorld) evilState(faults []int) (*State, string) {
	p, r := w.p, w.p.Rng
	nf := func() int { return pick(r, faults) }
	type saved struct {
		v     int64
		raw   []byte
		dirty bool
	}
	sv := map[string]saved{}
	for n, t := range p.Roles {
		sv[n] = saved{t.Version, t.raw, t.dirty}
	}
	snapVer, tsVer := p.SnapVer, p.TSVer
	defer func() {
		for n, s := range sv {
			t := p.Roles[n]
			t.Version, t.raw, t.dirty = s.v, s.raw, s.dirty
		}
		p.SnapVer, p.TSVer = snapVer, tsVer
	}()
	st := p.State()
	desc := "evil:"
	put := func(role string, v int64, raw []byte) {
		for d := int64(-1); d <= 1; d++ {
			if p.Consistent {
				st.Files[fmt.Sprintf("%d.%s", v+d, ref.RemoteName(role))] = raw
			}
		}
		if !p.Consistent {
			st.Files[ref.RemoteName(role)] = raw
		}
	}
	for _, n := range p.Order {
		if !chance(r, 0.3) {
			continue
		}
		t := p.Roles[n]
		t.Version += int64(r.Intn(3) - 1)
		if t.Version < 1 {
			t.Version = 1
		}
		d := p.TargetsDoc(t, t.Version, p.Future())
		thr := len(t.Keys)
		if n == "targets" {
			thr = p.Top["targets"].Threshold
		}
		co := p.Craft(n, d, t.Keys, thr, nf())
		t.raw = co.raw
		put(n, t.Version, co.raw)
		desc += " [" + co.desc + "]"
	}
	p.SnapVer += int64(r.Intn(3) - 1)
	if p.SnapVer < 1 {
		p.SnapVer = 1
	}
	sd := p.SnapshotDoc(p.SnapVer, p.Future())
	sco := p.Craft("snapshot", sd, p.Top["snapshot"].Keys, p.Top["snapshot"].Threshold, nf())
	put("snapshot", p.SnapVer, sco.raw)
	if chance(r, 0.25) {
		desc += " rewritten" + w.rewrite(st)
	}
	p.TSVer += int64(r.Intn(4) - 1)
	if p.TSVer < 1 {
		p.TSVer = 1
	}
	td := p.TimestampDoc(p.TSVer, p.SnapVer, sco.raw, p.Future())
	tco := p.Craft("timestamp", td, p.Top["timestamp"].Keys, p.Top["timestamp"].Threshold, nf())
	st.Files["timestamp.json"] = tco.raw
	desc += fmt.Sprintf(" [%s v%d] [%s v%d]", sco.desc, p.SnapVer, tco.desc, p.TSVer)
	return st, desc
}

// rewrite replaces files of some targets roles, and perhaps the snapshot, by
// others of the same version, as well signed, that are not the listed ones.
func (w *uWorld) rewrite(st *State) string {
	r, p := w.c.Rng, w.p
	desc := ""
	again := func(d *ref.Doc, name string, version int64, keys []*ref.Key) {
		d = d.Clone()
		d.Signed["x-uid"] = p.UID("rw-" + strings.ReplaceAll(name, "%", "_"))
		if chance(r, 0.5) {
			d.Signed["x-more"] = strings.Repeat("m", r.Intn(20))
		}
		d.Sigs = nil
		st.Files[p.metaFile(name, version)] = d.Sign(keys...).Bytes(p.fmt())
		desc += fmt.Sprintf(" %q", name)
		w.c.Count("files replaced by others of their version")
	}
	some := pick(r, []float64{0.15, 0.4, 1})
	for _, n := range p.Order {
		if t := p.Roles[n]; t.doc != nil && chance(r, some) {
			again(t.doc, n, t.Version, t.Keys)
		}
	}
	if p.SnapDoc != nil && chance(r, 0.15) {
		again(p.SnapDoc, "snapshot", p.SnapVer, p.Top["snapshot"].Keys)
	}
	return desc
}

// mixedState takes each file from a random published state.
func (w *uWorld) mixedState() *State {
	st := w.states[len(w.states)-1].clone()
	r := w.c.Rng
	for _, n := range ref.SortedKeys(st.Files) {
		if strings.HasSuffix(n, ".root.json") {
			continue
		}
		if chance(r, 0.4) {
			if b, ok := pick(r, w.states).Files[n]; ok {
				st.Files[n] = b
			}
		}
	}
	return st
}

func (s *State) clone() *State {
	n := &State{Files: map[string][]byte{}, TFiles: map[string][]byte{}}
	for k, v := range s.Files {
		n.Files[k] = v
	}
	for k, v := range s.TFiles {
		n.TFiles[k] = v
	}
	return n
}

// netOverrides damages a few answers.
func (w *uWorld) netOverrides(st *State) (map[string]*ref.Resp, string) {
	r, p := w.c.Rng, w.p
	over := map[string]*ref.Resp{}
	desc := "net:"
	names := ref.SortedKeys(st.Files)
	for i := 0; i < 1+r.Intn(3); i++ {
		var n string
		if chance(r, 0.4) {
			n = pick(r, []string{"timestamp.json", fmt.Sprintf("%d.root.json", p.RootVer), fmt.Sprintf("%d.root.json", p.RootVer+1), p.metaFile("snapshot", p.SnapVer), p.metaFile("targets", p.Roles["targets"].Version)})
		} else {
			n = pick(r, names)
		}
		u := withSlash(w.metaURL) + n
		orig := st.Files[n]
		var resp *ref.Resp
		what := ""
		switch r.Intn(7) {
		case 0, 1:
			s := pick(r, []int{404, 403, 500, 503, 400, 401, 410, 301, 204, 206, 429})
			resp, what = &ref.Resp{Status: s}, fmt.Sprint(s)
		case 2:
			resp, what = &ref.Resp{Status: 0}, "transport"
		case 3:
			if len(orig) > 0 {
				resp, what = &ref.Resp{Status: 200, Data: orig[:r.Intn(len(orig))]}, "truncated"
			}
		case 4:
			resp, what = &ref.Resp{Status: 200, Data: append(append([]byte{}, orig...), bytes.Repeat([]byte(" "), 1+r.Intn(3))...)}, "padded"
		case 5:
			o := pick(r, names)
			resp, what = &ref.Resp{Status: 200, Data: st.Files[o]}, "bytes of "+o
		case 6:
			if len(orig) > 0 {
				resp, what = &ref.Resp{Status: 200, Data: bitFlip(r, orig)}, "bit flip"
			}
		}
		if resp != nil {
			if resp.Status == 200 && !judgeable(resp.Data) {
				continue
			}
			over[u] = resp
			desc += fmt.Sprintf(" %s=%s", n, what)
		}
	}
	return over, desc
}

// judgeable tells whether the model has a definite opinion on damaged bytes:
// either they are not JSON at all, or they are a well-formed document.
func judgeable(b []byte) bool {
	if _, err := ref.ParseJSON(b); err != nil {
		return true
	}
	_, err := ref.ParseView(b)
	return err == nil
}

// bitFlip changes one bit such that the effect is clear: either the result is
// no JSON any more or the identity of the document changes.
func bitFlip(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if r.Intn(2) == 0 {
		if u := bytes.Index(b, []byte(`"x-uid"`)); u >= 0 {
			if v := bytes.IndexByte(b[u+8:], '"'); v >= 0 {
				b[u+8+v+1] ^= 1
				return b
			}
		}
	}
	for {
		k := r.Intn(len(b))
		m := byte(1 << r.Intn(8))
		b[k] ^= m
		if _, err := ref.ParseJSON(b); err != nil {
			return b
		}
		b[k] ^= m
	}
}

func readDir(dir string) map[string][]byte {
	out := map[string][]byte{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return out
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			b = []byte("unreadable: " + err.Error())
		}
		out[e.Name()] = b
	}
	return out
}

// damageCache changes cached files; never the root.
func (w *uWorld) damageCache() string {
	r, p := w.c.Rng, w.p
	desc := "cache:"
	names := []string{"timestamp.json", "snapshot.json", "targets.json"}
	for _, n := range p.Order {
		names = append(names, ref.FileName(n))
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		n := pick(r, names)
		path := filepath.Join(w.metaDir, n)
		cur, _ := os.ReadFile(path)
		var b []byte
		what := ""
		switch r.Intn(11) {
		case 0:
			os.Remove(path)
			desc += " rm " + n
			continue
		case 1:
			b, what = []byte{}, "empty"
		case 2:
			if len(cur) == 0 {
				continue
			}
			b, what = cur[:r.Intn(len(cur))], "truncated"
		case 3:
			b = make([]byte, r.Intn(200))
			r.Read(b)
			what = "garbage"
		case 4: // replay of something published earlier under this name
			var l [][]byte
			for _, k := range ref.SortedKeys(w.allFiles) {
				if cn := ref.CacheName(k); cn == n || strings.HasSuffix(cn, "."+n) {
					l = append(l, w.allFiles[k]...)
				}
			}
			if len(l) == 0 {
				continue
			}
			b, what = pick(r, l), "replayed"
		case 5: // another role's file
			o := pick(r, ref.SortedKeys(w.allFiles))
			b, what = pick(r, w.allFiles[o]), "foreign:"+o
		case 6:
			b, what = pick(r, [][]byte{[]byte("null"), []byte("{}"), []byte("[]"), []byte(`"x"`), []byte(`{"signatures":[],"signed":null}`), []byte(`{"signatures":null,"signed":{}}`), []byte(`{"signed":{"_type":"timestamp"}}`), []byte("0"), []byte("{\"signed\":")}), "json junk"
		case 7: // bit flip
			if len(cur) == 0 {
				continue
			}
			b, what = bitFlip(r, cur), "bit flip"
		case 8, 9: // same document, signed by somebody else, with a huge version
			role, ok := roleOfFile(p, n)
			if !ok {
				continue
			}
			var d *ref.Doc
			switch role {
			case "timestamp":
				d = p.TimestampDoc(p.TSVer+int64(r.Intn(1000)), p.SnapVer+int64(r.Intn(1000)), []byte("x"), p.Future())
			case "snapshot":
				d = p.SnapshotDoc(p.SnapVer+int64(r.Intn(1000)), p.Future())
			default:
				d = p.TargetsDoc(p.Roles[role], p.Roles[role].Version+int64(r.Intn(1000)), p.Future())
			}
			d.Sign(p.strangers(role)...)
			b, what = d.Bytes(p.fmt()), "signed by strangers"
		case 10: // right keys, below the threshold or tampered
			role, ok := roleOfFile(p, n)
			if !ok || (role != "timestamp" && role != "snapshot" && role != "targets") {
				continue
			}
			var d *ref.Doc
			switch role {
			case "timestamp":
				d = p.TimestampDoc(p.TSVer, p.SnapVer, []byte("x"), p.Future())
			case "snapshot":
				d = p.SnapshotDoc(p.SnapVer, p.Future())
			default:
				d = p.TargetsDoc(p.Roles[role], p.Roles[role].Version, p.Future())
			}
			var s string
			for {
				var o *ref.Doc
				o, s = p.craftSig(d, p.Top[role].Keys, p.Top[role].Threshold, p.strangers(role))
				if s != "enough-with-junk" && s != "exact-threshold" {
					d = o
					break
				}
			}
			b, what = d.Bytes(p.fmt()), "sig:"+s
		}
		if !judgeable(b) && !isJunk(b) {
			continue
		}
		os.MkdirAll(w.metaDir, 0755)
		os.WriteFile(path, b, 0644)
		desc += fmt.Sprintf(" %s=%s", n, what)
	}
	return desc
}

// isJunk: JSON which is clearly no metadata document.
func isJunk(b []byte) bool {
	x, err := ref.ParseJSON(b)
	if err != nil {
		return true
	}
	m, ok := x.(map[string]any)
	if !ok {
		return true
	}
	s, ok := m["signed"].(map[string]any)
	if !ok {
		return true
	}
	_, ok = s["version"]
	return !ok
}

func roleOfFile(p *Repo, n string) (string, bool) {
	switch n {
	case "timestamp.json", "snapshot.json", "targets.json":
		return strings.TrimSuffix(n, ".json"), true
	}
	for _, r := range p.Order {
		if ref.FileName(r) == n {
			return r, true
		}
	}
	return "", false
}

// roleOfURL names the role requested by a metadata URL.
func (w *uWorld) roleOfURL(u string) string {
	n := strings.TrimPrefix(u, withSlash(w.metaURL))
	if n == "timestamp.json" {
		return "timestamp"
	}
	if strings.HasSuffix(n, ".root.json") {
		return "root"
	}
	if n == "snapshot.json" || strings.HasSuffix(n, ".snapshot.json") {
		return "snapshot"
	}
	return "targets"
}

// uSession is a pair of client and model.
type uSession struct {
	sealed  bool // see seal
	w       *uWorld
	cfg     *config.UpdaterConfig
	u       *updater.Updater
	m       *ref.Session
	srv     *memSrv
	scen    Tags
	desc    string
	mcache0 map[string][]byte
	quiet   bool
	watch   *watcher
	tree    map[string]string
	refused Tags // what the refusal of the last operation stands for
}

// outside is the tree around the client, apart from the metadata directory.
func (w *uWorld) outside() map[string]string {
	t := snapTree(w.c.Dir())
	for k := range t {
		if k == w.metaDir || strings.HasPrefix(k, w.metaDir+"/") {
			delete(t, k)
		}
	}
	// creating the (empty) targets directory is fine
	if t[w.targDir] == "dir" {
		delete(t, w.targDir)
	}
	return t
}

// judge compares the outcome of one operation. It returns false when the
// session cannot be continued.
func (s *uSession) judge(op string, err error, res ref.Res) bool {
	c := s.w.c
	c.Eval()
	c.Count("operations: " + op)
	c.Logf("  %s: model %s; library: %v", op, res, err)
	c.Distinct(op, res.Kind, res.Where, res.Faults.String(), s.scen, s.cfg.DisableLocalCache)
	if res.OK() {
		c.Count("succeeded: " + op)
	} else {
		c.Count("refused: " + string(res.Kind))
		for f := range res.Faults {
			c.Count("refused for " + string(f))
		}
	}
	where := res.Where
	switch where {
	case "root", "timestamp", "snapshot":
	default:
		where = "targets"
	}
	s.refused = nil
	if res.Kind == ref.EReject {
		s.refused = tagsForAccept(where, res.Faults)
	}
	switch {
	case res.OK() && err != nil:
		last := "root"
		if l := s.srv.log; len(l) > 0 {
			last = s.w.roleOfURL(l[len(l)-1].URL)
		}
		t := append(tagsForReject(last, err), s.scen...)
		if errors.Is(err, metadata.ErrDownloadLengthMismatch{}) {
			// asked with a length which is neither listed nor configured
			t = append(t, "C14")
		}
		c.FailTags(t, "false-reject:"+op+":"+last, "%s fails although it must succeed: %v (%s)", op, err, s.desc)
		return false
	case !res.OK() && err == nil:
		t := append(Tags{}, s.scen...)
		switch res.Kind {
		case ref.EReject:
			t = append(t, tagsForAccept(where, res.Faults)...)
		case ref.EHTTP, ref.ENet, ref.ETooLong:
			t = append(t, "C14")
			if where == "root" {
				t = append(t, "C05")
			}
		case ref.ENotFound:
			t = append(t, "C10")
		case ref.ENoFile, ref.ELocal:
			t = append(t, "C23")
		}
		c.FailTags(t, fmt.Sprintf("false-accept:%s:%s:%s:%s", op, res.Kind, where, res.Faults), "%s succeeds although it must fail: %s (%s)", op, res, s.desc)
		return false
	case err != nil:
		if m := wrongUKind(err, res); m != "" {
			c.FailTags(Tags{"C26"}, "error-kind:"+op+":"+string(res.Kind)+":"+res.Faults.String(), "%s at %s: %s", op, res.Where, m)
		}
	}
	return true
}

func wrongUKind(err error, res ref.Res) string {
	k := classify(err)
	switch res.Kind {
	case ref.EReject:
		return wrongKind(err, res.Faults)
	case ref.EHTTP:
		if !k.DLHTTP || k.Status != res.Status || !k.Download {
			return fmt.Sprintf("HTTP status %d reported as %v", res.Status, err)
		}
	case ref.ETooLong:
		if !k.DLLength || !k.Download {
			return fmt.Sprintf("over-long download reported as %v", err)
		}
	case ref.ENet:
		if !errors.Is(err, errNet) {
			return fmt.Sprintf("transport failure reported as %v", err)
		}
	case ref.ENotFound, ref.ELocal, ref.ENoFile:
		if k.Unsigned || k.BadVersion || k.Equal || k.Expired || k.LenHash || k.Download || k.DLHTTP || k.DLLength {
			return fmt.Sprintf("%s reported as %v", res.Kind, err)
		}
	}
	return ""
}

// compare checks trusted state, requests and cache after an operation.
func (s *uSession) compare(op string, nreq int) bool {
	c := s.w.c
	ok := true
	for _, b := range s.srv.bad {
		c.FailTags(Tags{"C14"}, "timeout", "%s", b)
	}
	// requests
	got, want := s.srv.log, s.m.Reqs
	for i := nreq; i < len(got) || i < len(want); i++ {
		var g, w ref.Req
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		c.Count("requests compared")
		if g == w {
			continue
		}
		t := append(Tags{"C24"}, s.scen...)
		if g.URL == w.URL {
			t = Tags{"C14"}
		} else if s.w.roleOfURL(g.URL) == "root" || s.w.roleOfURL(w.URL) == "root" {
			t = append(t, "C05")
		}
		if s.m.Cfg.Local {
			t = append(t, "C23")
		}
		c.FailTags(t, "request:"+op, "%s: request %d is %q max %d, expected %q max %d (%s)", op, i, g.URL, g.Max, w.URL, w.Max, s.desc)
		ok = false
		break
	}
	// trusted state
	tm := s.u.GetTrustedMetadataSet()
	if k, d := diffState(stateOf(&tm), modelState(s.m.T)); d != "" {
		t := append(Tags{"C09"}, s.scen...)
		switch k {
		case "root":
			t = append(t, "C05")
		case "timestamp", "snapshot":
			t = append(t, "C06")
		default:
			t = append(t, "C07")
		}
		t = append(t, s.refused...)
		c.FailTags(t, "state:"+op+":"+k, "%s: trusted %s (%s)", op, d, s.desc)
		ok = false
	} else if d := trustedMatches(&tm, s.m.T); d != "" {
		c.FailTags(append(Tags{"C02", "C03"}, s.scen...), "content:"+op, "%s: %s", op, d)
		ok = false
	}
	// the listing of the top level
	top := s.u.GetTopLevelTargets()
	var want0 map[string]ref.TargetInfo
	if v := s.m.T.Targets["targets"]; v != nil {
		want0 = v.Targets
	}
	d := ""
	for _, n := range ref.SortedKeys(want0) {
		if tf := top[n]; tf == nil {
			d = fmt.Sprintf("%q is not among them", n)
		} else if w := want0[n]; diffTarget(tf, n, &w) != "" {
			d = fmt.Sprintf("%q: %s", n, diffTarget(tf, n, &w))
		}
	}
	for _, n := range ref.SortedKeys(top) {
		if _, ok := want0[n]; !ok {
			d = fmt.Sprintf("%q is among them", n)
		}
	}
	c.Count("top-level listings compared")
	if d != "" {
		c.FailTags(append(Tags{"C24", "C10", "C23"}, s.scen...), "top:"+op, "%s: top-level targets: %s (%s)", op, d, s.desc)
		ok = false
	}
	// cache
	if !s.compareCache(op) {
		ok = false
	}
	if s.watch != nil && !s.judgeWatch(op) {
		ok = false
	}
	if s.tree != nil {
		c.Count("trees compared")
		if d := diffTree(s.tree, s.w.outside()); d != "" {
			c.FailTags(append(Tags{"C17"}, s.scen...), "tree:"+op, "%s: outside the metadata directory, %s (%s)", op, d, s.desc)
			ok = false
		}
	}
	return ok
}

func (s *uSession) compareCache(op string) bool {
	c := s.w.c
	got := readDir(s.w.metaDir)
	for _, n := range ref.SortedKeys(s.m.Cache) {
		c.Count("cached files compared")
		g, ok := got[n]
		if ok && bytes.Equal(g, s.m.Cache[n]) {
			continue
		}
		t := append(Tags{"C16", "C17"}, s.scen...)
		if n == "root.json" {
			t = append(t, "C05")
		}
		if s.m.Cfg.Local {
			t = append(t, "C23")
		}
		if !ok {
			c.FailTags(t, "cache-missing:"+cacheKind(n), "%s: cached file %s is missing (%s)", op, n, s.desc)
		} else {
			c.FailTags(t, "cache-content:"+cacheKind(n), "%s: cached file %s is %s, expected %s (%s)", op, n, docDesc(g), docDesc(s.m.Cache[n]), s.desc)
		}
		return false
	}
	for _, n := range ref.SortedKeys(got) {
		if _, ok := s.m.Cache[n]; !ok {
			t := append(Tags{"C16", "C17"}, s.scen...)
			if s.m.Cfg.Local {
				t = append(t, "C23")
			}
			c.FailTags(t, "cache-extra:"+cacheKind(n), "%s: unexpected file %s in the metadata directory: %s (%s)", op, n, docDesc(got[n]), s.desc)
			return false
		}
	}
	return true
}

func cacheKind(n string) string {
	switch n {
	case "root.json", "timestamp.json", "snapshot.json", "targets.json":
		return n
	}
	if strings.HasPrefix(n, "tuf_tmp") {
		return "temporary"
	}
	return "delegated"
}

func docDesc(b []byte) string {
	v, err := ref.ParseView(b)
	if err != nil {
		return fmt.Sprintf("%d bytes, no document (%q)", len(b), shortJSON(b))
	}
	return fmt.Sprintf("%s v%d %s", v.Type, v.Version, v.UID)
}

// open creates client and model for one session.
func (w *uWorld) open(root []byte, mc ref.Cfg, srv ref.Server, scen Tags, desc string) (*uSession, bool) {
	s := &uSession{w: w, scen: scen, desc: desc, srv: &memSrv{f: srv}}
	if w.prof.fetcher != nil {
		s.srv.via = w.prof.fetcher(s.srv, w.c.Rng.Int63())
	}
	cfg, err := config.New(w.metaURL, root)
	if err != nil {
		w.c.FailTags(Tags{"C24"}, "config", "configuration refused: %v", err)
		return nil, false
	}
	cfg.Fetcher = s.srv
	cfg.LocalMetadataDir, cfg.LocalTargetsDir = w.metaDir, w.targDir
	cfg.RemoteTargetsURL = w.targURL
	cfg.MaxRootRotations, cfg.MaxDelegations = mc.MaxRoot, mc.MaxDeleg
	cfg.RootMaxLength, cfg.TimestampMaxLength, cfg.SnapshotMaxLength, cfg.TargetsMaxLength = mc.RootMax, mc.TimestampMax, mc.SnapMax, mc.TargMax
	cfg.DisableLocalCache, cfg.UnsafeLocalMode, cfg.PrefixTargetsWithHash = mc.NoCache, mc.Local, mc.Prefix
	s.cfg = cfg
	mc.MetaURL, mc.TargetsURL = w.metaURL, w.targURL
	s.mcache0 = readDir(w.metaDir)
	var res ref.Res
	if w.prof.watch {
		os.MkdirAll(w.metaDir, 0755)
		s.watch = newWatcher(w.metaDir)
		w.c.Defer(s.watch.close)
	}
	if w.prof.tree {
		s.tree = w.outside()
	}
	if w.prof.tree || w.prof.watch {
		s.sealed = chance(w.c.Rng, 0.4)
	}
	open := s.seal()
	u, err := updater.New(cfg)
	open()
	s.m, res = ref.NewSession(mc, root, s.mcache0, srv, time.Now())
	s.u = u
	if u == nil && err == nil {
		w.c.Fail("nil-updater", "New returned neither a client nor an error")
		return nil, false
	}
	if err != nil && s.m.T == nil {
		s.judge("new", err, res)
		s.compareCache("new")
		return nil, false
	}
	if !s.judge("new", err, res) || err != nil {
		return nil, false
	}
	if !s.compare("new", 0) {
		return nil, false
	}
	return s, true
}

func defaultCfg() ref.Cfg {
	return ref.Cfg{MaxRoot: 32, MaxDeleg: 32, RootMax: 512000, TimestampMax: 16384, SnapMax: 2000000, TargMax: 5000000, Prefix: true}
}

// seal makes the folder around the client's own folders unwritable while the
// library works, in the sessions chosen for it.
func (s *uSession) seal() (open func()) {
	d := filepath.Dir(s.w.metaDir)
	if !s.sealed || d != s.w.c.Dir() {
		return func() {}
	}
	if !s.cfg.DisableLocalCache {
		for _, x := range []string{s.w.metaDir, s.w.targDir} {
			if i, err := os.Stat(x); err != nil || !i.IsDir() {
				return func() {}
			}
		}
	}
	if os.Chmod(d, 0o555) != nil {
		return func() {}
	}
	s.w.c.Count("operations with the surrounding folder read-only")
	return func() { os.Chmod(d, 0o755) }
}

func (s *uSession) refresh() bool {
	n := len(s.m.Reqs)
	open := s.seal()
	err := s.u.Refresh()
	open()
	res := s.m.Refresh()
	if !s.judge("refresh", err, res) {
		return false
	}
	return s.compare("refresh", n)
}

// lookup returns the target description when it is found.
func (s *uSession) lookup(path string) (*metadata.TargetFiles, bool) {
	c := s.w.c
	n := len(s.m.Reqs)
	open := s.seal()
	tf, err := s.u.GetTargetInfo(path)
	open()
	res := s.m.Lookup(path)
	if err == nil && tf == nil {
		c.FailTags(Tags{"C04", "C10", "C24"}, "nil-target", "lookup of %q returned neither target nor error", path)
		return nil, false
	}
	if !s.judge("lookup", err, res) {
		return nil, false
	}
	if err == nil {
		if d := diffTarget(tf, path, res.Target); d != "" {
			c.FailTags(append(Tags{"C10", "C24"}, s.scen...), "lookup-result", "lookup of %q: %s (expected the entry of role %q, visiting %q) (%s)", path, d, res.TRole, res.Visited, s.desc)
			return nil, false
		}
	}
	if !s.compare("lookup", n) {
		return nil, false
	}
	return tf, true
}

func diffTarget(tf *metadata.TargetFiles, path string, want *ref.TargetInfo) string {
	if tf.Path != path {
		return fmt.Sprintf("path %q", tf.Path)
	}
	if tf.Length != want.Length {
		return fmt.Sprintf("length %d, expected %d", tf.Length, want.Length)
	}
	if len(tf.Hashes) != len(want.Hashes) {
		return fmt.Sprintf("%d hashes, expected %d", len(tf.Hashes), len(want.Hashes))
	}
	for a, h := range want.Hashes {
		if !strings.EqualFold(tf.Hashes[a].String(), h) {
			return fmt.Sprintf("hash %s %s, expected %s", a, tf.Hashes[a], h)
		}
	}
	return ""
}

// download exercises DownloadTarget and FindCachedTarget.
func (s *uSession) download(tf *metadata.TargetFiles) bool {
	c, w, r := s.w.c, s.w, s.w.c.Rng
	c.Eval()
	want := &ref.TargetInfo{Length: tf.Length, Hashes: map[string]string{}}
	for a, h := range tf.Hashes {
		want.Hashes[a] = h.String()
	}
	dest := ""
	hadPrev := false
	if chance(r, 0.5) {
		dest = filepath.Join(c.Dir(), "out", fmt.Sprintf("f%d", r.Intn(4)))
		os.MkdirAll(filepath.Dir(dest), 0755)
		if chance(r, 0.4) {
			os.WriteFile(dest, []byte("previous content"), 0600)
		}
		if _, err := os.Stat(dest); err == nil {
			hadPrev = true
		}
	}
	before := snapTree(c.Dir())
	// a copy must survive the call unchanged
	n := len(s.srv.log)
	gotPath, data, err := s.u.DownloadTarget(tf, dest, "")
	reqs := append([]ref.Req{}, s.srv.log[n:]...)
	s.srv.log = s.srv.log[:n]
	after := snapTree(c.Dir())
	c.Count("operations: download")
	if len(reqs) != 1 {
		c.FailTags(Tags{"C13", "C24"}, "download-requests", "download of %q made %d requests", tf.Path, len(reqs))
		return false
	}
	okURL := false
	for _, u := range s.m.TargetURLs(tf.Path, want, "") {
		okURL = okURL || u == reqs[0].URL
	}
	if !okURL {
		c.FailTags(Tags{"C13", "C24"}, "download-url", "download of %q requested %q, expected one of %q", tf.Path, reqs[0].URL, s.m.TargetURLs(tf.Path, want, ""))
		return false
	}
	if reqs[0].Max != tf.Length {
		c.FailTags(Tags{"C14"}, "download-max", "download of %q with limit %d, signed length %d", tf.Path, reqs[0].Max, tf.Length)
		return false
	}
	resp := s.m.Srv(reqs[0].URL)
	if resp == nil {
		resp = &ref.Resp{Status: 404}
	}
	good := resp.Status == 200 && int64(len(resp.Data)) == want.Length && ref.HashesOK(want.Hashes, resp.Data) && len(want.Hashes) > 0
	c.Logf("  download %q from %s: status %d, %d bytes, good=%v: %v", tf.Path, reqs[0].URL, resp.Status, len(resp.Data), good, err)
	c.Distinct("download", resp.Status, good, dest == "", hadPrev, s.m.T.Root.Consistent, s.m.Cfg.Prefix, len(want.Hashes), strings.Count(tf.Path, "/"))
	tags := append(Tags{"C13"}, s.scen...)
	if good {
		c.Count("downloads delivered")
		if err != nil {
			c.FailTags(append(tags, "C24", "C25"), "download-refused", "download of %q refused although the bytes are right: %v", tf.Path, err)
			return false
		}
		if !bytes.Equal(data, resp.Data) {
			c.FailTags(tags, "download-data", "download of %q returned other bytes", tf.Path)
			return false
		}
		if dest != "" && gotPath != dest {
			c.FailTags(tags, "download-path", "download of %q to %q reported path %q", tf.Path, dest, gotPath)
			return false
		}
		if s.m.Cfg.NoCache {
			if d := diffTree(before, after); d != "" {
				c.FailTags(append(tags, "C17"), "nocache-write", "download with caching disabled changed files: %s", d)
				return false
			}
			return true
		}
		if dest == "" {
			if filepath.Dir(gotPath) != filepath.Clean(w.targDir) {
				c.FailTags(append(tags, "C17"), "download-outside", "default location of %q is %q, outside %q", tf.Path, gotPath, w.targDir)
				return false
			}
			if o, ok := w.paths[gotPath]; ok && o != tf.Path {
				c.FailTags(Tags{"C17", "C13"}, "target-collision", "targets %q and %q share the file %q", o, tf.Path, gotPath)
				return false
			}
			w.paths[gotPath] = tf.Path
		}
		b, e := os.ReadFile(gotPath)
		if e != nil || !bytes.Equal(b, resp.Data) {
			c.FailTags(append(tags, "C17"), "download-file", "file of %q at %q is not the target: %v", tf.Path, gotPath, e)
			return false
		}
		delete(before, gotPath)
		delete(after, gotPath)
		if d := diffTree(before, after); d != "" {
			c.FailTags(append(tags, "C17"), "download-other-files", "download of %q changed other files: %s", tf.Path, d)
			return false
		}
	} else {
		c.Count("downloads refused")
		if err == nil {
			c.FailTags(append(tags, "C25"), "download-accepted", "download of %q succeeded with wrong bytes (%d bytes, status %d, listed %d)", tf.Path, len(resp.Data), resp.Status, want.Length)
			return false
		}
		if data != nil {
			c.FailTags(tags, "download-data-on-error", "refused download of %q returned data", tf.Path)
		}
		if d := diffTree(before, after); d != "" {
			c.FailTags(tags, "download-write-on-error", "refused download of %q changed files: %s", tf.Path, d)
			return false
		}
		k := classify(err)
		m := ""
		switch {
		case resp.Status == 0:
			if !errors.Is(err, errNet) {
				m = "transport failure"
			}
		case resp.Status != 200:
			if !k.DLHTTP || k.Status != resp.Status || !k.Download || k.LenHash {
				m = fmt.Sprintf("status %d", resp.Status)
			}
		case int64(len(resp.Data)) > want.Length:
			if !k.DLLength || !k.Download {
				m = "over-long download"
			}
		default:
			if !k.LenHash || !k.Repo || k.Download {
				m = "length or hash mismatch"
			}
		}
		if m != "" {
			c.FailTags(Tags{"C26", "C13"}, "download-error-kind:"+m, "%s reported as: %v", m, err)
		}
		return true
	}
	// cached lookup
	if !s.m.Cfg.NoCache {
		mut := chance(r, 0.5)
		exp := true
		if mut {
			b := append([]byte{}, resp.Data...)
			switch r.Intn(4) {
			case 0:
				b = append(b, 0)
			case 1:
				if len(b) > 0 {
					b = b[:len(b)-1]
				} else {
					b = []byte("x")
				}
			case 2:
				if len(b) > 0 {
					b[r.Intn(len(b))] ^= 0x20
				} else {
					b = []byte("y")
				}
			case 3:
				os.Remove(gotPath)
			}
			exp = false
			if _, e := os.Lstat(gotPath); e == nil {
				os.WriteFile(gotPath, b, 0644)
			}
		}
		fp, fb, fe := s.u.FindCachedTarget(tf, dest)
		c.Count("operations: find cached")
		hit := fp != "" && fe == nil
		if hit != exp {
			c.FailTags(Tags{"C13", "C25"}, fmt.Sprintf("find-cached:%v", hit), "cached file of %q: reported=%v, matching=%v", tf.Path, hit, exp)
			return false
		}
		if hit && (!bytes.Equal(fb, resp.Data) || fp != gotPath) {
			c.FailTags(Tags{"C13"}, "find-cached-data", "cached file of %q reported as %q with other data", tf.Path, fp)
		}
		if !hit && (fp != "" || fb != nil) {
			c.FailTags(Tags{"C13"}, "find-cached-data", "no match for %q but data returned", tf.Path)
		}
	}
	return true
}

// snapTree reads a directory tree.
func snapTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case i.IsDir():
			out[p] = "dir"
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			out[p] = "file:" + string(b)
		default:
			t, _ := os.Readlink(p)
			out[p] = "other:" + i.Mode().String() + t
		}
		return nil
	})
	return out
}

func diffTree(a, b map[string]string) string {
	for _, k := range ref.SortedKeys(a) {
		if v, ok := b[k]; !ok {
			return k + " disappeared"
		} else if v != a[k] {
			return k + " changed"
		}
	}
	for _, k := range ref.SortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " appeared"
		}
	}
	return ""
}

func uHistory(c *Case, prof uProfile) {
	r := c.Rng
	w := newUWorld(c, prof)
	w.unusualSize()
	p := w.p
	names := func() string {
		// an existing target, a near miss or an odd name
		var all []string
		for _, n := range p.Order {
			all = append(all, ref.SortedKeys(p.Roles[n].Targets)...)
		}
		if len(all) > 0 && chance(r, 0.75) {
			return pick(r, all)
		}
		return w.p.targetName(r.Intn(9), chance(r, 0.3))
	}
	n := 1 + r.Intn(prof.sessions)
	shape := ""
	for w.sess = 0; w.sess < n; w.sess++ {
		desc := fmt.Sprintf("session %d:", w.sess)
		scen := append(Tags{}, prof.scen...)
		// the repository moves on
		if w.sess > 0 || chance(r, 0.4) {
			for k := r.Intn(3); k > 0; k-- {
				desc += " evolve(" + p.Evolve() + ")"
				w.publishState()
			}
		}
		for chance(r, prof.rotate) && len(p.Roots) < 40 {
			p.RotateSome()
			if chance(r, 0.3) {
				w.rotateExpired()
				p.NextRoot(nil)
			}
			p.Publish()
			w.publishState()
			desc += fmt.Sprintf(" root->%d", p.RootVer)
		}
		if chance(r, prof.expire) {
			desc += " " + w.expireSomething()
			w.publishState()
		}
		st := w.states[len(w.states)-1]
		over := map[string]*ref.Resp{}
		switch x := r.Float64(); {
		case x < prof.evil:
			var d string
			st, d = w.evilState([]int{0, 0, 0, 0, 1, 1, 2})
			desc += " " + d
			shape += "E"
		case x < prof.evil+prof.stale:
			k := r.Intn(len(w.states))
			st = w.states[k]
			desc += fmt.Sprintf(" stale state %d/%d", k, len(w.states))
			shape += "S"
		case x < prof.evil+prof.stale+prof.mixed:
			if chance(r, 0.6) {
				st = w.mixedState()
				desc += " mixed"
				shape += "M"
			} else {
				st = st.clone()
			}
			if chance(r, 0.6) {
				desc += " rewritten" + w.rewrite(st)
				shape += "W"
			}
		default:
			shape += "H"
		}
		if chance(r, prof.netFaults) {
			var d string
			over, d = w.netOverrides(st)
			desc += " " + d
			shape += "n"
		}
		if chance(r, prof.cache) {
			desc += " " + w.damageCache()
			shape += "c"
		}
		mc := defaultCfg()
		mc.Prefix = !chance(r, 0.3)
		mc.Local = chance(r, prof.local)
		mc.NoCache = chance(r, prof.noCache)
		if mc.Local {
			scen = append(scen, "C23")
			shape += "l"
		}
		if mc.NoCache {
			scen = append(scen, "C17")
			shape += "x"
		}
		if chance(r, prof.limits) {
			mc.MaxRoot = pick(r, []int64{0, 1, 2, 3, 5, math.MaxInt64, 1 << 40})
			mc.MaxDeleg = pick(r, []int{0, 1, 2, 3, 32})
			near := func(b []byte) int64 {
				if len(b) == 0 {
					return 1000
				}
				return int64(len(b) + r.Intn(3) - 1)
			}
			switch r.Intn(6) {
			case 0:
				mc.TimestampMax = near(st.Files["timestamp.json"])
			case 1:
				mc.SnapMax = near(st.Files[p.metaFile("snapshot", p.SnapVer)])
			case 2:
				mc.TargMax = near(st.Files[p.metaFile("targets", p.Roles["targets"].Version)])
			case 3:
				mc.RootMax = near(p.Roots[len(p.Roots)-1])
			case 4:
				if p.MetaLen {
					// what is listed counts, not the configured limits
					mc.SnapMax, mc.TargMax = int64(1+r.Intn(64)), int64(1+r.Intn(64))
				}
			}
			desc += fmt.Sprintf(" limits root=%d deleg=%d", mc.MaxRoot, mc.MaxDeleg)
			shape += "L"
		}
		root := p.Roots[0]
		switch {
		case chance(r, 0.3):
			if b, err := os.ReadFile(filepath.Join(w.metaDir, "root.json")); err == nil {
				root = b
				desc += " cached-root"
			}
		case chance(r, 0.2):
			k := r.Intn(len(p.Roots))
			root = p.Roots[k]
			desc += fmt.Sprintf(" start-root=%d", k+1)
		}
		if chance(r, prof.badInit) {
			var s string
			d, s := p.craftSig(p.RootDocs[0], rootKeysOf(p, p.RootDocs[0]), rootThr(p.RootDocs[0]), p.strangers("root"))
			root = d.Bytes(p.fmt())
			desc += " start-root-sig:" + s
		}
		c.Logf("%s", desc)
		s, ok := w.open(root, mc, serve(w.metaURL, w.targURL, st, over), scen, desc)
		if !ok {
			if c.failed {
				return
			}
			continue
		}
		c.Count("sessions")
		if !chance(r, prof.noRefresh) {
			if !s.refresh() {
				return
			}
			if chance(r, prof.twice) && !s.refresh() {
				return
			}
		}
		for k := 0; k < prof.lookups; k++ {
			tf, ok := s.lookup(names())
			if !ok {
				return
			}
			if tf != nil && chance(r, prof.downloads) {
				if chance(r, 0.4) {
					// the mirror misbehaves for this target
					w.breakTarget(over, tf, s)
				}
				if !s.download(tf) {
					return
				}
				if s.tree != nil {
					s.tree = w.outside()
				}
			}
		}
	}
	c.Count("histories")
	c.Distinct("history", shape)
	c.Sample(map[string]any{"sessions": shape, "trace": c.trace})
}

func (w *uWorld) breakTarget(over map[string]*ref.Resp, tf *metadata.TargetFiles, s *uSession) {
	r := w.c.Rng
	ti := &ref.TargetInfo{Length: tf.Length, Hashes: map[string]string{}}
	for a, h := range tf.Hashes {
		ti.Hashes[a] = h.String()
	}
	urls := s.m.TargetURLs(tf.Path, ti, "")
	base := s.m.Srv(urls[0])
	if base == nil || base.Status != 200 {
		return
	}
	d := append([]byte{}, base.Data...)
	var resp *ref.Resp
	switch r.Intn(8) {
	case 0:
		resp = &ref.Resp{Status: pick(r, []int{404, 403, 500, 206, 302})}
	case 1:
		resp = &ref.Resp{Status: 0}
	case 2:
		if len(d) == 0 {
			return
		}
		resp = &ref.Resp{Status: 200, Data: d[:len(d)-1]}
	case 3:
		resp = &ref.Resp{Status: 200, Data: append(d, 'x')}
	case 4:
		if len(d) == 0 {
			return
		}
		d[r.Intn(len(d))] ^= 1
		resp = &ref.Resp{Status: 200, Data: d}
	case 5:
		resp = &ref.Resp{Status: 200, Data: nil}
	case 6:
		if len(d) < 2 {
			return
		}
		d[0], d[1] = d[1], d[0]
		resp = &ref.Resp{Status: 200, Data: d}
	case 7:
		resp = &ref.Resp{Status: 200, Data: []byte(strings.Repeat("z", len(d)))}
	}
	s.srv.mu.Lock()
	for _, u := range urls {
		over[u] = resp
	}
	s.srv.mu.Unlock()
}

func rootThr(d *ref.Doc) int {
	return int(d.Signed["roles"].(J)["root"].(J)["threshold"].(int64))
}

func rootKeysOf(p *Repo, d *ref.Doc) []*ref.Key {
	var out []*ref.Key
	for _, id := range d.Signed["roles"].(J)["root"].(J)["keyids"].([]any) {
		if k := p.oldKeys[id.(string)]; k != nil {
			out = append(out, k)
		}
	}
	return out
}

func uRun(r *Run, section string, n int, prof uProfile) {
	r.Cases(section, n, func(c *Case) { uHistory(c, prof) })
}

// newClient makes a client without a model.
func newClient(w *uWorld, root []byte, mc ref.Cfg, srv *memSrv) (*updater.Updater, error) {
	cfg, err := config.New(w.metaURL, root)
	if err != nil {
		return nil, err
	}
	cfg.Fetcher = srv
	cfg.LocalMetadataDir, cfg.LocalTargetsDir = w.metaDir, w.targDir
	cfg.RemoteTargetsURL = w.targURL
	cfg.MaxRootRotations, cfg.MaxDelegations = mc.MaxRoot, mc.MaxDeleg
	cfg.DisableLocalCache, cfg.UnsafeLocalMode, cfg.PrefixTargetsWithHash = mc.NoCache, mc.Local, mc.Prefix
	return updater.New(cfg)
}
