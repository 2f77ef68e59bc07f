package main

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"

	"verif/harness/ref"
)

// Nothing in here may synchronise the goroutines of a case between their
// start and their end: that would hide races from the detector.

type job struct {
	name string
	run  func() string
}

func (j job) safely() (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return j.run()
}

// atOnce runs every list of jobs in a goroutine of its own.
func atOnce(lists [][]job) [][]string {
	out := make([][]string, len(lists))
	start := make(chan struct{})
	done := make(chan struct{}, len(lists))
	for i := range lists {
		out[i] = make([]string, len(lists[i]))
		go func(l []job, o []string) {
			<-start
			for k := range l {
				o[k] = l[k].safely()
			}
			done <- struct{}{}
		}(lists[i], out[i])
	}
	close(start)
	for range lists {
		<-done
	}
	return out
}

// roFetcher has no state of its own and may be shared.
type roFetcher struct {
	f    ref.Server
	salt uint32
}

func (q *roFetcher) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	h := fnv.New32a()
	h.Write([]byte(u))
	switch x := (h.Sum32() ^ q.salt) * 2654435761 >> 24; x % 5 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(x) * time.Microsecond)
	case 2:
		for i := uint32(0); i < x*50; i++ {
			h.Write([]byte{byte(i)})
		}
	}
	r := q.f(u)
	switch {
	case r == nil:
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	case r.Status == 0:
		return nil, errNet
	case r.Status != 200:
		return nil, metadata.ErrDownloadHTTP{StatusCode: r.Status, URL: u}
	case int64(len(r.Data)) > max:
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return append([]byte{}, r.Data...), nil
}

type event struct {
	at  time.Duration
	who int
	url string
}

var t0 = time.Now()

// ownFetcher belongs to one client and passes on to a shared one.
type ownFetcher struct {
	inner fetcher.Fetcher
	who   int
	evs   []event
}

func (o *ownFetcher) DownloadFile(u string, max int64, timeout time.Duration) ([]byte, error) {
	o.evs = append(o.evs, event{time.Since(t0), o.who, u})
	return o.inner.DownloadFile(u, max, timeout)
}

// interleaving names the order in which the clients made their requests.
func interleaving(c *Case, fs []*ownFetcher) {
	var all []event
	for _, f := range fs {
		all = append(all, f.evs...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	h := sha256.New()
	sw := 0
	for i, e := range all {
		fmt.Fprintf(h, "%d ", e.who)
		if i > 0 && all[i-1].who != e.who {
			sw++
		}
	}
	c.R.Add("requests of concurrent clients", int64(len(all)))
	c.R.Add("switches between clients at requests", int64(sw))
	if sw >= len(fs) {
		c.Count("runs with interleaved requests")
	}
	c.Distinct("interleaving", fmt.Sprintf("%x", h.Sum(nil)))
}

type plan struct {
	root    []byte
	refresh bool
	names   []string
	down    []bool
	mc      ref.Cfg
	metaURL string
	targURL string
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return fmt.Sprintf("%+v", classify(err))
}

func copyDir(from, to string) {
	os.MkdirAll(to, 0755)
	for n, b := range readDir(from) {
		os.WriteFile(filepath.Join(to, n), b, 0644)
	}
}

// run is one client's life.
func (p *plan) run(meta, targ string, f fetcher.Fetcher) string {
	cfg, err := p.config(meta, targ, f)
	if err != nil {
		return "config: " + err.Error()
	}
	return p.runWith(cfg, targ)
}

func (p *plan) config(meta, targ string, f fetcher.Fetcher) (*config.UpdaterConfig, error) {
	cfg, err := config.New(p.metaURL, p.root)
	if err != nil {
		return nil, err
	}
	if f != nil {
		cfg.Fetcher = f
	}
	cfg.LocalMetadataDir, cfg.LocalTargetsDir, cfg.RemoteTargetsURL = meta, targ, p.targURL
	cfg.DisableLocalCache, cfg.PrefixTargetsWithHash, cfg.UnsafeLocalMode = p.mc.NoCache, p.mc.Prefix, p.mc.Local
	cfg.MaxDelegations = p.mc.MaxDeleg
	return cfg, nil
}

// runWith is a client's life with a configuration that others may share.
func (p *plan) runWith(cfg *config.UpdaterConfig, targ string) string {
	var out strings.Builder
	u, err := updater.New(cfg)
	fmt.Fprintf(&out, "new %s\n", errText(err))
	if err != nil {
		return out.String()
	}
	if p.refresh {
		fmt.Fprintf(&out, "refresh %s\n", errText(u.Refresh()))
	}
	for i, n := range p.names {
		tf, err := u.GetTargetInfo(n)
		fmt.Fprintf(&out, "lookup %q %s", n, errText(err))
		if err == nil {
			fmt.Fprintf(&out, " %d %s %s", tf.Length, tf.Hashes["sha256"], tf.Hashes["sha512"])
			if p.down[i] {
				path, data, err := u.DownloadTarget(tf, "", "")
				fmt.Fprintf(&out, " download %s %q %x", errText(err), strings.TrimPrefix(path, targ), sha256.Sum256(data))
				fp, fd, err := u.FindCachedTarget(tf, "")
				fmt.Fprintf(&out, " found %q %x %v", strings.TrimPrefix(fp, targ), sha256.Sum256(fd), err)
			}
		}
		out.WriteString("\n")
	}
	tm := u.GetTrustedMetadataSet()
	st := stateOf(&tm)
	for _, k := range ref.SortedKeys(st) {
		fmt.Fprintf(&out, "%s=%s\n", k, st[k])
	}
	return out.String()
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, m := "nothing", "nothing"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			m = y[i]
		}
		if l != m {
			return fmt.Sprintf("%q, expected %q", l, m)
		}
	}
	return ""
}

func (c *Case) badResult(section, got, want, desc string) bool {
	if strings.HasPrefix(got, "panic: ") {
		c.Fail("panic:"+section+":"+panicSite(got), "%s: %s", desc, strings.SplitN(got, "\n", 2)[0])
		return true
	}
	if got != want {
		c.Fail("differs:"+section, "%s: %s", desc, firstDiff(got, want))
		return true
	}
	return false
}

// concClientsCase: clients at the same time and each alone.
func concClientsCase(c *Case, loop *loopServer) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 5, odd: 0.3, succinct: 0.3, otherKeys: true})
	seg := ""
	if loop != nil {
		seg = fmt.Sprintf("c21-%d", c.Idx)
		w.metaURL = loop.base + "/" + seg
		w.targURL = w.metaURL + "/targets"
	}
	for k := r.Intn(3); k > 0; k-- {
		w.p.Evolve()
		w.publishState()
	}
	n := 2 + r.Intn(7)
	sharedDir := chance(r, 0.5)
	sharedTarg := sharedDir && chance(r, 0.7)
	sharedCfg := sharedTarg && chance(r, 0.6)
	rootOf := 0
	newest := w.states[len(w.states)-1]
	names := repoNames(w)
	base := filepath.Join(c.Dir(), "base")
	os.MkdirAll(base, 0755)
	desc := fmt.Sprintf("%d clients, http=%v, one directory=%v, one configuration=%v", n, loop != nil, sharedDir, sharedCfg)
	// the directory before: empty or of an earlier session, damaged or not
	if chance(r, 0.6) {
		st := w.states[r.Intn(len(w.states))]
		pl := plan{root: w.p.Roots[0], refresh: true, names: names[:r.Intn(len(names))], mc: defaultCfg(), metaURL: w.metaURL, targURL: w.targURL}
		pl.down = make([]bool, len(pl.names))
		pl.run(base, filepath.Join(c.Dir(), "t0"), &roFetcher{f: serve(w.metaURL, w.targURL, st, nil)})
		if chance(r, 0.4) {
			old := w.metaDir
			w.metaDir = base
			desc += " " + w.damageCache()
			w.metaDir = old
		}
	}
	var srvs []ref.Server
	st := newest
	var plans []*plan
	rootBytes := map[int][]byte{}
	for i := 0; i < n; i++ {
		mc := defaultCfg()
		mc.NoCache = chance(r, 0.1)
		k := pick(r, []int{0, 0, len(w.p.Roots) - 1, r.Intn(len(w.p.Roots))})
		if sharedCfg && i > 0 {
			k, mc = rootOf, plans[0].mc
		}
		rootOf = k
		if rootBytes[k] == nil {
			rootBytes[k] = append([]byte{}, w.p.Roots[k]...)
		}
		p := &plan{root: rootBytes[k], refresh: chance(r, 0.7), mc: mc, metaURL: w.metaURL, targURL: w.targURL}
		for j := r.Intn(5); j > 0; j-- {
			p.names = append(p.names, pick(r, names))
			p.down = append(p.down, chance(r, 0.5))
		}
		plans = append(plans, p)
		if !sharedDir && loop == nil && chance(r, 0.3) {
			st = w.states[r.Intn(len(w.states))]
		}
		srvs = append(srvs, serve(w.metaURL, w.targURL, st, nil))
	}
	if loop != nil {
		f := srvs[0]
		srvs[0] = func(u string) *ref.Resp {
			if x := f(u); x != nil {
				return x
			}
			if d, err := url.PathUnescape(u); err == nil {
				return f(d)
			}
			return nil
		}
		loop.add(seg, srvs[0])
		c.Defer(func() { loop.drop(seg) })
		for i := range srvs {
			srvs[i] = srvs[0]
		}
	}
	dirOf := func(kind string, i int) string { return filepath.Join(c.Dir(), fmt.Sprintf("%s%d", kind, i)) }
	// alone
	want := make([]string, n)
	finals := make([]map[string][]byte, n)
	reqs := make([]int, n)
	for i, p := range plans {
		copyDir(base, dirOf("am", i))
		var f fetcher.Fetcher = &roFetcher{f: srvs[i]}
		if loop != nil {
			f = &fetcher.DefaultFetcher{}
		}
		own := &ownFetcher{inner: f, who: i}
		want[i] = p.run(dirOf("am", i), dirOf("at", i), own)
		reqs[i] = len(own.evs)
		finals[i] = readDir(dirOf("am", i))
	}
	// at the same time
	salt := r.Uint32()
	fs := make([]*ownFetcher, n)
	one := &roFetcher{f: srvs[0], salt: salt}
	def := &fetcher.DefaultFetcher{}
	bare := chance(r, 0.3) || sharedCfg
	lists := make([][]job, n)
	var common *config.UpdaterConfig
	before := ""
	for i := range plans {
		i := i
		var in fetcher.Fetcher = one
		switch {
		case loop != nil:
			in = def
		case !sharedDir:
			in = &roFetcher{f: srvs[i], salt: salt}
		}
		fs[i] = &ownFetcher{inner: in, who: i}
		var f fetcher.Fetcher = fs[i]
		if bare {
			f = in
		}
		meta, targ := dirOf("m", i), dirOf("t", i)
		if sharedDir {
			meta = dirOf("m", 0)
		}
		if sharedTarg {
			targ = dirOf("t", 0)
		}
		copyDir(base, meta)
		lists[i] = []job{{"client", func() string { return plans[i].run(meta, targ, f) }}}
		if sharedCfg {
			if common == nil {
				var err error
				if common, err = plans[i].config(meta, targ, f); err != nil {
					c.Fail("config", "%s: %v", desc, err)
					return
				}
				before = fmt.Sprintf("%+v", *common)
			}
			lists[i] = []job{{"client", func() string { return plans[i].runWith(common, targ) }}}
		}
	}
	got := atOnce(lists)
	c.Eval()
	if sharedCfg {
		c.Count("runs with one configuration")
		if after := fmt.Sprintf("%+v", *common); after != before {
			c.Fail("config-changed", "%s: the shared configuration is changed", desc)
			return
		}
	}
	for i := range plans {
		c.Count("clients run concurrently")
		if strings.Contains(want[i], "\nrefresh ok") || strings.Contains(want[i], " ok ") {
			c.Count("of these succeeding")
		}
		if c.badResult("client", got[i][0], want[i], fmt.Sprintf("client %d of %s", i, desc)) {
			return
		}
	}
	if !bare {
		interleaving(c, fs)
		for i := range fs {
			if !sharedDir && len(fs[i].evs) != reqs[i] {
				c.Fail("requests", "client %d of %s makes %d requests, alone %d", i, desc, len(fs[i].evs), reqs[i])
				return
			}
		}
	}
	// the files
	if !sharedDir {
		for i := range plans {
			if d := sameCache(readDir(dirOf("m", i)), finals[i]); d != "" {
				c.Fail("files", "directory of client %d of %s: %s", i, desc, d)
				return
			}
		}
	} else {
		exp := readDir(base)
		start := readDir(base)
		for _, f := range finals {
			for k, b := range f {
				if !bytes.Equal(start[k], b) {
					exp[k] = b
				}
			}
		}
		if d := sameCache(readDir(dirOf("m", 0)), exp); d != "" && !onlyRootDiffers(readDir(dirOf("m", 0)), exp, finals) {
			c.Fail("files-shared", "the directory of %s: %s", desc, d)
			return
		}
	}
	for k := range rootBytes {
		if !bytes.Equal(rootBytes[k], w.p.Roots[k]) {
			c.Fail("root-bytes", "%s: the shared root bytes are changed", desc)
		}
	}
	c.Distinct("clients", n, sharedDir, sharedTarg, sharedCfg, loop != nil, bare, len(base))
	c.Sample(map[string]any{"desc": desc, "alone": strings.Split(want[0], "\n")})
}

// onlyRootDiffers: which client writes root.json last is open.
func onlyRootDiffers(got, exp map[string][]byte, finals []map[string][]byte) bool {
	ok := false
	for _, f := range finals {
		ok = ok || bytes.Equal(got["root.json"], f["root.json"])
	}
	g := map[string][]byte{}
	for k, v := range got {
		g[k] = v
	}
	g["root.json"] = exp["root.json"]
	return ok && sameCache(g, exp) == ""
}

type docSet struct {
	root *metadata.Metadata[metadata.RootType]
	ts   *metadata.Metadata[metadata.TimestampType]
	snap *metadata.Metadata[metadata.SnapshotType]
	targ map[string]*metadata.Metadata[metadata.TargetsType]
}

func loadSet(p *Repo, files map[string][]byte) (*docSet, error) {
	d := &docSet{targ: map[string]*metadata.Metadata[metadata.TargetsType]{}}
	var err error
	if d.root, err = metadata.Root().FromBytes(files["root"]); err != nil {
		return nil, err
	}
	if d.ts, err = metadata.Timestamp().FromBytes(files["timestamp"]); err != nil {
		return nil, err
	}
	if d.snap, err = metadata.Snapshot().FromBytes(files["snapshot"]); err != nil {
		return nil, err
	}
	for _, n := range p.Order {
		if d.targ[n], err = metadata.Targets().FromBytes(files["t:"+n]); err != nil {
			return nil, err
		}
	}
	return d, nil
}

func result(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// readers are the read-only uses of a set of documents.
func readers(p *Repo, d *docSet, paths []string, at time.Time, dir string) []job {
	var l []job
	add := func(name string, f func() string) { l = append(l, job{name, f}) }
	verify := func(err error) string { return errText(err) }
	for role, m := range map[string]any{"root": d.root, "timestamp": d.ts, "snapshot": d.snap, "targets": d.targ["targets"]} {
		role, m := role, m
		add("verify "+role, func() string { return verify(d.root.VerifyDelegate(role, m)) })
	}
	add("root bytes", func() string { return result(d.root.ToBytes(false)) })
	add("root pretty", func() string { return result(d.root.ToBytes(true)) })
	add("root json", func() string { return result(json.Marshal(d.root)) })
	add("root signed", func() string { return result(d.root.Signed.MarshalJSON()) })
	add("timestamp bytes", func() string { return result(d.ts.ToBytes(false)) })
	add("snapshot bytes", func() string { return result(d.snap.ToBytes(false)) })
	add("snapshot signed", func() string { return result(json.Marshal(d.snap.Signed)) })
	add("expiry", func() string {
		return fmt.Sprint(d.root.Signed.IsExpired(at), d.ts.Signed.IsExpired(at), d.snap.Signed.IsExpired(at), d.targ["targets"].Signed.IsExpired(at))
	})
	key := func(id string, k *metadata.Key) {
		add("key id", func() string { return k.ID() })
		add("key public", func() string {
			x, err := k.ToPublicKey()
			return fmt.Sprintf("%T %v %v", x, x, err)
		})
		add("key json", func() string { return result(json.Marshal(k)) })
	}
	for _, id := range ref.SortedKeys(d.root.Signed.Keys) {
		key(id, d.root.Signed.Keys[id])
	}
	for _, f := range ref.SortedKeys(d.snap.Signed.Meta) {
		f := f
		add("meta file", func() string { return errText(d.snap.Signed.Meta[f].VerifyLengthHashes([]byte(f))) })
	}
	for _, n := range p.Order {
		n, m := n, d.targ[n]
		add("targets bytes", func() string { return result(m.ToBytes(false)) })
		add("targets signed", func() string { return result(m.Signed.MarshalJSON()) })
		add("targets file", func() string {
			f, err := os.CreateTemp(dir, "w")
			if err != nil {
				panic(err)
			}
			f.Close()
			defer os.Remove(f.Name())
			if err := m.ToFile(f.Name(), false); err != nil {
				return err.Error()
			}
			return result(os.ReadFile(f.Name()))
		})
		for _, t := range ref.SortedKeys(m.Signed.Targets) {
			t := t
			tf := m.Signed.Targets[t]
			data := p.Roles[n].Targets[t].Data
			add("target", func() string {
				return fmt.Sprint(errText(tf.VerifyLengthHashes(data)), errText(tf.VerifyLengthHashes([]byte("no"))), tf.Equal(*tf), tf.Hashes.Equal(tf.Hashes))
			})
			add("target json", func() string { return result(json.Marshal(tf)) })
		}
		g := m.Signed.Delegations
		if g == nil {
			continue
		}
		for _, id := range ref.SortedKeys(g.Keys) {
			key(id, g.Keys[id])
		}
		for _, path := range paths {
			path := path
			add("roles for target", func() string { return fmt.Sprint(g.GetOrderedRolesForTarget(path), g.GetRolesForTarget(path)) })
		}
		for _, e := range g.Roles {
			e := e
			for _, path := range paths {
				path := path
				add("delegated path", func() string {
					ok, err := e.IsDelegatedPath(path)
					return fmt.Sprint(ok, err)
				})
			}
			add("verify delegated", func() string { return verify(m.VerifyDelegate(e.Name, d.targ[e.Name])) })
			add("verify misplaced", func() string { return verify(m.VerifyDelegate(e.Name, d.targ["targets"])) })
		}
		if s := g.SuccinctRoles; s != nil {
			add("bins", func() string { return fmt.Sprint(s.GetRoles(), s.IsDelegatedRole("bin-0"), s.IsDelegatedRole("bin-1")) })
			add("suffix", func() string {
				a, b := s.GetSuffixLen()
				return fmt.Sprint(a, b)
			})
			for _, path := range paths {
				path := path
				add("bin for target", func() string { return fmt.Sprint(s.GetRolesForTarget(path)) })
			}
			for _, b := range s.GetRoles() {
				b := b
				if d.targ[b] != nil {
					add("verify bin", func() string { return verify(m.VerifyDelegate(b, d.targ[b])) })
				}
			}
		}
		add("delegations json", func() string { return result(json.Marshal(g)) })
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func currentFiles(w *uWorld) map[string][]byte {
	p := w.p
	st := w.states[len(w.states)-1]
	f := map[string][]byte{"root": p.Roots[len(p.Roots)-1], "timestamp": st.Files["timestamp.json"], "snapshot": st.Files[p.metaFile("snapshot", p.SnapVer)]}
	for _, n := range p.Order {
		f["t:"+n] = p.Roles[n].raw
	}
	return f
}

// readersCase: one loaded set of documents, read by several goroutines.
func readersCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 4, odd: 0.3, succinct: 0.5, otherKeys: true})
	p := w.p
	if chance(r, 0.4) {
		p.Evolve()
		w.publishState()
	}
	files := currentFiles(w)
	names := repoNames(w)
	paths := []string{pick(r, names), pick(r, names), pick(r, graphPaths)}
	at := pick(r, []time.Time{p.Now, p.Future(), p.Past(), farFuture()})
	var d1, d2 *docSet
	var err error
	if d1, err = loadSet(p, files); err == nil {
		if chance(r, 0.3) {
			// objects held by a client
			u, e := newClient(w, p.Roots[0], defaultCfg(), &memSrv{f: serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil)})
			if e == nil {
				e = u.Refresh()
			}
			if e != nil {
				c.FailTags(Tags{"C24"}, "refresh", "%v", e)
				return
			}
			tm := u.GetTrustedMetadataSet()
			d2, err = loadSet(p, files)
			if err == nil {
				d2.root, d2.ts, d2.snap, d2.targ["targets"] = tm.Root, tm.Timestamp, tm.Snapshot, tm.Targets["targets"]
			}
		} else {
			d2, err = loadSet(p, files)
		}
	}
	if err != nil {
		c.FailTags(Tags{"C03"}, "load", "%v", err)
		return
	}
	alone := readers(p, d1, paths, at, c.Dir())
	want := make([]string, len(alone))
	for i, j := range alone {
		want[i] = j.safely()
	}
	ops := readers(p, d2, paths, at, c.Dir())
	n := 2 + r.Intn(7)
	var lists [][]job
	var perms [][]int
	same := chance(r, 0.4)
	perm := r.Perm(len(ops))
	for i := 0; i < n; i++ {
		if !same {
			perm = r.Perm(len(ops))
		}
		var l []job
		for _, k := range perm {
			l = append(l, ops[k])
		}
		lists, perms = append(lists, l), append(perms, perm)
	}
	got := atOnce(lists)
	c.Eval()
	for i := range got {
		for k := range got[i] {
			c.Count("concurrent reads")
			j := perms[i][k]
			if c.badResult("read:"+ops[j].name, got[i][k], want[j], fmt.Sprintf("%s with %d readers", ops[j].name, n)) {
				return
			}
		}
	}
	// unchanged by all that
	for i, j := range readers(p, d2, paths, at, c.Dir()) {
		if c.badResult("after:"+j.name, j.safely(), want[i], j.name+" afterwards") {
			return
		}
	}
	c.Distinct("readers", n, len(ops), same, p.Consistent)
	c.Sample(map[string]any{"readers": n, "uses": len(ops)})
}

// loadersCase: the same bytes and keys used to make objects of one's own.
func loadersCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 3, succinct: 0.3, otherKeys: true})
	p := w.p
	files := currentFiles(w)
	orig := map[string]string{}
	for k, b := range files {
		orig[k] = string(b)
	}
	ks := []*ref.Key{ref.Ed25519(fmt.Sprint("c21-", c.Idx)), ref.RSA(r.Intn(ref.NumRSA())), ref.ECDSA(r.Intn(ref.NumECDSA()), false)}
	pubs := []any{}
	for _, k := range ks {
		pubs = append(pubs, k.Signer.Public())
	}
	ks = ks[:1]
	sg, err := signature.LoadSigner(ks[0].Signer, crypto.SHA256)
	if err != nil {
		panic(err)
	}
	exp := time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	custom := J{"a": []any{"b"}}
	// every list of jobs has a key object of its own: AddKey keeps the object
	mk := func(files map[string][]byte) []job {
		ownKey := metaKey(ks[0])
		return []job{
			{"load", func() string {
				d, err := loadSet(p, files)
				if err != nil {
					return err.Error()
				}
				return result(d.root.ToBytes(false)) + result(d.snap.ToBytes(false)) + result(d.targ["targets"].ToBytes(false))
			}},
			{"trusted set", func() string {
				tm, err := trustedmetadata.New(files["root"])
				if err != nil {
					return err.Error()
				}
				var out []string
				_, err = tm.UpdateRoot(files["root"])
				out = append(out, errText(err))
				_, err = tm.UpdateTimestamp(files["timestamp"])
				out = append(out, errText(err))
				_, err = tm.UpdateSnapshot(files["snapshot"], false)
				out = append(out, errText(err))
				_, err = tm.UpdateTargets(files["t:targets"])
				out = append(out, errText(err))
				for _, e := range p.Roles["targets"].Edges {
					_, err = tm.UpdateDelegatedTargets(files["t:"+e.Child], e.Child, "targets")
					out = append(out, errText(err))
				}
				tm.RefTime = time.Time{}
				ds := deepState(tm)
				for _, k := range ref.SortedKeys(ds) {
					out = append(out, k+"="+ds[k])
				}
				return strings.Join(out, "\n")
			}},
			{"convert", func() string {
				s := ""
				for _, x := range pubs {
					k, err := metadata.KeyFromPublicKey(x)
					if err != nil {
						return err.Error()
					}
					y, err := k.ToPublicKey()
					s += fmt.Sprintf("%s %v %v\n", k.ID(), y, err)
				}
				return s
			}},
			{"build", func() string {
				m := metadata.Root(exp)
				for _, role := range []string{"root", "timestamp", "snapshot", "targets"} {
					if err := m.Signed.AddKey(ownKey, role); err != nil {
						return err.Error()
					}
				}
				if _, err := m.Sign(sg); err != nil {
					return err.Error()
				}
				t := metadata.Targets(exp)
				t.Signed.UnrecognizedFields = map[string]any{"x": custom}
				tf, err := metadata.TargetFile().FromBytes("f", files["root"], "sha256", "sha512")
				if err != nil {
					return err.Error()
				}
				t.Signed.Targets["f"] = tf
				if _, err := t.Sign(sg); err != nil {
					return err.Error()
				}
				if err := m.VerifyDelegate("targets", t); err != nil {
					return err.Error()
				}
				m.Signed.Version++
				m.ClearSignatures()
				return result(m.ToBytes(true)) + result(t.ToBytes(true)) + result(metadata.Snapshot(exp).ToBytes(false)) + result(metadata.Timestamp(exp).ToBytes(false))
			}},
		}
	}
	var want []string
	for _, j := range mk(files) {
		want = append(want, j.safely())
	}
	n := 2 + r.Intn(7)
	var lists [][]job
	var perms [][]int
	var ops []job
	for i := 0; i < n; i++ {
		ops = mk(files)
		perm := r.Perm(len(ops))
		var l []job
		for _, k := range perm {
			l = append(l, ops[k])
		}
		lists, perms = append(lists, l), append(perms, perm)
	}
	got := atOnce(lists)
	c.Eval()
	for i := range got {
		for k := range got[i] {
			c.Count("objects made concurrently")
			j := perms[i][k]
			if c.badResult("make:"+ops[j].name, got[i][k], want[j], fmt.Sprintf("%s with %d goroutines", ops[j].name, n)) {
				return
			}
		}
	}
	for k, b := range files {
		if string(b) != orig[k] {
			c.Fail("input", "the bytes of %s were changed", k)
		}
	}
	c.Distinct("loaders", n, len(p.Order))
}

// concMultiCase: multi-repository clients at the same time.
func concMultiCase(c *Case, loop *loopServer) {
	r := c.Rng
	nr := 1 + r.Intn(3)
	roots := map[string][]byte{}
	urls := map[string][]string{}
	var names, repos []string
	for i := 0; i < nr; i++ {
		name := fmt.Sprintf("r%d", i)
		p := NewRepo(r, RepoOpts{Tag: fmt.Sprintf("cm-%d-%d", c.Idx, i), Now: time.Now().UTC(), Delegations: r.Intn(3)})
		for _, path := range mrPaths {
			t := p.AddTarget("targets", path)
			t.Data = []byte(path)
			t.Algs = []string{"sha256"}
		}
		p.Publish()
		seg := fmt.Sprintf("cm-%d-%d", c.Idx, i)
		u := loop.base + "/" + seg
		loop.add(seg, serve(u, u+"/targets", p.State(), nil))
		c.Defer(func() { loop.drop(seg) })
		roots[name], urls[name] = p.Roots[len(p.Roots)-1], []string{u}
		repos = append(repos, name)
	}
	raw, _ := json.Marshal(map[string]any{"repositories": urls, "mapping": []mrMapping{{Paths: []string{"app/*"}, Repositories: repos, Threshold: 1 + r.Intn(nr), Terminating: true}, {Paths: []string{"*"}, Repositories: repos[:1], Threshold: 1}}})
	for k := 2 + r.Intn(3); k > 0; k-- {
		names = append(names, pick(r, mrPaths))
	}
	life := func(dir string) string {
		cfg, err := multirepo.NewConfig(raw, roots)
		if err != nil {
			return err.Error()
		}
		cfg.LocalMetadataDir, cfg.LocalTargetsDir = filepath.Join(dir, "m"), filepath.Join(dir, "t")
		cl, err := multirepo.New(cfg)
		if err != nil {
			return err.Error()
		}
		out := errText(cl.Refresh())
		for _, n := range names {
			ti, who, err := cl.GetTargetInfo(n)
			sort.Strings(who)
			out += fmt.Sprintf("\n%s %q %s", n, who, errText(err))
			if err == nil {
				_, data, err := cl.DownloadTarget(who, ti, "", "")
				out += fmt.Sprintf(" %q %s", data, errText(err))
			}
		}
		return out
	}
	want := life(filepath.Join(c.Dir(), "alone"))
	n := 2 + r.Intn(4)
	shared := chance(r, 0.4)
	var lists [][]job
	for i := 0; i < n; i++ {
		dir := filepath.Join(c.Dir(), fmt.Sprint("c", i))
		if shared {
			dir = filepath.Join(c.Dir(), "c")
		}
		lists = append(lists, []job{{"multi", func() string { return life(dir) }}})
	}
	got := atOnce(lists)
	c.Eval()
	for i := range got {
		c.Count("multi-repository clients run concurrently")
		if c.badResult("multi", got[i][0], want, fmt.Sprintf("client %d of %d, one directory=%v", i, n, shared)) {
			return
		}
	}
	c.Distinct("multi", n, nr, shared, len(names))
}

// raceReports reads what the race detector wrote.
func raceReports(out string) (viols []*Viol, own int) {
	files, _ := filepath.Glob(filepath.Join(out, "race.*"))
	seen := map[string]*Viol{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			sites := raceSites(rep)
			lib := false
			for _, s := range sites {
				lib = lib || strings.HasPrefix(s, "lib:")
			}
			if !lib {
				own++
				continue
			}
			sort.Strings(sites)
			key := "race:" + strings.Join(sites, "|")
			if v := seen[key]; v != nil {
				v.Count++
				continue
			}
			v := &Viol{Prop: *flagProp, Key: key, Seed: *flagSeed, Tier: *flagTier, Count: 1, Msg: "data race between " + strings.Join(sites, " and "), Trace: strings.Split(strings.TrimSpace(rep), "\n")}
			if len(v.Trace) > 60 {
				v.Trace = v.Trace[:60]
			}
			seen[key] = v
			viols = append(viols, v)
		}
	}
	return
}

// raceSites names the innermost functions of ours or of the library in the
// two accesses of a report.
func raceSites(rep string) []string {
	var sites []string
	in, found := false, false
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine"):
			in, found = true, false
		case strings.HasPrefix(t, "Goroutine ") || t == "":
			in = false
		case in && !found && !strings.HasPrefix(t, "/"):
			fn := t
			if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			switch {
			case strings.Contains(fn, "rdimitrov/go-tuf-metadata/"):
				sites, found = append(sites, "lib:"+fn[strings.Index(fn, "go-tuf-metadata/")+len("go-tuf-metadata/"):]), true
			case strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verif/harness"):
				sites, found = append(sites, "own:"+fn), true
			}
		}
	}
	return sites
}

func init() {
	registry["C21"] = &Prop{Level: "exploration", Asm: append([]string{"the race detector sees the executions that occur, under the scheduler's choices, injected delays and yields"}, asmCommon...),
		Rule: "under Go's race detector: independent clients at the same time, sharing fetcher, root bytes, cache and target directories, in memory and over HTTP, multi-repository clients, concurrent readers of loaded and of a client's metadata, concurrent makers of objects from shared bytes, keys and signers; results, requests and files compared with each alone; non-trivial cases are distinct interleavings of requests and shapes",
		F: func(r *Run) {
			if !raceEnabled {
				r.Inconclusive("the monitor was built without the race detector")
			}
			loop := newLoopServer()
			r.Cases("clients", r.N(130, 4000), func(c *Case) { concClientsCase(c, nil) })
			r.Cases("clients-http", r.N(30, 800), func(c *Case) { concClientsCase(c, loop) })
			r.Cases("readers", r.N(80, 3000), readersCase)
			r.Cases("loaders", r.N(60, 2000), loadersCase)
			r.Cases("multi", r.N(15, 500), func(c *Case) { concMultiCase(c, loop) })
			r.Need("clients run concurrently", 500)
			r.Need("of these succeeding", 300)
			r.Need("runs with interleaved requests", 40)
			r.Need("runs with one configuration", 15)
			r.Need("concurrent reads", 10000)
			r.Need("objects made concurrently", 500)
			r.Need("multi-repository clients run concurrently", 20)
		}}
}
