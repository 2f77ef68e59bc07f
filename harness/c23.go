package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"

	"verif/harness/ref"
)

// offline is a server for clients which must not use one.
func offline() *memSrv {
	return &memSrv{f: func(string) *ref.Resp { return nil }}
}

// repoNames lists the targets of a repository and a few strangers.
func repoNames(w *uWorld) []string {
	var names []string
	for _, n := range w.p.Order {
		names = append(names, ref.SortedKeys(w.p.Roles[n].Targets)...)
	}
	return append(names, "nowhere", "dir/nowhere", "f0.txt")
}

type answer struct {
	ok      bool
	desc    string
	visited []string
}

func ask(u *updater.Updater, path string) answer {
	tf, err := u.GetTargetInfo(path)
	if err != nil {
		return answer{desc: err.Error()}
	}
	return answer{ok: true, desc: fmt.Sprintf("%s %d %v", tf.Path, tf.Length, tf.Hashes)}
}

// localCase: what an online client wrote is used offline.
func localCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 6, odd: 0.4, succinct: 0.3, otherKeys: true})
	p := w.p
	for k := r.Intn(3); k > 0; k-- {
		p.Evolve()
		w.publishState()
	}
	// some targets are listed by several roles, whose order decides
	var layers []string
	if p.Roles["targets"].Succinct == nil && chance(r, 0.35) {
		above := "targets"
		for k := 0; k < 2+r.Intn(3); k++ {
			role := &TRole{Name: fmt.Sprintf("layer%d", k), Version: int64(1 + r.Intn(3)), Keys: p.NewKeys(1), Targets: map[string]*Target{}, dirty: true}
			if p.Roles[role.Name] != nil {
				break
			}
			p.Roles[role.Name] = role
			p.Order = append(p.Order, role.Name)
			for _, n := range []string{"common-1", "common-2", fmt.Sprint("common-", 3+k)} {
				if chance(r, 0.8) {
					p.AddTarget(role.Name, n)
				}
			}
			e := Edge{Child: role.Name, Keys: role.Keys, Threshold: 1, Paths: []string{"*"}}
			if chance(r, 0.5) {
				p.Roles[above].Edges = append(p.Roles[above].Edges, e)
			} else {
				p.Roles[above].Edges = append([]Edge{e}, p.Roles[above].Edges...)
			}
			p.Roles[above].dirty = true
			layers = append(layers, role.Name)
			if chance(r, 0.3) {
				above = role.Name
			}
		}
		p.Publish()
		w.publishState()
	}
	mc := defaultCfg()
	srv := func() *memSrv {
		return &memSrv{f: serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil)}
	}
	on, err := newClient(w, p.Roots[0], mc, srv())
	if err != nil {
		c.FailTags(Tags{"C24"}, "online-new", "%v", err)
		return
	}
	if err := on.Refresh(); err != nil {
		c.FailTags(Tags{"C24"}, "online-refresh", "%v", err)
		return
	}
	topTM := on.GetTrustedMetadataSet()
	top := stateOf(&topTM)
	names := repoNames(w)
	var looked []string
	held := map[string]answer{}
	if len(layers) > 0 {
		// visits every role it can
		looked = append(looked, "nowhere")
		held["nowhere"] = ask(on, "nowhere")
	}
	for k := r.Intn(6); k > 0; k-- {
		n := pick(r, names)
		looked = append(looked, n)
		held[n] = ask(on, n)
	}
	allTM := on.GetTrustedMetadataSet()
	all := stateOf(&allTM)
	root := readDir(w.metaDir)["root.json"]
	if !bytes.Equal(root, p.Roots[len(p.Roots)-1]) {
		c.FailTags(Tags{"C16"}, "online-root", "the cached root is not the newest")
		return
	}
	// what an online client would say about everything (in another directory)
	truth := map[string]answer{}
	{
		dir := w.metaDir
		w.metaDir = filepath.Join(c.Dir(), "m2")
		o2, err := newClient(w, p.Roots[0], mc, srv())
		w.metaDir = dir
		if err != nil || o2.Refresh() != nil {
			c.FailTags(Tags{"C24"}, "online-second", "second online client: %v", err)
			return
		}
		for _, n := range names {
			truth[n] = ask(o2, n)
		}
	}
	c.Eval()
	damage := ""
	cache := readDir(w.metaDir)
	top3 := []string{"timestamp.json", "snapshot.json", "targets.json"}
	needTop, lost := false, ""
	how := r.Intn(4)
	if len(layers) > 0 && chance(r, 0.6) {
		how = 4
	}
	switch how {
	case 0, 1: // none
	case 2:
		n := pick(r, top3)
		lost, needTop = n, true
	case 3:
		fs := ref.SortedKeys(cache)
		n := pick(r, fs)
		if n == "root.json" {
			break // rewritten anyway
		}
		lost = n
		for _, t := range top3 {
			needTop = needTop || t == n
		}
	}
	if how == 4 {
		lost = pick(r, layers) + ".json"
		if _, ok := cache[lost]; !ok {
			lost = ""
		}
	}
	if lost != "" {
		path := filepath.Join(w.metaDir, lost)
		b := cache[lost]
		switch r.Intn(5) {
		case 0:
			os.Remove(path)
			damage = lost + " removed"
		case 1:
			os.WriteFile(path, b[:len(b)/2], 0644)
			damage = lost + " truncated"
		case 2:
			os.WriteFile(path, []byte(pick(r, []string{"", "null", "{}", "[]", `{"signatures":[],"signed":{}}`})), 0644)
			damage = lost + " emptied"
		case 3: // content changed, signature kept
			v, err := ref.ParseJSON(b)
			if err != nil {
				panic(err)
			}
			v.(J)["signed"].(J)["x-altered"] = "y"
			os.WriteFile(path, ref.Encode(v, p.fmt()), 0644)
			damage = lost + " altered"
		case 4:
			os.Chmod(path, 0)
			damage = lost + " unreadable"
		}
	}
	before := readDir(w.metaDir)
	c.Logf("looked up %q; %s", looked, damage)
	lmc := mc
	lmc.Local = true
	lmc.NoCache = chance(r, 0.1)
	osrv := offline()
	lu, err := newClient(w, root, lmc, osrv)
	if err != nil {
		c.Fail("local-new", "local-only client over a cache: %v", err)
		return
	}
	same := func(when string) bool {
		if l := osrv.log; len(l) > 0 {
			c.Fail("request", "local-only client requested %s (%s)", l[0].URL, when)
			return false
		}
		if d := sameCache(readDir(w.metaDir), before); d != "" {
			c.Fail("cache", "local-only client changed the cache: %s (%s)", d, when)
			return false
		}
		return true
	}
	if !same("New") {
		return
	}
	if chance(r, 0.7) || needTop {
		var err error
		if needTop && chance(r, 0.5) {
			_, err = lu.GetTargetInfo(pick(r, names))
		} else {
			err = lu.Refresh()
		}
		if !same("Refresh") {
			return
		}
		if needTop {
			if err == nil {
				c.Fail("refresh-damaged", "local-only refresh succeeds although %s", damage)
			}
			c.Count("damaged caches refused")
			c.Distinct("damaged", damage)
			return
		}
		if err != nil {
			c.Fail("refresh", "local-only refresh over a complete cache fails: %v", err)
			return
		}
		tm := lu.GetTrustedMetadataSet()
		if k, d := diffState(stateOf(&tm), top); d != "" {
			c.Fail("state:"+k, "local-only refresh trusts %s", d)
			return
		}
		c.Count("caches used offline")
	}
	// the lookups of the online client, in another order, then others
	r.Shuffle(len(looked), func(i, j int) { looked[i], looked[j] = looked[j], looked[i] })
	for _, n := range looked {
		a := ask(lu, n)
		if !same("lookup") {
			return
		}
		h := held[n]
		if lost == "" {
			if a.ok != h.ok || a.ok && a.desc != h.desc {
				c.Fail("answer", "offline lookup of %q: %s; the online client which wrote the cache: %s", n, a.desc, h.desc)
				return
			}
			c.Count("answers repeated offline")
		} else if a.ok && (!h.ok || a.desc != h.desc) {
			c.Fail("answer-damaged", "offline lookup of %q with %s: %s; online %s", n, damage, a.desc, h.desc)
			return
		}
	}
	if lost == "" {
		tm := lu.GetTrustedMetadataSet()
		if len(looked) > 0 {
			if k, d := diffState(stateOf(&tm), all); d != "" {
				c.Fail("state-lookups:"+k, "after the same lookups the local-only client trusts %s", d)
				return
			}
		}
	}
	var others []string
	for k := r.Intn(4); k > 0; k-- {
		others = append(others, pick(r, names))
	}
	if len(layers) > 0 {
		others = append(others, "common-1", "common-2")
		r.Shuffle(len(others), func(i, j int) { others[i], others[j] = others[j], others[i] })
		if how == 4 {
			c.Count("lookups with a layer missing")
		}
	}
	for _, n := range others {
		a := ask(lu, n)
		if !same("lookup") {
			return
		}
		if a.ok && (!truth[n].ok || truth[n].desc != a.desc) {
			c.Fail("answer-other", "offline lookup of %q: %s; online %s", n, a.desc, truth[n].desc)
			return
		}
		if !a.ok && truth[n].ok {
			c.Count("lookups refused for want of a file")
		}
	}
	c.Distinct("local", len(held), damage != "", len(all), p.Consistent)
	c.Sample(map[string]any{"lookups": looked, "damage": damage, "files": ref.SortedKeys(before)})
}

// lapseCase: the cached metadata expire between the sessions.
func lapseCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{delegs: 5, succinct: 0.2})
	p := w.p
	what := pick(r, append([]string{"timestamp", "snapshot", "root", "nothing"}, p.Order...))
	end := time.Now().UTC().Truncate(time.Second).Add(5 * time.Second)
	switch what {
	case "nothing":
	case "timestamp":
		d := p.TSDoc.Clone()
		d.Signed["expires"] = ref.TimeStr(end)
		d.Sigs = nil
		d.Sign(p.Top["timestamp"].Keys...)
		p.Files["timestamp.json"] = d.Bytes(p.fmt())
	case "snapshot":
		d := p.SnapDoc.Clone()
		d.Signed["expires"] = ref.TimeStr(end)
		d.Sigs = nil
		d.Sign(p.Top["snapshot"].Keys...)
		raw := d.Bytes(p.fmt())
		p.put("snapshot", p.SnapVer, raw)
		t := p.TimestampDoc(p.TSVer, p.SnapVer, raw, p.Future())
		t.Sign(p.Top["timestamp"].Keys...)
		p.Files["timestamp.json"] = t.Bytes(p.fmt())
	case "root":
		p.RootVer++
		d := p.RootDocFor(p.RootVer, end)
		p.signBoth(d, p.Top["root"].Keys)
		p.addRoot(d)
	default:
		p.Roles[what].Expires = end
		p.Roles[what].dirty = true
		p.Publish()
	}
	w.publishState()
	mc := defaultCfg()
	on, err := newClient(w, p.Roots[0], mc, &memSrv{f: serve(w.metaURL, w.targURL, w.states[len(w.states)-1], nil)})
	if err == nil {
		err = on.Refresh()
	}
	late := func() bool { return !time.Now().Before(end.Add(-500 * time.Millisecond)) }
	if err != nil {
		if !late() {
			c.FailTags(Tags{"C24", "C08"}, "online", "%v", err)
		}
		return
	}
	held := map[string]answer{}
	for _, n := range repoNames(w) {
		held[n] = ask(on, n)
	}
	tm := on.GetTrustedMetadataSet()
	all := stateOf(&tm)
	root := p.Roots[len(p.Roots)-1]
	local := func(when string, expired bool) bool {
		c.Eval()
		lmc := mc
		lmc.Local = true
		srv := offline()
		before := readDir(w.metaDir)
		u, err := newClient(w, root, lmc, srv)
		if err != nil {
			c.Fail("lapse-new", "%s: %v", when, err)
			return false
		}
		err = u.Refresh()
		topGone := expired && what != "nothing" && (what == "timestamp" || what == "snapshot" || what == "root" || what == "targets")
		switch {
		case topGone && err == nil:
			c.FailTags(Tags{"C23", "C08"}, "lapse-accepted:"+cacheKind(what+".json"), "local-only refresh succeeds although %s has expired", what)
			return false
		case topGone:
			c.Count("lapsed caches refused")
			c.Distinct("lapse", cacheKind(what+".json"))
		case err != nil:
			if !expired && late() {
				return true // too slow to tell
			}
			c.Fail("lapse-refresh", "%s: local-only refresh fails: %v", when, err)
			return false
		default:
			for _, n := range ref.SortedKeys(held) {
				a := ask(u, n)
				if !expired && late() {
					return true
				}
				if !expired || what == "nothing" {
					if a.ok != held[n].ok || a.ok && a.desc != held[n].desc {
						c.Fail("lapse-answer", "%s: lookup of %q: %s, online %s", when, n, a.desc, held[n].desc)
						return false
					}
				} else if a.ok && (!held[n].ok || a.desc != held[n].desc) {
					c.Fail("lapse-answer", "%s: lookup of %q: %s, online %s", when, n, a.desc, held[n].desc)
					return false
				}
			}
			tm := u.GetTrustedMetadataSet()
			st := stateOf(&tm)
			if expired && what != "nothing" {
				if st["t:"+what] != "" {
					c.FailTags(Tags{"C23", "C08"}, "lapse-role", "the expired role %q is used offline", what)
					return false
				}
				if all["t:"+what] != "" {
					c.Count("lapsed delegated roles refused")
				}
			} else if k, d := diffState(st, all); d != "" {
				c.Fail("lapse-state:"+k, "%s: %s", when, d)
				return false
			}
			c.Count("unexpired caches used")
		}
		if len(srv.log) > 0 {
			c.Fail("request", "local-only client requested %s", srv.log[0].URL)
			return false
		}
		if d := sameCache(readDir(w.metaDir), before); d != "" {
			c.Fail("cache", "local-only client changed the cache: %s", d)
			return false
		}
		return true
	}
	if !late() && !local("before expiry", false) {
		return
	}
	time.Sleep(time.Until(end.Add(1500 * time.Millisecond)))
	local("after expiry", true)
}

func init() {
	registry["C23"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "local-only sessions over caches written by online clients of random repositories, complete, incomplete, damaged, mixed, replayed, or expiring between the sessions: no request, cache unchanged, state and answers those of the online client or refused; model-based histories mixing online and local-only sessions; non-trivial cases are distinct kinds of damage, outcomes and lookups",
		F: func(r *Run) {
			prof := uLocal
			r.Cases("local", r.N(1500, 40000), localCase)
			r.casesN("lapse", r.N(64, 800), 64, lapseCase)
			uRun(r, "u-local", r.N(700, 20000), prof)
			r.Need("caches used offline", 500)
			r.Need("damaged caches refused", 200)
			r.Need("answers repeated offline", 1000)
			r.Need("lapsed caches refused", 10)
			r.Need("unexpired caches used", 30)
			r.Need("succeeded: refresh", 300)
		}}
}
