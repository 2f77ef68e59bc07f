package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/rdimitrov/go-tuf-metadata/metadata"

	"verif/harness/ref"
)

// Delegation graphs, delegation patterns and hash bins.

var graphPaths = []string{"f0.txt", "f1.txt", "f5.txt", "dir/f0.bin", "dir/f1.bin", "dir/sub/f2", "dir/sub/f3", "lib-1.tgz", "lib-12.tgz", "a/b/c", "F0.txt", "dir/f0.bin/", "x"}

// graphWorld is a world whose repository has an arbitrary delegation graph.
func graphWorld(c *Case) *uWorld {
	r := c.Rng
	w := newUWorld(c, uProfile{unusualURL: 0.1})
	p := w.p
	for _, n := range p.Order[1:] {
		delete(p.Roles, n)
	}
	p.Order = p.Order[:1]
	root := p.Roles["targets"]
	root.Targets, root.Edges, root.Succinct, root.dirty = map[string]*Target{}, nil, nil, true
	n := pick(r, []int{1, 2, 3, 4, 5, 6, 7, 8, 12})
	shape := r.Intn(6)
	wide := false
	if r.Intn(40) == 0 {
		n = 34 + r.Intn(20)
		if wide = chance(r, 0.5); wide { // many roles to visit, little leave to do so
			n, shape = 34+r.Intn(100), 1
		}
	}
	shared := p.NewKeys(1) // most roles share a key, so that edges can be drawn at will
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("g%d", i)
		if chance(r, 0.05) {
			name = pick(r, []string{"snapshots", "Root", "G0", "g0 ", "1.g0", "g0.json", "a/b"})
			if p.Roles[name] != nil {
				name = fmt.Sprintf("g%d", i)
			}
		}
		ks := shared
		if chance(r, 0.2) {
			ks = p.NewKeys(1 + r.Intn(2))
		}
		p.Roles[name] = &TRole{Name: name, Version: int64(1 + r.Intn(3)), Keys: ks, Targets: map[string]*Target{}, dirty: true}
		p.Order = append(p.Order, name)
	}
	term := pick(r, []float64{0.05, 0.18, 0.18, 0.4})
	broad := pick(r, []float64{0.45, 0.45, 0.75})
	if wide {
		term, broad = 0, 1
	}
	pat := func() Edge {
		e := Edge{Threshold: 1, Terminating: chance(r, term)}
		switch x := r.Float64(); {
		case x < broad:
			e.Paths = []string{"*", "*/*", "*/*/*"}
		case x < 0.85:
			for k := 1 + r.Intn(3); k > 0; k-- {
				e.Paths = append(e.Paths, pick(r, append([]string{pick(r, graphPaths)}, patterns...)))
			}
		case x < 0.98:
			for k := 1 + r.Intn(12); k > 0; k-- {
				e.Prefixes = append(e.Prefixes, fmt.Sprintf("%x", r.Intn(16)))
			}
		default: // applies to nothing
			e.Paths = []string{}
		}
		return e
	}
	link := func(a, b string) {
		if p.hasEdge(a, b) {
			return
		}
		e := pat()
		e.Child, e.Keys = b, p.Roles[b].Keys
		x := r.Float64()
		if wide {
			x += 0.2 * r.Float64()
		}
		switch {
		case x < 0.06: // keys which did not sign it
			e.Keys = p.NewKeys(1 + r.Intn(2))
		case x < 0.10: // not enough signatures
			e.Keys = append(append([]*ref.Key{}, e.Keys...), p.NewKeys(1)...)
			e.Threshold = len(e.Keys)
		case x < 0.2:
			e.Threshold = len(e.Keys)
		}
		p.Roles[a].Edges = append(p.Roles[a].Edges, e)
		p.Roles[a].dirty = true
	}
	all := p.Order
	switch shape {
	case 0: // chain with shortcuts
		for i := 1; i < len(all); i++ {
			link(all[i-1], all[i])
			if chance(r, 0.3) {
				link(all[r.Intn(i)], all[i])
			}
		}
	case 1: // fan
		for i := 1; i < len(all); i++ {
			link(all[0], all[i])
		}
		for i := 0; i < n/2; i++ {
			link(pick(r, all), pick(r, all[1:]))
		}
	case 2: // layers, every pair joined
		for i := 1; i < len(all); i++ {
			for j := 0; j < i && j < 3; j++ {
				link(all[(i-1)/2], all[i])
				link(all[j], all[i])
			}
		}
	case 3: // tree
		for i := 1; i < len(all); i++ {
			link(all[r.Intn(i)], all[i])
		}
	default: // anything, cycles and self references included
		for i := 1; i < len(all); i++ {
			link(all[r.Intn(i)], all[i])
		}
		for i := r.Intn(2*n + 1); i > 0; i-- {
			b := pick(r, all[1:])
			link(pick(r, all), b)
		}
	}
	for _, name := range p.Order {
		if chance(r, 0.3) {
			es := p.Roles[name].Edges
			r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		}
		if len(p.Roles[name].Edges) == 0 && chance(r, 0.08) && len(p.Order) < 20 {
			p.AddSuccinct(name, 1+r.Intn(3), pick(r, []string{"bin", "g1-", "b-0"})+name)
		}
	}
	k := 1 + r.Intn(4)
	if chance(r, 0.5) {
		k = 1 + r.Intn(2*len(p.Order))
	}
	for ; k > 0; k-- {
		graphTarget(p, pick(r, p.Order), pick(r, graphPaths))
	}
	p.Publish()
	w.states = nil
	w.publishState()
	return w
}

// graphTarget lists a target with content of its own.
func graphTarget(p *Repo, role, path string) {
	t := p.AddTarget(role, path)
	t.Data = []byte(fmt.Sprintf("%s in %s %d", path, role, p.Rng.Int63()))
}

// evolveGraph republishes with another order, other targets, other edges.
func evolveGraph(p *Repo) {
	r := p.Rng
	for k := 1 + r.Intn(3); k > 0; k-- {
		t := p.Roles[pick(r, p.Order)]
		t.dirty = true
		switch r.Intn(4) {
		case 0:
			r.Shuffle(len(t.Edges), func(i, j int) { t.Edges[i], t.Edges[j] = t.Edges[j], t.Edges[i] })
		case 1:
			graphTarget(p, t.Name, pick(r, graphPaths))
		case 2:
			for n := range t.Targets {
				delete(t.Targets, n)
			}
		case 3:
			if len(t.Edges) > 0 {
				e := &t.Edges[r.Intn(len(t.Edges))]
				e.Terminating = !e.Terminating
			}
		}
	}
	p.Publish()
}

// specLookup answers from the repository itself, recursively: the role which
// provides the path, "" if none, and whether an unverifiable role is met.
func specLookup(p *Repo, path string, max int) (role string, bad bool) {
	visited := map[string]bool{}
	var visit func(name string) (found string, stop, bad bool)
	visit = func(name string) (string, bool, bool) {
		if visited[name] {
			return "", false, false
		}
		if len(visited) > max {
			return "", true, false
		}
		t := p.Roles[name]
		if t.Targets[path] != nil {
			return name, true, false
		}
		visited[name] = true
		if s := t.Succinct; s != nil && len(t.Edges) == 0 {
			b := (&ref.Succinct{BitLength: int64(s.Bits), Prefix: s.Prefix}).Bin(path)
			f, _, bad := visit(b)
			return f, true, bad
		}
		for _, e := range t.Edges {
			if !(ref.RoleInfo{Paths: e.Paths, Prefixes: e.Prefixes}).Matches(path) {
				continue
			}
			if !visited[e.Child] && len(visited) <= max {
				n := 0
				for _, k := range e.Keys {
					for _, s := range p.Roles[e.Child].Keys {
						if k == s {
							n++
						}
					}
				}
				if n < e.Threshold {
					return "", true, true
				}
			}
			f, stop, bad := visit(e.Child)
			if stop || bad {
				return f, true, bad
			}
			if e.Terminating {
				return "", true, false
			}
		}
		return "", false, false
	}
	role, _, bad = visit("targets")
	return role, bad
}

func graphCase(c *Case) {
	r := c.Rng
	w := graphWorld(c)
	p := w.p
	type ans struct {
		role string
		bad  bool
	}
	for w.sess = 0; w.sess < 1+r.Intn(3); w.sess++ {
		if w.sess > 0 && chance(r, 0.6) {
			evolveGraph(p)
			w.publishState()
		}
		mc := defaultCfg()
		if chance(r, 0.4) {
			mc.MaxDeleg = r.Intn(len(p.Order) + 2)
			if chance(r, 0.3) {
				mc.MaxDeleg = r.Intn(5)
			}
		}
		mc.NoCache = chance(r, 0.1)
		for _, n := range p.Order {
			c.Logf("  %s", graphDesc(p.Roles[n]))
		}
		desc := fmt.Sprintf("graph of %d roles, limit %d", len(p.Order), mc.MaxDeleg)
		c.Logf("%s", desc)
		scen := Tags{"C10"}
		if c.R.Prop == "C11" {
			scen = Tags{"C11"}
		}
		// some repositories withhold a role
		over := map[string]*ref.Resp{}
		withheld := ""
		if len(p.Order) > 2 && c.Idx%5 == 2 {
			withheld = p.Order[1+(c.Idx/5+w.sess)%(len(p.Order)-1)]
			over[withSlash(w.metaURL)+p.metaFile(withheld, p.Roles[withheld].Version)] = &ref.Resp{Status: []int{404, 403, 404, 500, 410}[c.Idx/5%5]}
			desc += " without " + withheld
			c.Count("sessions with a role withheld")
		}
		s, ok := w.open(p.Roots[0], mc, serve(w.metaURL, w.targURL, w.states[len(w.states)-1], over), scen, desc)
		if !ok {
			return
		}
		c.Count("sessions")
		first := map[string]ans{}
		for k := 0; k < 7; k++ {
			path := pick(r, graphPaths)
			want, bad := specLookup(p, path, mc.MaxDeleg)
			tf, ok := s.lookup(path)
			if !ok {
				return
			}
			if withheld != "" {
				continue // compared with the reference client only
			}
			got := ""
			if tf != nil {
				got = "?"
				for _, n := range p.Order {
					if t := p.Roles[n].Targets[path]; t != nil && int64(len(t.Data)) == tf.Length && len(t.Algs) > 0 {
						h := ref.Sha256Hex(t.Data)
						if t.Algs[0] == "sha512" {
							h = ref.Sha512Hex(t.Data)
						}
						if tf.Hashes[t.Algs[0]].String() == h {
							got = n
						}
					}
				}
			}
			c.Distinct("graph", len(p.Order), len(first), got == "", bad, mc.MaxDeleg < len(p.Order), strings.Count(path, "/"))
			switch {
			case bad:
				c.Count("lookups meeting an unverifiable role")
				if tf != nil {
					c.FailTags(Tags{"C10", "C01"}, "graph-unverified", "lookup of %q answers from %q although a role on the way is not verifiable (%s)", path, got, desc)
				}
			case want == "":
				c.Count("lookups of missing targets")
				if tf != nil {
					c.FailTags(append(Tags{"C10"}, scen...), "graph-found", "lookup of %q answers from %q, nothing to be found (%s)", path, got, desc)
				}
			default:
				c.Count("lookups of present targets")
				if got != want {
					c.FailTags(append(Tags{"C10"}, scen...), "graph-role", "lookup of %q answers from %q, expected %q (%s)", path, got, want, desc)
				}
			}
			if a, ok := first[path]; ok && a != (ans{got, tf == nil}) {
				c.Fail("graph-history", "lookup of %q answers %v, earlier %v (%s)", path, got, a, desc)
			}
			first[path] = ans{got, tf == nil}
		}
	}
	c.Count("graphs")
	c.Sample(map[string]any{"trace": c.trace})
}

func graphDesc(t *TRole) string {
	s := fmt.Sprintf("%s lists %q", t.Name, ref.SortedKeys(t.Targets))
	for _, e := range t.Edges {
		s += fmt.Sprintf(" ->%s%q%q", e.Child, e.Paths, e.Prefixes)
		if e.Terminating {
			s += "!"
		}
	}
	return s
}

// ---- C11 ----

var segs = []string{"a", "b", "ab", "abc", "foo.txt", "foo.tar.gz", "", ".hidden", "é", "日本", "A", "a b", "x-1", "-", "a*b", "a?b", "[a]", "a\\b", "~", "..", ".", "f1", "f12", "%2e", "a\nb", "^", "]", "a-z"}

func randPath(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, pick(r, segs))
	}
	return strings.Join(s, "/")
}

func quoteGlob(c rune) string {
	switch c {
	case '*', '?', '[', '\\':
		return "\\" + string(c)
	}
	return string(c)
}

// patternOf derives a pattern which is likely to match the path.
func patternOf(r *rand.Rand, path string) string {
	var out []string
	for _, seg := range strings.Split(path, "/") {
		rs := []rune(seg)
		s := ""
		star := r.Intn(4) == 0
		for i := 0; i < len(rs); i++ {
			switch r.Intn(9) {
			case 0:
				s += "?"
			case 1:
				k := r.Intn(len(rs) - i + 1)
				s += "*"
				i += k - 1
			case 2:
				switch r.Intn(4) {
				case 0:
					s += "[" + classRune(rs[i]) + "]"
				case 1:
					s += "[a-z" + classRune(rs[i]) + "]"
				case 2:
					s += "[^z]"
				case 3:
					s += "[" + classRune(rs[i]) + "-" + classRune(rs[i]+1) + "]"
				}
			default:
				s += quoteGlob(rs[i])
			}
		}
		if star {
			s = pick(r, []string{"*", "*" + s, s + "*", "**", "?*"})
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}

func classRune(c rune) string {
	if c == '^' || c == ']' || c == '-' || c == '\\' || c == '!' {
		return "\\" + string(c)
	}
	return string(c)
}

// damagePattern makes near misses.
func damagePattern(r *rand.Rand, s string) string {
	switch r.Intn(12) {
	case 0:
		return s + "/"
	case 1:
		return "/" + s
	case 2:
		return s + "/*"
	case 3:
		return "*/" + s
	case 4:
		if i := strings.Index(s, "/"); i >= 0 {
			return s[:i] + s[i+1:]
		}
	case 5:
		if i := strings.Index(s, "/"); i >= 0 {
			return s[:i] + "*" + s[i+1:]
		}
		return "*"
	case 6:
		if i := strings.LastIndex(s, "/"); i >= 0 {
			return s[:i]
		}
		return ""
	case 7:
		return strings.ToUpper(s)
	case 8:
		return s + "x"
	case 9:
		return strings.Replace(s, "/", "//", 1)
	case 10:
		return strings.TrimSuffix(s, "*")
	case 11:
		if len(s) > 0 {
			i := r.Intn(len(s))
			return s[:i] + s[i+1:]
		}
	}
	return s
}

func matchCase(c *Case) {
	r := c.Rng
	path := randPath(r)
	if r.Intn(6) == 0 {
		path = pick(r, append(graphPaths, oddTargetNames...))
	}
	d := metadata.DelegatedRole{Name: "r", KeyIDs: []string{}, Threshold: 1, Terminating: chance(r, 0.5)}
	kind := r.Intn(8)
	hx := ref.Sha256Hex([]byte(path))
	if kind <= 4 {
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := patternOf(r, path)
			if chance(r, 0.4) {
				p = patternOf(r, randPath(r))
			}
			for chance(r, 0.35) {
				p = damagePattern(r, p)
			}
			if !utf8.ValidString(p) || strings.Contains(p, "[!") {
				p = "*"
			}
			d.Paths = append(d.Paths, p)
		}
	}
	if kind == 5 || kind == 6 {
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := pick(r, []int{1, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64})
			p := hx[:n]
			if chance(r, 0.04) { // every digest starts with nothing
				d.PathHashPrefixes = append(d.PathHashPrefixes, "")
				continue
			}
			switch r.Intn(5) {
			case 0: // last digit differs
				p = p[:n-1] + string("0123456789abcdef"[r.Intn(16)])
			case 1:
				p = ref.Sha256Hex([]byte(fmt.Sprint(r.Int63())))[:1+r.Intn(3)]
			case 2:
				if n == 64 {
					p += "0"
				}
			case 3: // digest of something close
				p = ref.Sha256Hex([]byte(pick(r, []string{path + "/", "/" + path, strings.ToLower(path), "x" + path})))[:n]
			}
			d.PathHashPrefixes = append(d.PathHashPrefixes, p)
		}
		if chance(r, 0.3) {
			d.Paths = []string{}
		}
	}
	if kind == 7 {
		d.Paths, d.PathHashPrefixes = nil, nil
		if chance(r, 0.5) {
			d.Paths = []string{}
		}
		if chance(r, 0.5) {
			d.PathHashPrefixes = []string{}
		}
	}
	want := ref.RoleInfo{Paths: d.Paths, Prefixes: d.PathHashPrefixes}.Matches(path)
	if len(d.Paths) == 0 && len(d.PathHashPrefixes) == 0 {
		want = false
	}
	c.Logf("path %q patterns %q prefixes %q: expected %v", path, d.Paths, d.PathHashPrefixes, want)
	c.Eval()
	c.Distinct("match", path, fmt.Sprint(d.Paths), fmt.Sprint(d.PathHashPrefixes))
	if want {
		c.Count("matching delegations")
	} else {
		c.Count("delegations which do not apply")
	}
	got, err := d.IsDelegatedPath(path)
	what := "patterns"
	if len(d.Paths) == 0 {
		what = "prefixes"
	}
	if got != want || (err != nil && got) {
		c.Fail("match:"+what, "path %q, patterns %q, prefixes %q: applies=%v (%v), expected %v", path, d.Paths, d.PathHashPrefixes, got, err, want)
		return
	}
	// again: the answer has no memory
	if got, _ := d.IsDelegatedPath(path); got != want {
		c.Fail("match-again:"+what, "path %q, patterns %q, prefixes %q: second answer is %v", path, d.Paths, d.PathHashPrefixes, got)
	}
	// through the delegating role, after a round trip through JSON
	o := metadata.DelegatedRole{Name: "other", KeyIDs: []string{}, Threshold: 1, Paths: []string{pick(r, []string{"nomatch", "*"})}}
	oWant := ref.RoleInfo{Paths: o.Paths}.Matches(path)
	del := metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{d, o}}
	if chance(r, 0.5) {
		del.Roles = []metadata.DelegatedRole{o, d}
	}
	if chance(r, 0.5) {
		b, err := json.Marshal(del)
		if err != nil {
			c.FailTags(Tags{"C03"}, "marshal", "delegations: %v", err)
			return
		}
		del = metadata.Delegations{}
		if err := json.Unmarshal(b, &del); err != nil {
			c.FailTags(Tags{"C03", "C11"}, "unmarshal", "delegations %s: %v", b, err)
			return
		}
	}
	var wantList []string
	for _, x := range del.Roles {
		if x.Name == "r" && want || x.Name == "other" && oWant {
			wantList = append(wantList, fmt.Sprint(x.Name, x.Terminating))
		}
	}
	var list []string
	for _, x := range del.GetOrderedRolesForTarget(path) {
		list = append(list, fmt.Sprint(x.Name, x.Terminating))
	}
	if fmt.Sprint(list) != fmt.Sprint(wantList) {
		c.FailTags(Tags{"C11", "C10"}, "ordered:"+what, "path %q, patterns %q, prefixes %q, other %q: roles %q, expected %q", path, d.Paths, d.PathHashPrefixes, o.Paths, list, wantList)
	}
	list = nil
	for n, t := range del.GetRolesForTarget(path) {
		list = append(list, fmt.Sprint(n, t))
	}
	sort.Strings(list)
	sort.Strings(wantList)
	if fmt.Sprint(list) != fmt.Sprint(wantList) {
		c.FailTags(Tags{"C11"}, "set:"+what, "path %q, patterns %q, prefixes %q, other %q: roles %q, expected %q", path, d.Paths, d.PathHashPrefixes, o.Paths, list, wantList)
	}
	c.Sample(map[string]any{"path": path, "patterns": d.Paths, "prefixes": d.PathHashPrefixes, "applies": want})
}

// ---- C12 ----

var binPrefixes = []string{"bin", "b-0", "", "-", "é", "a/b", "0", "ff", "bin-", "%s", "UPPER", "x.json", "bin-00"}

// otherSpellings are names close to a bin name.
func otherSpellings(r *rand.Rand, s *ref.Succinct, v uint64) string {
	n := s.Name(v)
	suf := n[len(s.Prefix)+1:]
	pre := s.Prefix + "-"
	max := uint64(1)<<uint(s.BitLength) - 1
	switch r.Intn(20) {
	case 0:
		return pre + strings.ToUpper(suf)
	case 1:
		return pre + "0" + suf
	case 2:
		return pre + strings.TrimPrefix(suf, "0")
	case 3:
		return pre + "+" + suf
	case 4:
		if len(suf) > 1 {
			return pre + "+" + suf[1:]
		}
		return pre + "-" + suf
	case 5:
		if len(suf) > 2 {
			return pre + "0x" + suf[2:]
		}
		return pre + "0x" + suf
	case 6:
		if len(suf) > 1 {
			return pre + "-" + suf[1:]
		}
		return pre
	case 7:
		return pre + fmt.Sprintf("%0*x", len(suf), max+1+uint64(r.Intn(3)))
	case 8:
		return pre + strings.Repeat("f", len(suf))
	case 9:
		return s.Prefix + suf
	case 10:
		return s.Prefix + "_" + suf
	case 11:
		return strings.ToUpper(pre) + suf
	case 12:
		return pre + suf + " "
	case 13:
		return pre + " " + suf
	case 14:
		return "x" + n
	case 15:
		return n + ".json"
	case 16:
		return pre + strings.Repeat("g", len(suf))
	case 17:
		if len(suf) > 2 {
			return pre + suf[:1] + "_" + suf[2:]
		}
		return pre + "_"
	case 18:
		return pre + strings.Map(func(c rune) rune {
			if c >= '0' && c <= '9' {
				return c - '0' + '０'
			}
			return c
		}, suf)
	}
	return n
}

func binsCase(c *Case) {
	r := c.Rng
	b := int64(1 + r.Intn(32))
	rs := &ref.Succinct{BitLength: b, Prefix: pick(r, binPrefixes)}
	s := &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: int(b), NamePrefix: rs.Prefix}
	if chance(r, 0.5) {
		j, err := json.Marshal(s)
		s = &metadata.SuccinctRoles{}
		if err == nil {
			err = json.Unmarshal(j, s)
		}
		if err != nil {
			c.FailTags(Tags{"C03", "C12"}, "roundtrip", "hash bins %s: %v", j, err)
			return
		}
	}
	c.Eval()
	c.Count("bin delegations")
	c.Distinct("bins", b, rs.Prefix)
	top := uint64(1)<<uint(b) - 1
	wantLen := len(fmt.Sprintf("%x", top))
	if l, n := s.GetSuffixLen(); l != wantLen || uint64(n) != top+1 {
		c.Fail("suffix", "%d bits: suffix length %d for %d bins, expected %d for %d", b, l, n, wantLen, top+1)
	}
	hits := map[string]bool{}
	for k := 0; k < 12; k++ {
		path := randPath(r)
		if k > 5 {
			path = fmt.Sprintf("%s-%d", path, r.Int63())
		}
		want := rs.Bin(path)
		got := s.GetRolesForTarget(path)
		hits[want] = true
		c.Count("targets assigned")
		if len(got) != 1 || !got[want] {
			c.Fail("bin", "%d bits, prefix %q: %q belongs to %v, expected terminating %q", b, rs.Prefix, path, got, want)
		}
		if !s.IsDelegatedRole(want) {
			c.Fail("bin-unknown", "%d bits, prefix %q: bin %q is not recognised", b, rs.Prefix, want)
		}
		d := metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: s}
		o := d.GetOrderedRolesForTarget(path)
		if len(o) != 1 || o[0].Name != want || !o[0].Terminating {
			c.FailTags(Tags{"C12", "C10"}, "bin-ordered", "%d bits, prefix %q: %q is looked up in %v, expected terminating %q", b, rs.Prefix, path, o, want)
		}
		if m := d.GetRolesForTarget(path); len(m) != 1 || !m[want] {
			c.FailTags(Tags{"C12", "C10"}, "bin-roles", "%d bits, prefix %q: the delegations give %v for %q, expected terminating %q", b, rs.Prefix, m, path, want)
		}
	}
	// names
	for k := 0; k < 25; k++ {
		v := uint64(r.Int63()) & top
		switch r.Intn(5) {
		case 0:
			v = top
		case 1:
			v = 0
		case 2:
			v = top / 2
		}
		n := otherSpellings(r, rs, v)
		if r.Intn(40) == 0 {
			n = pick(r, []string{"", "-", "targets", rs.Prefix, rs.Prefix + "-"})
		}
		want := rs.IsBin(n)
		if want {
			c.Count("bin names")
		} else {
			c.Count("other names")
		}
		if got := s.IsDelegatedRole(n); got != want {
			c.Fail(fmt.Sprintf("name:%v", got), "%d bits, prefix %q: %q recognised=%v, expected %v", b, rs.Prefix, n, got, want)
		}
	}
	lim := int64(9)
	if c.R.Tier == "thorough" {
		lim = 14
	}
	if chance(r, 0.2) {
		lim += 4
	}
	if chance(r, 0.04) {
		lim = 18
		if c.R.Tier == "thorough" {
			lim = 21
		}
	}
	if b <= lim {
		got := s.GetRoles()
		set := map[string]bool{}
		for _, n := range got {
			set[n] = true
			if !s.IsDelegatedRole(n) {
				c.Fail("enumerated-unknown", "%d bits, prefix %q: enumerated bin %q is not recognised", b, rs.Prefix, n)
				break
			}
		}
		ok := len(got) == len(set) && uint64(len(got)) == top+1
		for v := uint64(0); v <= top && ok; v++ {
			ok = set[rs.Name(v)]
		}
		for h := range hits {
			ok = ok && set[h]
		}
		c.Count("enumerations")
		if !ok {
			c.Fail("enumerated", "%d bits, prefix %q: %d names enumerated, %d different; expected %q to %q", b, rs.Prefix, len(got), len(set), rs.Name(0), rs.Name(top))
		}
	}
	c.Sample(map[string]any{"bits": b, "prefix": rs.Prefix})
}

// binsLoadCase: bit lengths on loading, and names on verification.
func binsLoadCase(c *Case) {
	r := c.Rng
	k := ref.Ed25519("bins")
	b := int64(r.Intn(40) - 3)
	if r.Intn(4) == 0 {
		b = pick(r, []int64{64, 65, 100, 255, 256, 256 + 8, 1 << 16, 1<<32 + 4, 1 << 31, -1 << 31, -1 << 62, 1<<62 + 8, 0, 33, 32, 1})
	}
	rs := &ref.Succinct{BitLength: b, Prefix: pick(r, binPrefixes)}
	d := minimalDoc("targets", "bins")
	d.Signed["delegations"] = J{"keys": keyTable([]*ref.Key{k}), "succinct_roles": J{"keyids": []any{k.ID()}, "threshold": int64(1), "bit_length": b, "name_prefix": rs.Prefix}}
	d.Sign(k)
	m, err := libLoad("targets", d.Bytes(ref.Compact))
	c.Eval()
	valid := b >= 1 && b <= 32
	c.Distinct("load", b)
	if !valid {
		c.Count("bit lengths refused")
		if err == nil {
			c.Fail("load-accepted", "bit length %d is accepted on loading", b)
		}
		s := &metadata.SuccinctRoles{}
		j, _ := json.Marshal(J{"keyids": []any{}, "threshold": 1, "bit_length": b, "name_prefix": "x"})
		if err := json.Unmarshal(j, s); err == nil {
			c.Fail("load-accepted-part", "bit length %d is accepted on loading hash bins", b)
		}
		return
	}
	if err != nil {
		c.Fail("load-refused", "bit length %d is refused on loading: %v", b, err)
		return
	}
	c.Count("bit lengths accepted")
	leaf := minimalDoc("targets", "leaf")
	leaf.Sign(k)
	lm, err := libLoad("targets", leaf.Bytes(ref.Compact))
	if err != nil {
		panic(err)
	}
	top := uint64(1)<<uint(b) - 1
	for i := 0; i < 8; i++ {
		n := otherSpellings(r, rs, uint64(r.Int63())&top)
		err := m.VerifyDelegate(n, lm)
		want := rs.IsBin(n)
		c.Count("delegations verified by name")
		if want && err != nil {
			c.FailTags(Tags{"C12", "C01"}, "verify-refused", "%d bits, prefix %q: bin %q does not verify: %v", b, rs.Prefix, n, err)
		}
		if !want && err == nil {
			c.FailTags(Tags{"C12", "C01"}, "verify-accepted", "%d bits, prefix %q: %q verifies as a delegated role", b, rs.Prefix, n)
		}
	}
}

// binsClientCase: a client of a repository with hash bins.
func binsClientCase(c *Case) {
	r := c.Rng
	w := newUWorld(c, uProfile{})
	p := w.p
	parent := "targets"
	bits := 1 + r.Intn(6)
	prefix := pick(r, binPrefixes)
	if prefix == "" || prefix == "-" {
		prefix = "bin"
	}
	p.Roles["targets"].Targets = map[string]*Target{}
	p.AddSuccinct(parent, bits, prefix)
	rs := &ref.Succinct{BitLength: int64(bits), Prefix: prefix}
	right, wrong := []string{}, []string{}
	for i := 0; i < 10; i++ {
		path := fmt.Sprintf("%s/t%d", randPath(r), i)
		if chance(r, 0.6) {
			graphTarget(p, rs.Bin(path), path)
			right = append(right, path)
		} else {
			b := rs.Name(uint64(r.Intn(1 << bits)))
			if b != rs.Bin(path) {
				graphTarget(p, b, path)
				wrong = append(wrong, path)
			}
		}
	}
	p.Publish()
	w.states = nil
	w.publishState()
	st := w.states[0]
	desc := fmt.Sprintf("%d bits, prefix %q", bits, prefix)
	mc := defaultCfg()
	s, ok := w.open(p.Roots[0], mc, serve(w.metaURL, w.targURL, st, nil), Tags{"C12"}, desc)
	if !ok {
		return
	}
	r.Shuffle(len(right), func(i, j int) { right[i], right[j] = right[j], right[i] })
	for _, path := range right {
		tf, ok := s.lookup(path)
		if !ok {
			return
		}
		c.Count("targets found in their bin")
		if tf == nil {
			c.Fail("client-missed", "%s: target %q of bin %q is not found", desc, path, rs.Bin(path))
			return
		}
	}
	for _, path := range wrong {
		tf, ok := s.lookup(path)
		if !ok {
			return
		}
		c.Count("targets listed by the wrong bin")
		if tf != nil {
			c.Fail("client-wrong-bin", "%s: target %q listed by another bin is found", desc, path)
			return
		}
	}
}

func init() {
	registry["C10"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "lookups in random delegation graphs (chains, fans, layers, cycles, shared children reached with different keys, hash bins) and after changes of order, targets and flags, compared with a recursive reading of the specification over the repository itself and with the reference client, requests and trusted roles included; " + ruleU + ruleN,
		F: func(r *Run) {
			r.Cases("graph", r.N(1200, 60000), graphCase)
			uRun(r, "u-mix", r.N(300, 8000), uMix)
			uRun(r, "u-honest", r.N(300, 8000), uHonest)
			r.Need("lookups of present targets", 1500)
			r.Need("lookups of missing targets", 2000)
			r.Need("lookups meeting an unverifiable role", 300)
			r.Need("sessions with a role withheld", 150)
		}}
	registry["C11"] = &Prop{Level: "exploration", Asm: append([]string{"[! in a pattern, and prefixes which are no lower-case hexadecimal, are not generated"}, asmCommon...),
		Rule: "path patterns derived from target paths and damaged, and prefixes of true and near-miss digests, compared with an independent matcher, directly, through the delegating role and in lookups; non-trivial cases are distinct pairs of path and delegation",
		F: func(r *Run) {
			r.Cases("match", r.N(120000, 4000000), matchCase)
			r.Cases("graph", r.N(500, 10000), graphCase)
			r.Need("matching delegations", 20000)
			r.Need("delegations which do not apply", 20000)
		}}
	registry["C12"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "hash-bin delegations of every bit length with assigned targets, enumerated names and names close to bin names, compared with an independent computation, on the delegation, on loading, on verification and in clients; non-trivial cases are distinct bit lengths, prefixes and outcomes",
		F: func(r *Run) {
			r.Cases("bins", r.N(12000, 300000), binsCase)
			r.Cases("load", r.N(3000, 60000), binsLoadCase)
			r.Cases("client", r.N(250, 6000), binsClientCase)
			uRun(r, "u-honest", r.N(150, 5000), uHonest)
			r.Need("targets assigned", 50000)
			r.Need("bin names", 5000)
			r.Need("other names", 50000)
			r.Need("enumerations", 500)
			r.Need("bit lengths refused", 100)
			r.Need("targets found in their bin", 300)
			r.Need("targets listed by the wrong bin", 100)
		}}
}
