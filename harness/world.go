package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/ref"
)

type J = ref.J

// TopRole is a top-level role of the simulated repository.
type TopRole struct {
	Keys      []*ref.Key
	Threshold int
}

// Edge delegates to a child role.
type Edge struct {
	Child       string
	Paths       []string
	Prefixes    []string
	Terminating bool
	Keys        []*ref.Key
	Threshold   int
	Extra       J
}

// TRole is a targets role (top level or delegated).
type TRole struct {
	Name     string
	Version  int64
	Keys     []*ref.Key // keys that sign it
	Targets  map[string]*Target
	Edges    []Edge
	Succinct *SuccinctSpec
	NoDeleg  bool
	Expires  time.Time
	Pad      string // makes the document long
	raw      []byte
	doc      *ref.Doc
	dirty    bool
}

// SuccinctSpec delegates to hash bins.
type SuccinctSpec struct {
	Bits      int
	Prefix    string
	Keys      []*ref.Key
	Threshold int
}

// Target is a target file.
type Target struct {
	Data   []byte
	Algs   []string
	Custom any
	Extra  J
}

// Repo is a simulated repository following the specification.
type Repo struct {
	Rng        *rand.Rand
	Now        time.Time
	Fine       bool // expiries may be close to Now
	Consistent bool
	Top        map[string]*TopRole
	Roots      [][]byte
	RootDocs   []*ref.Doc
	RootVer    int64
	TSVer      int64
	SnapVer    int64
	Roles      map[string]*TRole
	Order      []string // creation order of roles
	MetaLen    bool
	MetaHash   bool
	TSDoc      *ref.Doc
	SnapDoc    *ref.Doc
	Files      map[string][]byte // metadata by file name
	TFiles     map[string][]byte // target files by URL path
	uid        int
	tag        string
	nkey       int
	OtherKeys  bool // use RSA and ECDSA keys too
	Unknown    bool // add unrecognised fields
	oldKeys    map[string]*ref.Key
	jumps      float64 // how often versions skip some
}

// State is a published repository state.
type State struct {
	Files  map[string][]byte
	TFiles map[string][]byte
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// NewKey makes a fresh key.
func (p *Repo) NewKey() *ref.Key {
	k := p.newKey()
	if p.oldKeys == nil {
		p.oldKeys = map[string]*ref.Key{}
	}
	p.oldKeys[k.ID()] = k
	return k
}

func (p *Repo) newKey() *ref.Key {
	p.nkey++
	if p.OtherKeys {
		switch p.Rng.Intn(12) {
		case 0:
			return ref.ECDSA(p.Rng.Intn(ref.NumECDSA()), false).WithExtra(J{"x-n": int64(p.nkey)})
		case 1:
			return ref.ECDSA(p.Rng.Intn(ref.NumECDSA()), true).WithExtra(J{"x-n": int64(p.nkey)})
		case 2:
			return ref.RSA(p.Rng.Intn(ref.NumRSA())).WithExtra(J{"x-n": int64(p.nkey)})
		}
	}
	return ref.Ed25519(fmt.Sprintf("%s-%d", p.tag, p.nkey))
}

// NewKeys makes n different key pairs.
func (p *Repo) NewKeys(n int) []*ref.Key {
	var out []*ref.Key
	for len(out) < n {
		k := p.NewKey()
		dup := false
		for _, o := range out {
			if o.Public == k.Public {
				dup = true
			}
		}
		if !dup {
			out = append(out, k)
		}
	}
	return out
}

// UID makes a fresh document identity.
func (p *Repo) UID(what string) string {
	p.uid++
	return fmt.Sprintf("%s-%s-%d", p.tag, what, p.uid)
}

// Future and Past are expiry choices.
func (p *Repo) Future() time.Time {
	if p.Fine {
		return p.Now.Add(p.fine())
	}
	if p.Rng.Intn(8) == 0 {
		return p.Now.Add(time.Duration(20+p.Rng.Intn(1500)) * time.Minute).Truncate(time.Second)
	}
	if p.Rng.Intn(4) == 0 {
		return p.Now.AddDate(0, 0, 1+p.Rng.Intn(60)).Truncate(time.Second)
	}
	return time.Date(2090+p.Rng.Intn(9), 1, 2, 3, 4, 5, 0, time.UTC)
}

// fine is a time span of one second to years.
func (p *Repo) fine() time.Duration {
	if p.Rng.Intn(4) == 0 {
		return time.Duration(1+p.Rng.Intn(3)*p.Rng.Intn(60)) * time.Second
	}
	return time.Duration(1+p.Rng.Intn(400000)) * time.Second * time.Duration([]int{1, 1, 1000}[p.Rng.Intn(3)])
}

func (p *Repo) Past() time.Time {
	if p.Fine {
		return p.Now.Add(-p.fine())
	}
	if p.Rng.Intn(8) == 0 {
		return p.Now.Add(-time.Duration(1+p.Rng.Intn(1500)) * time.Minute).Truncate(time.Second)
	}
	if p.Rng.Intn(2) == 0 {
		return p.Now.AddDate(0, 0, -1-p.Rng.Intn(60)).Truncate(time.Second)
	}
	return time.Date(2000+p.Rng.Intn(15), 1, 2, 3, 4, 5, 0, time.UTC)
}

func (p *Repo) fmt() ref.Fmt { return ref.Fmt(p.Rng.Intn(3)) }

func (p *Repo) unknown(m J) J {
	if !p.Unknown || p.Rng.Intn(3) != 0 {
		return m
	}
	switch p.Rng.Intn(5) {
	case 0:
		m["x-note"] = "hello \"quoted\" \\ <tag> & é"
	case 1:
		m["x-num"] = int64(p.Rng.Intn(100000))
	case 2:
		m["x-list"] = []any{"a", nil, true, J{"k": "v"}}
	case 3:
		m["x-nest"] = J{"a": J{"b": []any{}}}
	case 4:
		m["x-null"] = nil
	}
	return m
}

func keyTable(ks ...[]*ref.Key) J {
	m := J{}
	for _, l := range ks {
		for _, k := range l {
			m[k.ID()] = k.Dict()
		}
	}
	return m
}

func keyIDs(ks []*ref.Key) []any {
	out := []any{}
	for _, k := range ks {
		out = append(out, k.ID())
	}
	return out
}

// RepoOpts shape the initial repository.
type RepoOpts struct {
	Tag         string
	Now         time.Time
	Fine        bool
	OtherKeys   bool
	Unknown     bool
	Delegations int // number of delegated roles (tree with some sharing)
	OddNames    bool
	Succinct    bool
	RootBase    int64 // version of the root before the first
}

// NewRepo builds and publishes a first state.
func NewRepo(rng *rand.Rand, o RepoOpts) *Repo {
	p := &Repo{Rng: rng, Now: o.Now, Fine: o.Fine, tag: o.Tag, OtherKeys: o.OtherKeys, Unknown: o.Unknown,
		Top: map[string]*TopRole{}, Roles: map[string]*TRole{}, Files: map[string][]byte{}, TFiles: map[string][]byte{}}
	p.Consistent = chance(rng, 0.65)
	if chance(rng, 0.3) {
		p.jumps = pick(rng, []float64{0.1, 0.5, 1})
	}
	p.MetaLen = chance(rng, 0.5)
	p.MetaHash = chance(rng, 0.5)
	for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
		p.Top[r] = p.newTop()
	}
	p.Roles["targets"] = &TRole{Name: "targets", Version: int64(1 + rng.Intn(3)), Keys: p.Top["targets"].Keys, Targets: map[string]*Target{}, dirty: true}
	p.Order = []string{"targets"}
	p.TSVer = int64(rng.Intn(3))
	p.SnapVer = int64(rng.Intn(3))
	for i := 0; i < 1+rng.Intn(4); i++ {
		p.AddTarget("targets", p.targetName(i, o.OddNames))
	}
	if o.Delegations > 0 {
		p.growTree(o)
	}
	p.RootVer = o.RootBase
	p.NextRoot(nil)
	p.Publish()
	return p
}

func (p *Repo) newTop() *TopRole {
	n := 1 + p.Rng.Intn(3)
	return &TopRole{Keys: p.NewKeys(n), Threshold: 1 + p.Rng.Intn(n)}
}

var oddRoleNames = []string{"a/b", "../up", "role one", "%2e%2e", "é-rôle", "a+b", "x.json", "root.json", "Root", "..", ".", "a\\b", "q?x=1", "#frag", "tab\tname", "päth/../../etc", "timestamp.json", "~", "a:b", "con", "&amp;", "a%2Fb", "dir/", "/abs"}
var oddTargetNames = []string{"a b.txt", "dir/sub/file.txt", "dir/file", "x%20y", "../evil", "..", "deep/er/and/deeper/f.bin", "é.txt", "q?v=1", "h#frag", "a+b", "/abs/path", ".", "-", "a//b", "dir/", "name\\with", "UPPER", "upper", "%2e%2e%2fx", "a&b=c", "~tilde", "semi;colon", "comma,", "./rel.txt", "x/./y", "x/../y", " lead.txt", "trail.txt ", "file.txt.", "[x]", "?x", "*", "{a}", "\u00e9/e\u0301"}

func (p *Repo) targetName(i int, odd bool) string {
	if odd && chance(p.Rng, 0.6) {
		return pick(p.Rng, oddTargetNames)
	}
	return fmt.Sprintf(pick(p.Rng, []string{"f%d.txt", "dir/f%d.bin", "dir/sub/f%d", "lib-%d.tgz"}), i)
}

// AddTarget adds or replaces a target in a role.
func (p *Repo) AddTarget(role, name string) *Target {
	data := make([]byte, p.Rng.Intn(300))
	p.Rng.Read(data)
	if p.Rng.Intn(12) == 0 {
		data = nil
	}
	t := &Target{Data: data}
	switch p.Rng.Intn(3) {
	case 0:
		t.Algs = []string{"sha256"}
	case 1:
		t.Algs = []string{"sha512"}
	case 2:
		t.Algs = []string{"sha256", "sha512"}
	}
	if p.Rng.Intn(4) == 0 {
		t.Custom = J{"note": "c", "n": int64(p.Rng.Intn(9))}
	}
	p.Roles[role].Targets[name] = t
	p.Roles[role].dirty = true
	return t
}

var patterns = []string{"*", "dir/*", "dir/sub/*", "f*.txt", "*.bin", "dir/f*", "lib-?.tgz", "f[0-4].txt", "dir/*.bin", "*/*", "*/*/*", "lib-*", "f?.txt", "nomatch-*"}

func (p *Repo) growTree(o RepoOpts) {
	for i := 0; i < o.Delegations; i++ {
		name := fmt.Sprintf("role%d", i)
		if o.OddNames && chance(p.Rng, 0.7) {
			name = pick(p.Rng, oddRoleNames)
			if p.Roles[name] != nil {
				name = fmt.Sprintf("%s-%d", name, i)
			}
		}
		if o.OddNames && chance(p.Rng, 0.12) { // like another role's
			other := pick(p.Rng, p.Order)
			if near := pick(p.Rng, []string{"x/" + other, "a/b/" + other, other + "/x", other + ".json", strings.ToUpper(other), "1." + other}); p.Roles[near] == nil {
				name = near
			}
		}
		parent := pick(p.Rng, p.Order)
		if p.Roles[parent].Succinct != nil {
			parent = "targets"
		}
		n := 1 + p.Rng.Intn(2)
		r := &TRole{Name: name, Version: int64(1 + p.Rng.Intn(3)), Keys: p.NewKeys(n), Targets: map[string]*Target{}, dirty: true}
		p.Roles[name] = r
		p.Order = append(p.Order, name)
		e := Edge{Child: name, Keys: r.Keys, Threshold: 1 + p.Rng.Intn(n), Terminating: chance(p.Rng, 0.2)}
		if chance(p.Rng, 0.8) {
			for k := 0; k < 1+p.Rng.Intn(3); k++ {
				e.Paths = append(e.Paths, pick(p.Rng, patterns))
			}
		} else {
			for k := 0; k < 1+p.Rng.Intn(6); k++ {
				e.Prefixes = append(e.Prefixes, fmt.Sprintf("%x", p.Rng.Intn(16)))
			}
		}
		p.Roles[parent].Edges = append(p.Roles[parent].Edges, e)
		p.Roles[parent].dirty = true
		for k := 0; k < p.Rng.Intn(3); k++ {
			p.AddTarget(name, p.targetName(p.Rng.Intn(6), o.OddNames))
		}
	}
	// some shared children
	for k := 0; k < p.Rng.Intn(2); k++ {
		a, b := pick(p.Rng, p.Order), pick(p.Rng, p.Order)
		if a != b && b != "targets" && !p.hasEdge(a, b) {
			c := p.Roles[b]
			p.Roles[a].Edges = append(p.Roles[a].Edges, Edge{Child: b, Keys: c.Keys, Threshold: 1, Paths: []string{pick(p.Rng, patterns)}})
		}
	}
	if o.Succinct {
		leafs := []string{}
		for _, n := range p.Order {
			if len(p.Roles[n].Edges) == 0 && p.Roles[n].Succinct == nil {
				leafs = append(leafs, n)
			}
		}
		if len(leafs) > 0 {
			p.AddSuccinct(pick(p.Rng, leafs), 1+p.Rng.Intn(3), "bin")
		}
	}
}

func (p *Repo) hasEdge(a, b string) bool {
	for _, e := range p.Roles[a].Edges {
		if e.Child == b {
			return true
		}
	}
	return false
}

// AddSuccinct gives a role a hash-bin delegation with all bins present.
func (p *Repo) AddSuccinct(role string, bits int, prefix string) {
	s := &SuccinctSpec{Bits: bits, Prefix: prefix, Keys: p.NewKeys(1), Threshold: 1}
	p.Roles[role].Succinct = s
	p.Roles[role].dirty = true
	rs := &ref.Succinct{BitLength: int64(bits), Prefix: prefix}
	for v := 0; v < 1<<bits; v++ {
		n := rs.Name(uint64(v))
		p.Roles[n] = &TRole{Name: n, Version: 1, Keys: s.Keys, Targets: map[string]*Target{}, dirty: true}
		p.Order = append(p.Order, n)
	}
	for k := 0; k < 4; k++ {
		t := p.targetName(k, false)
		p.AddTarget(rs.Bin(t), t)
	}
}

// RootDocFor builds an unsigned root for the current roles.
func (p *Repo) RootDocFor(version int64, exp time.Time) *ref.Doc {
	d := ref.NewDoc("root", version, exp, p.UID("root"))
	d.Signed["consistent_snapshot"] = p.Consistent
	roles := J{}
	keys := J{}
	for _, n := range ref.SortedKeys(p.Top) {
		t := p.Top[n]
		roles[n] = p.unknown(J{"keyids": keyIDs(t.Keys), "threshold": int64(t.Threshold)})
		for id, k := range keyTable(t.Keys) {
			keys[id] = k
		}
	}
	d.Signed["keys"] = keys
	d.Signed["roles"] = roles
	p.unknown(d.Signed)
	return d
}

// NextRoot publishes a new root version after applying change (may be nil).
// It is signed with every key of the old and the new root role.
func (p *Repo) NextRoot(change func()) {
	old := p.Top["root"].Keys
	if change != nil {
		change()
	}
	p.RootVer++
	d := p.RootDocFor(p.RootVer, p.Future())
	p.signBoth(d, old)
	p.addRoot(d)
}

func (p *Repo) signBoth(d *ref.Doc, old []*ref.Key) {
	seen := map[string]bool{}
	for _, k := range append(append([]*ref.Key{}, p.Top["root"].Keys...), old...) {
		if !seen[k.ID()] {
			seen[k.ID()] = true
			d.Sign(k)
		}
	}
}

func (p *Repo) addRoot(d *ref.Doc) {
	raw := d.Bytes(p.fmt())
	p.Roots = append(p.Roots, raw)
	p.RootDocs = append(p.RootDocs, d)
	p.Files[fmt.Sprintf("%d.root.json", p.RootVer)] = raw
}

// RotateSome changes keys and thresholds of random roles and publishes a root.
// Metadata of roles whose keys changed are re-signed at the next Publish.
func (p *Repo) RotateSome(roles ...string) {
	if len(roles) == 0 {
		for _, r := range []string{"root", "timestamp", "snapshot", "targets"} {
			if chance(p.Rng, 0.4) {
				roles = append(roles, r)
			}
		}
	}
	p.NextRoot(func() {
		for _, r := range roles {
			t := p.Top[r]
			switch p.Rng.Intn(4) {
			case 0: // replace all
				p.Top[r] = p.newTop()
			case 1: // add one
				k := p.NewKeys(1)[0]
				dup := false
				for _, o := range t.Keys {
					if o.Public == k.Public {
						dup = true
					}
				}
				if !dup {
					p.Top[r] = &TopRole{Keys: append(append([]*ref.Key{}, t.Keys...), k), Threshold: t.Threshold}
				}
			case 2: // drop one
				if len(t.Keys) > 1 {
					n := &TopRole{Keys: append([]*ref.Key{}, t.Keys[1:]...), Threshold: t.Threshold}
					if n.Threshold > len(n.Keys) {
						n.Threshold = len(n.Keys)
					}
					p.Top[r] = n
				} else {
					p.Top[r] = p.newTop()
				}
			case 3: // threshold
				p.Top[r] = &TopRole{Keys: t.Keys, Threshold: 1 + p.Rng.Intn(len(t.Keys))}
			}
			if r == "targets" {
				p.Roles["targets"].Keys = p.Top["targets"].Keys
				p.Roles["targets"].dirty = true
			}
		}
	})
}

// TargetsDoc builds the unsigned metadata of a targets role.
func (p *Repo) TargetsDoc(r *TRole, version int64, exp time.Time) *ref.Doc {
	d := ref.NewDoc("targets", version, exp, p.UID(strings.ReplaceAll(r.Name, "%", "_")))
	ts := J{}
	for _, n := range ref.SortedKeys(r.Targets) {
		t := r.Targets[n]
		h := J{}
		for _, a := range t.Algs {
			if a == "sha256" {
				h[a] = ref.Sha256Hex(t.Data)
			} else {
				h[a] = ref.Sha512Hex(t.Data)
			}
		}
		e := J{"length": int64(len(t.Data)), "hashes": h}
		if t.Custom != nil {
			e["custom"] = t.Custom
		}
		for k, v := range t.Extra {
			e[k] = v
		}
		ts[n] = p.unknown(e)
	}
	d.Signed["targets"] = ts
	if len(r.Edges) > 0 {
		keys := J{}
		roles := []any{}
		for _, e := range r.Edges {
			for id, k := range keyTable(e.Keys) {
				keys[id] = k
			}
			o := J{"name": e.Child, "keyids": keyIDs(e.Keys), "threshold": int64(e.Threshold), "terminating": e.Terminating}
			if e.Paths != nil {
				o["paths"] = ref.Clone(e.Paths)
			}
			if e.Prefixes != nil {
				o["path_hash_prefixes"] = ref.Clone(e.Prefixes)
			}
			roles = append(roles, p.unknown(o))
		}
		d.Signed["delegations"] = p.unknown(J{"keys": keys, "roles": roles})
	} else if s := r.Succinct; s != nil {
		d.Signed["delegations"] = J{"keys": keyTable(s.Keys), "succinct_roles": p.unknown(J{
			"keyids": keyIDs(s.Keys), "threshold": int64(s.Threshold), "bit_length": int64(s.Bits), "name_prefix": s.Prefix})}
	} else if r.Targets != nil && p.Unknown && p.Rng.Intn(6) == 0 {
		d.Signed["delegations"] = J{"keys": J{}, "roles": []any{}}
		// an empty role list re-serialises as such
	}
	p.unknown(d.Signed)
	if r.Pad != "" {
		d.Signed["x-pad"] = r.Pad
	}
	return d
}

func (p *Repo) metaEntry(version int64, raw []byte) J {
	m := J{"version": version}
	if p.MetaLen && len(raw) > 0 {
		m["length"] = int64(len(raw))
	}
	if p.MetaHash {
		h := J{}
		if p.Rng.Intn(3) != 0 {
			h["sha256"] = ref.Sha256Hex(raw)
		}
		if p.Rng.Intn(3) == 0 || len(h) == 0 {
			h["sha512"] = ref.Sha512Hex(raw)
		}
		m["hashes"] = h
	}
	return p.unknown(m)
}

// SignKeys selects enough keys for a threshold.
func (p *Repo) SignKeys(t *TopRole) []*ref.Key { return t.Keys }

// Publish signs changed targets roles and makes a new snapshot and timestamp.
func (p *Repo) Publish() {
	for _, n := range p.Order {
		r := p.Roles[n]
		if r.dirty || r.raw == nil {
			if r.raw != nil {
				r.Version += p.step()
			} else {
				r.Version += p.step() - 1
			}
			exp := r.Expires
			if exp.IsZero() {
				exp = p.Future()
			}
			r.doc = p.TargetsDoc(r, r.Version, exp)
			r.doc.Sign(r.Keys...)
			r.raw = r.doc.Bytes(p.fmt())
			r.dirty = false
			p.put(n, r.Version, r.raw)
		}
	}
	p.SnapVer += p.step()
	p.SnapDoc = p.SnapshotDoc(p.SnapVer, p.Future())
	p.SnapDoc.Sign(p.Top["snapshot"].Keys...)
	raw := p.SnapDoc.Bytes(p.fmt())
	p.put("snapshot", p.SnapVer, raw)
	p.TSVer += p.step()
	p.TSDoc = p.TimestampDoc(p.TSVer, p.SnapVer, raw, p.Future())
	p.TSDoc.Sign(p.Top["timestamp"].Keys...)
	p.Files["timestamp.json"] = p.TSDoc.Bytes(p.fmt())
	p.publishTargets()
}

// step is by how much the next version of a document is larger.
func (p *Repo) step() int64 {
	if !(p.Rng.Float64() < p.jumps) {
		return 1
	}
	switch p.Rng.Intn(6) {
	case 0:
		return 1<<31 - 1 + int64(p.Rng.Intn(3))
	case 1:
		return 1<<32 - 1 + int64(p.Rng.Intn(3))
	case 2:
		return 1 << 40
	case 3:
		return pickInt(p.Rng, 8, 9, 98, 255, 256, 65535)
	}
	return 2 + int64(p.Rng.Intn(20))
}

func pickInt(r *rand.Rand, l ...int64) int64 { return l[r.Intn(len(l))] }

// SnapshotDoc lists the current targets roles.
func (p *Repo) SnapshotDoc(version int64, exp time.Time) *ref.Doc {
	d := ref.NewDoc("snapshot", version, exp, p.UID("snapshot"))
	meta := J{}
	for n, r := range p.Roles {
		_ = n
		meta[r.Name+".json"] = nil
	}
	for _, n := range p.Order {
		r := p.Roles[n]
		meta[n+".json"] = p.metaEntry(r.Version, r.raw)
	}
	d.Signed["meta"] = meta
	p.unknown(d.Signed)
	return d
}

// TimestampDoc lists a snapshot.
func (p *Repo) TimestampDoc(version, snapVer int64, snapRaw []byte, exp time.Time) *ref.Doc {
	d := ref.NewDoc("timestamp", version, exp, p.UID("timestamp"))
	d.Signed["meta"] = J{"snapshot.json": p.metaEntry(snapVer, snapRaw)}
	p.unknown(d.Signed)
	return d
}

func (p *Repo) metaFile(role string, version int64) string {
	if p.Consistent {
		return fmt.Sprintf("%d.%s", version, ref.RemoteName(role))
	}
	return ref.RemoteName(role)
}

func (p *Repo) put(role string, version int64, raw []byte) {
	p.Files[p.metaFile(role, version)] = raw
}

func (p *Repo) publishTargets() {
	for _, role := range p.Order {
		r := p.Roles[role]
		for _, n := range ref.SortedKeys(r.Targets) {
			t := r.Targets[n]
			p.TFiles[n] = t.Data
			dir, base := "", n
			if i := strings.LastIndex(n, "/"); i >= 0 {
				dir, base = n[:i+1], n[i+1:]
			}
			for _, a := range t.Algs {
				h := ref.Sha256Hex(t.Data)
				if a == "sha512" {
					h = ref.Sha512Hex(t.Data)
				}
				p.TFiles[dir+h+"."+base] = t.Data
			}
		}
	}
}

// State copies what is published now.
func (p *Repo) State() *State {
	s := &State{Files: map[string][]byte{}, TFiles: map[string][]byte{}}
	for k, v := range p.Files {
		s.Files[k] = v
	}
	for k, v := range p.TFiles {
		s.TFiles[k] = v
	}
	return s
}

// Evolve makes a random legitimate change and publishes it.
func (p *Repo) Evolve() string {
	what := []string{}
	if chance(p.Rng, 0.35) {
		p.RotateSome()
		what = append(what, "rotate")
	}
	if chance(p.Rng, 0.1) {
		p.Consistent = !p.Consistent
		p.NextRoot(nil)
		for _, r := range p.Roles {
			r.dirty = true
		}
		what = append(what, "consistent-flip")
	}
	for i := 0; i < p.Rng.Intn(3); i++ {
		role := pick(p.Rng, p.Order)
		p.AddTarget(role, p.targetName(p.Rng.Intn(6), false))
		what = append(what, "target:"+role)
	}
	if chance(p.Rng, 0.2) {
		p.MetaLen = !p.MetaLen
	}
	if chance(p.Rng, 0.2) {
		p.MetaHash = !p.MetaHash
	}
	p.Publish()
	return strings.Join(what, ",")
}

func flipHexSig(doc *ref.Doc, i int) {
	s := doc.Sigs[i].(J)
	b, _ := hex.DecodeString(s["sig"].(string))
	if len(b) > 0 {
		b[len(b)/2] ^= 1
	}
	n := ref.Clone(s).(J)
	n["sig"] = hex.EncodeToString(b)
	doc.Sigs[i] = n
}
