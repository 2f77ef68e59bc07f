package main

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"

	"verif/harness/ref"
)

// Histories of authoring a repository with the library, against a model of
// what the author wrote, and of who signed which content.

// amDoc is the model of one document.
type amDoc struct {
	typ  string
	want J                 // the signed content
	sigs map[string]string // key id -> content signed
	exp  time.Time
	pub  string // content published last
	out  J      // members beside the signed content and the signatures
}

func (d *amDoc) canon() string { return string(ref.Canon(d.want)) }

// auth is who may sign a role.
type auth struct {
	keys []*ref.Key // those the role lists
	thr  int
	all  []*ref.Key // all keys the author has for it
}

func (a *auth) valid(d *amDoc) int {
	n := 0
	for _, k := range a.keys {
		if s, ok := d.sigs[k.ID()]; ok && s == d.canon() {
			n++
		}
	}
	return n
}

func (a *auth) clone() *auth { return &auth{append([]*ref.Key{}, a.keys...), a.thr, a.all} }

type amDeleg struct {
	paths, prefixes []string
	term            bool
}

type author struct {
	c       *Case
	p       *Repo
	repo    containerOf
	docs    map[string]*amDoc
	auths   map[string]*auth
	parent  map[string]string // targets role -> delegator
	order   []string          // targets roles
	deleg   map[string]*amDeleg
	notes   map[string]J      // the author's own members of roles and delegations
	data    map[string][]byte // target path -> content
	homes   map[string]string // target path -> role
	bits    int               // hash bins under bins
	files   map[string][]byte // the server's metadata
	roots   [][]byte
	rootOld *auth // who could sign the last published root
	n       int
	refused int
	rev     map[string]int64 // versions published
	nosign  map[string]bool
}

// containerOf is what the repository container offers.
type containerOf interface {
	Root() *metadata.Metadata[metadata.RootType]
	SetRoot(*metadata.Metadata[metadata.RootType])
	Snapshot() *metadata.Metadata[metadata.SnapshotType]
	SetSnapshot(*metadata.Metadata[metadata.SnapshotType])
	Timestamp() *metadata.Metadata[metadata.TimestampType]
	SetTimestamp(*metadata.Metadata[metadata.TimestampType])
	Targets(string) *metadata.Metadata[metadata.TargetsType]
	SetTargets(string, *metadata.Metadata[metadata.TargetsType])
}

var topRoles = []string{"root", "timestamp", "snapshot", "targets"}

func (a *author) meta(role string) anyMeta {
	switch role {
	case "root":
		return a.repo.Root()
	case "timestamp":
		return a.repo.Timestamp()
	case "snapshot":
		return a.repo.Snapshot()
	}
	return a.repo.Targets(role)
}

func (a *author) setMeta(role string, m anyMeta) {
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		a.repo.SetRoot(x)
	case *metadata.Metadata[metadata.TimestampType]:
		a.repo.SetTimestamp(x)
	case *metadata.Metadata[metadata.SnapshotType]:
		a.repo.SetSnapshot(x)
	case *metadata.Metadata[metadata.TargetsType]:
		a.repo.SetTargets(role, x)
	}
}

func (a *author) fail(key, format string, args ...any) bool {
	a.c.Fail(key, format, args...)
	return false
}

// authKeys are keys the library's signers can use under their own ids.
func (a *author) authKeys(n int) []*ref.Key {
	var out []*ref.Key
	for len(out) < n {
		var k *ref.Key
		a.n++
		switch a.p.Rng.Intn(8) {
		case 0:
			k = ref.ECDSA(a.p.Rng.Intn(ref.NumECDSA()), false)
		case 1:
			k = ref.RSAPSS(a.p.Rng.Intn(ref.NumRSA()))
		default:
			k = ref.Ed25519(fmt.Sprintf("%s-au-%d", a.p.tag, a.n))
		}
		dup := false
		for _, o := range out {
			dup = dup || o.ID() == k.ID()
		}
		if !dup {
			out = append(out, k)
		}
	}
	return out
}

func (a *author) libKey(k *ref.Key) (*metadata.Key, error) {
	if a.p.Rng.Intn(2) == 0 {
		return metaKey(k), nil
	}
	return metadata.KeyFromPublicKey(k.Signer.Public())
}

func (a *author) expiry() time.Time {
	r := a.p.Rng
	t := time.Date(2090+r.Intn(8), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	if chance(r, 0.2) {
		t = a.p.Now.Add(time.Duration(1+r.Intn(100)) * 24 * time.Hour).Truncate(time.Second)
	}
	return t
}

// start creates the documents and the first keys.
func (a *author) start() bool {
	r := a.p.Rng
	a.repo = repository.New()
	for _, role := range topRoles {
		exp := a.expiry()
		var m anyMeta
		want := J{"_type": role, "spec_version": metadata.SPECIFICATION_VERSION, "version": json.Number("1"), "expires": ref.TimeStr(exp)}
		later := chance(r, 0.2) // the expiry is set afterwards
		switch role {
		case "root":
			x := metadata.Root(exp)
			if later {
				x = metadata.Root()
				x.Signed.Expires = exp
			}
			m = x
			roles := J{}
			for _, t := range topRoles {
				roles[t] = J{"keyids": []any{}, "threshold": json.Number("1")}
			}
			want["keys"], want["roles"], want["consistent_snapshot"] = J{}, roles, true
		case "timestamp":
			x := metadata.Timestamp(exp)
			if later {
				x = metadata.Timestamp()
				x.Signed.Expires = exp
			}
			m = x
			want["meta"] = J{"snapshot.json": J{"version": json.Number("1")}}
		case "snapshot":
			x := metadata.Snapshot(exp)
			if later {
				x = metadata.Snapshot()
				x.Signed.Expires = exp
			}
			m = x
			want["meta"] = J{"targets.json": J{"version": json.Number("1")}}
		case "targets":
			x := metadata.Targets(exp)
			if later {
				x = metadata.Targets()
				x.Signed.Expires = exp
			}
			m = x
			want["targets"] = J{}
		}
		a.setMeta(role, m)
		a.docs[role] = &amDoc{typ: role, want: want, sigs: map[string]string{}, exp: exp}
		a.auths[role] = &auth{thr: 1, all: a.authKeys(2 + r.Intn(3))}
	}
	a.order = []string{"targets"}
	for _, role := range topRoles {
		for i, k := range a.auths[role].all {
			if i == 0 || chance(r, 0.6) {
				if !a.addKey(role, k) {
					return false
				}
			}
		}
	}
	return true
}

// wantKeys rebuilds the model's key table and key lists of a delegator.
func (a *author) delegDoc(role string) (string, *amDoc) {
	if p, ok := a.parent[role]; ok {
		return p, a.docs[p]
	}
	return "root", a.docs["root"]
}

// rolesOf lists the roles a delegator delegates.
func (a *author) rolesOf(delegator string) []string {
	if delegator == "root" {
		return topRoles
	}
	var out []string
	for _, x := range a.order {
		if p, ok := a.parent[x]; ok && p == delegator {
			out = append(out, x)
		}
	}
	return out
}

// syncKeys writes the model's keys into the content of a delegator.
func (a *author) syncKeys(delegator string) {
	keys := J{}
	d := a.docs[delegator]
	ids := func(au *auth) []any {
		l := []any{}
		for _, k := range au.keys {
			l = append(l, k.ID())
			keys[k.ID()] = k.Dict()
		}
		return l
	}
	num := func(n int) json.Number { return json.Number(fmt.Sprint(n)) }
	if delegator == "root" {
		roles := J{}
		for _, t := range topRoles {
			roles[t] = J{"keyids": ids(a.auths[t]), "threshold": num(a.auths[t].thr)}
		}
		d.want["roles"], d.want["keys"] = roles, keys
		a.noted("root")
		return
	}
	kids := a.rolesOf(delegator)
	if len(kids) == 0 {
		if _, ok := d.want["delegations"]; ok {
			d.want["delegations"] = J{"keys": J{}}
			a.noted(delegator)
		}
		return
	}
	if a.bits > 0 && kids[0] == "bins" {
		au := a.auths["bins"]
		d.want["delegations"] = J{"keys": keys, "succinct_roles": J{"keyids": ids(au), "threshold": num(au.thr), "bit_length": num(a.bits), "name_prefix": "bin"}}
		a.noted(delegator)
		return
	}
	roles := []any{}
	for _, x := range kids {
		au := a.auths[x]
		e := J{"name": x, "keyids": ids(au), "threshold": num(au.thr), "terminating": a.deleg[x].term}
		if p := a.deleg[x].paths; p != nil {
			e["paths"] = strs(p)
		}
		if p := a.deleg[x].prefixes; p != nil {
			e["path_hash_prefixes"] = strs(p)
		}
		roles = append(roles, e)
	}
	d.want["delegations"] = J{"keys": keys, "roles": roles}
	a.noted(delegator)
}

// noted puts the author's own members back into what syncKeys made anew.
func (a *author) noted(delegator string) {
	d := a.docs[delegator]
	into := func(o J, where string) {
		for k, v := range a.notes[where] {
			o[k] = v
		}
	}
	if delegator == "root" {
		for t, o := range d.want["roles"].(J) {
			into(o.(J), "role:"+t)
		}
		return
	}
	o, ok := d.want["delegations"].(J)
	if !ok {
		return
	}
	into(o, "delegations:"+delegator)
	if l, ok := o["roles"].([]any); ok {
		for _, e := range l {
			into(e.(J), "role:"+e.(J)["name"].(string))
		}
	}
	if b, ok := o["succinct_roles"].(J); ok {
		into(b, "role:bins")
	}
}

// annotate adds members of the author's own to a document, at any level.
func (a *author) annotate(role string) {
	r := a.p.Rng
	a.n++
	k := pick(r, []string{"x-note", "comment", "a", "zz", fmt.Sprint("n", a.n), "signature", "type"})
	var v any
	var w any
	switch r.Intn(5) {
	case 0:
		v, w = fmt.Sprint("text \"", a.n, "\""), fmt.Sprint("text \"", a.n, "\"")
	case 1:
		v, w = a.n, json.Number(fmt.Sprint(a.n))
	case 2:
		v, w = nil, nil
	case 3:
		v, w = map[string]any{"b": true, "a": []any{"x", 1}}, J{"b": true, "a": []any{"x", json.Number("1")}}
	default:
		v, w = []any{}, []any{}
	}
	put := func(m *map[string]any) {
		if *m == nil {
			*m = map[string]any{}
		}
		(*m)[k] = v
	}
	note := func(where string) {
		if a.notes[where] == nil {
			a.notes[where] = J{}
		}
		a.notes[where][k] = w
	}
	d := a.docs[role]
	outer := func(m *map[string]any) {
		put(m)
		if d.out == nil {
			d.out = J{}
		}
		d.out[k] = w
	}
	signed := func(m *map[string]any) {
		put(m)
		d.want[k] = w
	}
	n := r.Intn(4)
	a.c.Count("members of the author's own added")
	switch x := a.meta(role).(type) {
	case *metadata.Metadata[metadata.RootType]:
		switch n {
		case 0:
			outer(&x.UnrecognizedFields)
		case 1:
			signed(&x.Signed.UnrecognizedFields)
		default:
			t := pick(r, topRoles)
			put(&x.Signed.Roles[t].UnrecognizedFields)
			note("role:" + t)
			a.noted("root")
		}
	case *metadata.Metadata[metadata.TimestampType]:
		if n == 0 {
			outer(&x.UnrecognizedFields)
		} else {
			signed(&x.Signed.UnrecognizedFields)
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		if n == 0 {
			outer(&x.UnrecognizedFields)
		} else {
			signed(&x.Signed.UnrecognizedFields)
		}
	case *metadata.Metadata[metadata.TargetsType]:
		switch paths := ref.SortedKeys(x.Signed.Targets); {
		case n == 0:
			outer(&x.UnrecognizedFields)
		case n == 1 && len(paths) > 0:
			p := pick(r, paths)
			put(&x.Signed.Targets[p].UnrecognizedFields)
			d.want["targets"].(J)[p].(J)[k] = w
		case n == 2 && x.Signed.Delegations != nil:
			dl := x.Signed.Delegations
			switch {
			case chance(r, 0.4):
				put(&dl.UnrecognizedFields)
				note("delegations:" + role)
			case len(dl.Roles) > 0:
				i := r.Intn(len(dl.Roles))
				put(&dl.Roles[i].UnrecognizedFields)
				note("role:" + dl.Roles[i].Name)
			case dl.SuccinctRoles != nil:
				put(&dl.SuccinctRoles.UnrecognizedFields)
				note("role:bins")
			}
			a.noted(role)
		default:
			signed(&x.Signed.UnrecognizedFields)
		}
	}
}

func strs(l []string) []any {
	out := []any{}
	for _, x := range l {
		out = append(out, x)
	}
	return out
}

func (a *author) addKey(role string, k *ref.Key) bool {
	mk, err := a.libKey(k)
	if err != nil {
		return a.fail("key", "public key of %s refused: %v", k.Kind, err)
	}
	del, _ := a.delegDoc(role)
	if del == "root" {
		err = a.repo.Root().Signed.AddKey(mk, role)
	} else {
		arg := role
		err = a.repo.Targets(del).Signed.AddKey(mk, arg)
	}
	if err != nil {
		return a.fail("add-key", "adding a %s key to %q fails: %v", k.Kind, role, err)
	}
	au := a.auths[role]
	for _, o := range au.keys {
		if o.ID() == k.ID() {
			return true
		}
	}
	au.keys = append(au.keys, k)
	a.syncKeys(del)
	return true
}

func (a *author) revokeKey(role string, k *ref.Key) bool {
	del, _ := a.delegDoc(role)
	var err error
	if del == "root" {
		err = a.repo.Root().Signed.RevokeKey(k.ID(), role)
	} else {
		err = a.repo.Targets(del).Signed.RevokeKey(k.ID(), role)
	}
	if err != nil {
		return a.fail("revoke-key", "revoking a %s key of %q fails: %v", k.Kind, role, err)
	}
	au := a.auths[role]
	var l []*ref.Key
	for _, o := range au.keys {
		if o.ID() != k.ID() {
			l = append(l, o)
		}
	}
	au.keys = l
	a.syncKeys(del)
	return true
}

func (a *author) setThreshold(role string, n int) {
	del, _ := a.delegDoc(role)
	a.auths[role].thr = n
	switch {
	case del == "root":
		a.repo.Root().Signed.Roles[role].Threshold = n
	case role == "bins":
		a.repo.Targets(del).Signed.Delegations.SuccinctRoles.Threshold = n
	default:
		ds := a.repo.Targets(del).Signed.Delegations
		for i := range ds.Roles {
			if ds.Roles[i].Name == role {
				ds.Roles[i].Threshold = n
			}
		}
	}
	a.syncKeys(del)
}

// newTargets creates the document of a delegated role.
func (a *author) newTargets(name string) {
	exp := a.expiry()
	a.repo.SetTargets(name, metadata.Targets(exp))
	a.docs[name] = &amDoc{typ: "targets", exp: exp, sigs: map[string]string{}, want: J{"_type": "targets", "spec_version": metadata.SPECIFICATION_VERSION,
		"version": json.Number("1"), "expires": ref.TimeStr(exp), "targets": J{}}}
}

func (a *author) delegate() bool {
	r := a.p.Rng
	a.n++
	from := pick(r, a.order)
	if from == "bins" || a.parent[from] == "bins" || a.parent[a.parent[from]] != "" {
		from = "targets"
	}
	kids := a.rolesOf(from)
	if len(kids) > 0 && kids[0] == "bins" {
		return true
	}
	t := a.repo.Targets(from)
	if len(kids) == 0 && from == "targets" && a.bits == 0 && chance(r, 0.3) {
		// hash bins
		a.bits = 1 + r.Intn(3)
		au := &auth{thr: 1, all: a.authKeys(1 + r.Intn(3))}
		a.auths["bins"] = au
		a.parent["bins"] = from
		a.order = append(a.order, "bins")
		sr := &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: a.bits, NamePrefix: "bin"}
		t.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: sr}
		for i, k := range au.all {
			if i == 0 || chance(r, 0.5) {
				// a role name must be a bin's, or is not looked at
				mk, err := a.libKey(k)
				if err == nil {
					err = t.Signed.AddKey(mk, pick(r, []string{"", "bin-0", sr.GetRoles()[0]}))
				}
				if err != nil {
					return a.fail("add-key:bins", "adding a %s key to hash bins fails: %v", k.Kind, err)
				}
				au.keys = append(au.keys, k)
			}
		}
		a.syncKeys(from)
		names := sr.GetRoles()
		if len(names) != 1<<a.bits {
			return a.fail("bins", "%d bins for %d bits", len(names), a.bits)
		}
		for _, n := range names {
			a.newTargets(n)
			a.parent[n] = "bins"
			a.order = append(a.order, n)
		}
		a.c.Count("hash-bin delegations authored")
		return true
	}
	name := fmt.Sprintf("%s%d", pick(r, []string{"role", "a b", "x/y", "é", "role."}), a.n)
	if len(a.order) > 1 && chance(r, 0.25) { // another one but for case
		x := pick(r, a.order[1:])
		if y := strings.ToUpper(x); a.docs[y] == nil && x != "bins" && a.parent[x] != "bins" {
			name = y
			a.c.Count("role names differing in case")
		}
	}
	dg := &amDeleg{term: chance(r, 0.4)}
	dir := fmt.Sprintf("d%d", a.n)
	if p := a.deleg[from]; p != nil {
		if p.paths == nil {
			return true
		}
		dir = p.paths[0][:len(p.paths[0])-2] + "/" + dir
	}
	if from == "targets" && chance(r, 0.25) {
		dg.prefixes = []string{}
		h := sha256.Sum256([]byte(dir + "/only"))
		dg.prefixes = append(dg.prefixes, hex.EncodeToString(h[:])[:2+2*r.Intn(30)])
		dg.paths = nil
	} else {
		dg.paths = []string{dir + "/*", dir + "/*/*", dir + "/*/*/*"}
	}
	au := &auth{thr: 1, all: a.authKeys(1 + r.Intn(3))}
	a.auths[name], a.parent[name], a.deleg[name] = au, from, dg
	a.order = append(a.order, name)
	role := metadata.DelegatedRole{Name: name, KeyIDs: []string{}, Threshold: 1, Terminating: dg.term, Paths: dg.paths, PathHashPrefixes: dg.prefixes}
	if t.Signed.Delegations == nil {
		t.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
	}
	t.Signed.Delegations.Roles = append(t.Signed.Delegations.Roles, role)
	a.newTargets(name)
	for i, k := range au.all {
		if i == 0 || chance(r, 0.5) {
			if !a.addKey(name, k) {
				return false
			}
		}
	}
	a.syncKeys(from)
	a.c.Count("delegations authored")
	return true
}

// addTarget lists a file in a role that its delegations allow.
func (a *author) addTarget() bool {
	r := a.p.Rng
	a.n++
	role := pick(r, a.order)
	path := ""
	switch {
	case role == "bins":
		return true
	case a.parent[role] == "bins":
		sr := &ref.Succinct{BitLength: int64(a.bits), Prefix: "bin"}
		for i := 0; ; i++ {
			path = fmt.Sprintf("f%d-%d.txt", a.n, i)
			if sr.Bin(path) == role {
				break
			}
		}
	case a.deleg[role] != nil && a.deleg[role].prefixes != nil:
		for n := 1; n <= a.n && path == ""; n++ {
			x := fmt.Sprintf("d%d/only", n)
			h := sha256.Sum256([]byte(x))
			if p := a.deleg[role].prefixes[0]; hex.EncodeToString(h[:])[:len(p)] == p {
				path = x
			}
		}
	case a.deleg[role] != nil:
		p := a.deleg[role].paths[0]
		path = p[:len(p)-1] + pick(r, []string{fmt.Sprint("f", a.n), fmt.Sprintf("f %d", a.n), fmt.Sprintf("s/f%d", a.n)})
	default:
		path = pick(r, []string{fmt.Sprint("t", a.n), fmt.Sprintf("top/t%d.txt", a.n)})
	}
	if path == "" || (a.homes[path] != "" && a.homes[path] != role) {
		return true
	}
	if x := a.shadowed(role, path); x {
		return true
	}
	data := make([]byte, pick(r, []int{0, 1, 20, 300, 5000}))
	r.Read(data)
	algs := pick(r, [][]string{nil, {"sha256"}, {"sha512"}, {"sha512", "sha256"}})
	var tf *metadata.TargetFiles
	var err error
	how := "bytes"
	if chance(r, 0.5) {
		tf, err = metadata.TargetFile().FromBytes(pick(r, []string{path, "/some/where"}), data, algs...)
	} else {
		how = "file"
		f := filepath.Join(a.c.Dir(), fmt.Sprintf("local-%d", a.n))
		if err := os.WriteFile(f, data, 0o644); err != nil {
			panic(err)
		}
		tf, err = metadata.TargetFile().FromFile(f, algs...)
	}
	if err != nil {
		return a.fail("target-from-"+how, "describing %d bytes with %v fails: %v", len(data), algs, err)
	}
	hashes := J{}
	if algs == nil {
		algs = []string{"sha256"}
	}
	for _, x := range algs {
		if x == "sha256" {
			hashes[x] = ref.Sha256Hex(data)
		} else {
			hashes[x] = ref.Sha512Hex(data)
		}
	}
	e := J{"length": json.Number(fmt.Sprint(len(data))), "hashes": hashes}
	if chance(r, 0.3) {
		raw := json.RawMessage(fmt.Sprintf(`{"note":"n%d","list":[1,2,{"x":true}]}`, a.n))
		tf.Custom = &raw
		v, _ := ref.ParseJSON(raw)
		e["custom"] = v
	}
	a.repo.Targets(role).Signed.Targets[path] = tf
	a.docs[role].want["targets"].(J)[path] = e
	a.data[path], a.homes[path] = data, role
	a.c.Count("target files described")
	return true
}

// shadowed tells whether another role would be asked for the path too, which
// the directories and prefixes chosen leave to chance for hash prefixes.
func (a *author) shadowed(role, path string) bool {
	h := sha256.Sum256([]byte(path))
	hx := hex.EncodeToString(h[:])
	for n, d := range a.deleg {
		if n == role {
			continue
		}
		for _, p := range d.prefixes {
			if hx[:len(p)] == p {
				return true
			}
		}
	}
	return false
}

func (a *author) dropTarget() {
	if len(a.homes) == 0 {
		return
	}
	path := pick(a.p.Rng, ref.SortedKeys(a.homes))
	role := a.homes[path]
	delete(a.repo.Targets(role).Signed.Targets, path)
	delete(a.docs[role].want["targets"].(J), path)
	delete(a.homes, path)
	delete(a.data, path)
}

// authOf is who may sign a document.
func (a *author) authOf(role string) *auth {
	if a.parent[role] == "bins" {
		return a.auths["bins"]
	}
	return a.auths[role]
}

func (a *author) delegator(role string) string {
	p, ok := a.parent[role]
	if !ok {
		return "root"
	}
	if p == "bins" {
		return a.parent["bins"]
	}
	return p
}

// sign signs a document with the library.
func (a *author) sign(role string, k *ref.Key) bool {
	m := a.meta(role)
	if err := libSign(m, libSigner(k)); err != nil {
		return a.fail("sign:"+k.Kind, "signing %q with a %s key fails: %v", role, k.Kind, err)
	}
	d := a.docs[role]
	d.sigs[k.ID()] = d.canon()
	a.c.Count("signatures made")
	return true
}

// faultySigner fails in one of the ways a signing service may.
type faultySigner struct {
	signature.Signer
	way string
}

func (s faultySigner) SignMessage(m io.Reader, o ...signature.SignOption) ([]byte, error) {
	if s.way == "sign" {
		return nil, errors.New("signing service unavailable")
	}
	return s.Signer.SignMessage(m, o...)
}

func (s faultySigner) PublicKey(o ...signature.PublicKeyOption) (crypto.PublicKey, error) {
	switch s.way {
	case "key":
		return nil, errors.New("no public key available")
	case "kind":
		return struct{}{}, nil
	case "nil":
		return nil, nil
	}
	return s.Signer.PublicKey(o...)
}

// signFaulty asks a failing signer for a signature: that is an error, and the
// document stays as it is (write finds a stray or lost signature otherwise).
func (a *author) signFaulty() bool {
	r := a.p.Rng
	role := pick(r, append(append([]string{}, topRoles...), a.order...))
	au := a.auths[role]
	if role == "bins" || au == nil || a.docs[role] == nil || len(au.all) == 0 {
		return true
	}
	way := pick(r, []string{"sign", "key", "kind", "nil"})
	if err := libSign(a.meta(role), faultySigner{libSigner(pick(r, au.all)), way}); err == nil {
		return a.fail("faulty-signer:"+way, "signing %q with a signer that fails (%s) succeeds", role, way)
	}
	a.c.Count("signatures asked of failing signers")
	return true
}

// place puts an entry of another signer, or one still to come, among the
// signatures: it stays there until that key signs.
func (a *author) place() bool {
	r := a.p.Rng
	role := pick(r, append(append([]string{}, topRoles...), a.order...))
	if role == "bins" || a.docs[role] == nil {
		return true
	}
	d := a.docs[role]
	id := ref.Sha256Hex([]byte(fmt.Sprint(r.Intn(6))))
	if au := a.authOf(role); au != nil && len(au.all) > 0 && chance(r, 0.5) {
		id = pick(r, au.all).ID()
	}
	if _, ok := d.sigs[id]; ok {
		return true
	}
	sig := []byte{}
	if chance(r, 0.5) {
		sig = make([]byte, 1+r.Intn(64))
		r.Read(sig)
	}
	s := metadata.Signature{KeyID: id, Signature: sig}
	switch x := a.meta(role).(type) {
	case *metadata.Metadata[metadata.RootType]:
		x.Signatures = append(x.Signatures, s)
	case *metadata.Metadata[metadata.TimestampType]:
		x.Signatures = append(x.Signatures, s)
	case *metadata.Metadata[metadata.SnapshotType]:
		x.Signatures = append(x.Signatures, s)
	case *metadata.Metadata[metadata.TargetsType]:
		x.Signatures = append(x.Signatures, s)
	}
	d.sigs[id] = placed + hex.EncodeToString(sig)
	a.c.Count("entries of other signers")
	return true
}

const placed = "\x00placed:"

func (a *author) clear(role string) {
	switch x := a.meta(role).(type) {
	case *metadata.Metadata[metadata.RootType]:
		x.ClearSignatures()
	case *metadata.Metadata[metadata.TimestampType]:
		x.ClearSignatures()
	case *metadata.Metadata[metadata.SnapshotType]:
		x.ClearSignatures()
	case *metadata.Metadata[metadata.TargetsType]:
		x.ClearSignatures()
	}
	a.docs[role].sigs = map[string]string{}
}

func (a *author) setVersion(role string, v int64) {
	switch x := a.meta(role).(type) {
	case *metadata.Metadata[metadata.RootType]:
		x.Signed.Version = v
	case *metadata.Metadata[metadata.TimestampType]:
		x.Signed.Version = v
	case *metadata.Metadata[metadata.SnapshotType]:
		x.Signed.Version = v
	case *metadata.Metadata[metadata.TargetsType]:
		x.Signed.Version = v
	}
	a.docs[role].want["version"] = json.Number(fmt.Sprint(v))
}

func (a *author) setExpiry(role string, t time.Time) {
	switch x := a.meta(role).(type) {
	case *metadata.Metadata[metadata.RootType]:
		x.Signed.Expires = t
	case *metadata.Metadata[metadata.TimestampType]:
		x.Signed.Expires = t
	case *metadata.Metadata[metadata.SnapshotType]:
		x.Signed.Expires = t
	case *metadata.Metadata[metadata.TargetsType]:
		x.Signed.Expires = t
	}
	a.docs[role].exp = t
	a.docs[role].want["expires"] = ref.TimeStr(t)
}

// reload writes a document and loads it again.
func (a *author) reload(role string) bool {
	if chance(a.p.Rng, 0.4) {
		return a.reloadInPlace(role)
	}
	n, how, err := relayout(a.c, a.docs[role].typ, a.meta(role), 1000+a.n)
	a.n++
	if err != nil {
		return a.fail("reload:"+a.docs[role].typ, "%q cannot be written and loaded again (%s): %v", role, how, err)
	}
	a.setMeta(role, n)
	a.c.Count("documents reloaded")
	return true
}

// reloadInPlace goes on editing a document, then loads its earlier form into it.
func (a *author) reloadInPlace(role string) bool {
	r := a.p.Rng
	d := a.docs[role]
	m := a.meta(role)
	raw, err := m.ToBytes(chance(r, 0.5))
	if err != nil {
		return a.fail("write:"+d.typ, "%q cannot be written: %v", role, err)
	}
	ver, exp := a.version(role), d.exp
	sigs := map[string]string{}
	for k, v := range d.sigs {
		sigs[k] = v
	}
	if chance(r, 0.3) {
		a.clear(role)
	}
	a.setVersion(role, ver+1+int64(r.Intn(3)))
	if chance(r, 0.5) {
		a.setExpiry(role, a.expiry())
	}
	switch x := m.(type) {
	case *metadata.Metadata[metadata.TargetsType]:
		x.Signed.Targets["scratch/file"] = metadata.TargetFile()
		if chance(r, 0.5) {
			x.UnrecognizedFields = map[string]any{"scratch": "x"}
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		x.Signed.Meta["scratch.json"] = metadata.MetaFile(7)
	case *metadata.Metadata[metadata.RootType]:
		x.Signed.ConsistentSnapshot = !x.Signed.ConsistentSnapshot
		x.Signed.UnrecognizedFields = map[string]any{"scratch": "x"}
	}
	for k := r.Intn(3); k > 0; k-- {
		au := pick(r, []*auth{a.auths["timestamp"], a.authOf(role)})
		if err := libSign(m, libSigner(pick(r, au.all))); err != nil {
			return a.fail("sign", "signing %q fails: %v", role, err)
		}
	}
	if chance(r, 0.3) { // what is refused changes nothing
		before, err := m.ToBytes(false)
		if err != nil {
			return a.fail("write:"+d.typ, "%q cannot be written: %v", role, err)
		}
		bad := raw[:len(raw)-1-r.Intn(len(raw)/2)]
		how := "cut short"
		if chance(r, 0.5) {
			how = "of another type"
			o := pick(r, []string{"root", "timestamp", "snapshot"})
			if o == d.typ {
				o = "targets"
			}
			if bad, err = a.meta(o).ToBytes(false); err != nil {
				return a.fail("write:"+o, "%q cannot be written: %v", o, err)
			}
		}
		err = libLoadInto(m, bad, "")
		a.c.Eval()
		a.c.Count("refused loads into a document")
		if err == nil {
			return a.fail("loads-bad:"+d.typ, "%q loads from a document %s", role, how)
		}
		if after, err := m.ToBytes(false); err != nil || !bytes.Equal(before, after) {
			return a.fail("refused-load-changes:"+d.typ, "%q changes when loading a document %s into it is refused", role, how)
		}
	}
	f := ""
	if chance(r, 0.4) {
		f = filepath.Join(a.c.Dir(), "inplace.json")
		if err := os.WriteFile(f, raw, 0o644); err != nil {
			panic(err)
		}
	}
	if err := libLoadInto(m, raw, f); err != nil {
		return a.fail("reload:"+d.typ, "%q cannot be loaded into an existing document: %v", role, err)
	}
	a.c.Count("documents loaded into existing ones")
	d.sigs, d.exp = sigs, exp
	d.want["version"] = json.Number(fmt.Sprint(ver))
	d.want["expires"] = ref.TimeStr(exp)
	if _, ok := a.write(role); !ok {
		return false
	}
	return true
}

// libLoadInto loads into an existing document, from a file if it is named.
func libLoadInto(m anyMeta, raw []byte, file string) error {
	var err error
	switch x := m.(type) {
	case *metadata.Metadata[metadata.RootType]:
		if file != "" {
			_, err = x.FromFile(file)
		} else {
			_, err = x.FromBytes(raw)
		}
	case *metadata.Metadata[metadata.TimestampType]:
		if file != "" {
			_, err = x.FromFile(file)
		} else {
			_, err = x.FromBytes(raw)
		}
	case *metadata.Metadata[metadata.SnapshotType]:
		if file != "" {
			_, err = x.FromFile(file)
		} else {
			_, err = x.FromBytes(raw)
		}
	case *metadata.Metadata[metadata.TargetsType]:
		if file != "" {
			_, err = x.FromFile(file)
		} else {
			_, err = x.FromBytes(raw)
		}
	}
	return err
}

// pristine compares freshly created documents with what they are to hold.
func (a *author) pristine(when string) bool {
	t := time.Date(2091, 2, 3, 4, 5, 6, 0, time.UTC)
	for _, role := range topRoles {
		var m anyMeta
		want := J{"_type": role, "spec_version": metadata.SPECIFICATION_VERSION, "version": json.Number("1"), "expires": ref.TimeStr(t)}
		switch role {
		case "root":
			m = metadata.Root(t)
			roles := J{}
			for _, t := range topRoles {
				roles[t] = J{"keyids": []any{}, "threshold": json.Number("1")}
			}
			want["keys"], want["roles"], want["consistent_snapshot"] = J{}, roles, true
		case "timestamp":
			m = metadata.Timestamp(t)
			want["meta"] = J{"snapshot.json": J{"version": json.Number("1")}}
		case "snapshot":
			m = metadata.Snapshot(t)
			want["meta"] = J{"targets.json": J{"version": json.Number("1")}}
		default:
			m = metadata.Targets(t)
			want["targets"] = J{}
		}
		raw, err := m.ToBytes(false)
		if err != nil {
			return a.fail("write:"+role, "a new %s document cannot be written: %v", role, err)
		}
		v, _ := ref.ParseJSON(raw)
		o, _ := v.(J)
		signed, _ := o["signed"].(J)
		a.c.Eval()
		a.c.Count("new documents compared")
		if s := jsonDiff(want, signed, ""); s != "" {
			return a.fail("new:"+role, "a %s document created %s is not new: %s", role, when, s)
		}
		if l, ok := o["signatures"].([]any); !ok || len(l) > 0 {
			return a.fail("new:"+role, "a %s document created %s has signatures", role, when)
		}
	}
	return true
}

// entry describes a document in a list, in place if it is there already.
func (a *author) entry(meta map[string]*metadata.MetaFiles, list J, name string, v int64, raw []byte) {
	m := meta[name]
	if m == nil || chance(a.p.Rng, 0.5) {
		m = metadata.MetaFile(v)
		meta[name] = m
	} else {
		m.Version, m.Length, m.Hashes = v, 0, metadata.Hashes{}
	}
	e := J{"version": json.Number(fmt.Sprint(v))}
	a.describe(m, e, raw)
	list[name] = e
}

// write publishes the bytes of a document and compares them with the model.
func (a *author) write(role string) ([]byte, bool) {
	r := a.p.Rng
	m := a.meta(role)
	d := a.docs[role]
	pretty := chance(r, 0.5)
	raw, err := m.ToBytes(pretty)
	if err == nil && chance(r, 0.5) {
		f := filepath.Join(a.c.Dir(), "written.json")
		if chance(r, 0.5) {
			os.Remove(f)
		}
		err = m.ToFile(f, pretty)
		if err == nil {
			var got []byte
			got, err = os.ReadFile(f)
			if err == nil && !bytes.Equal(got, raw) {
				return nil, a.fail("file-differs", "%q written to a file differs from its bytes", role)
			}
		}
	}
	if err != nil {
		return nil, a.fail("write:"+d.typ, "%q cannot be written: %v", role, err)
	}
	v, err := ref.ParseJSON(raw)
	if err != nil {
		return nil, a.fail("json:"+d.typ, "%q is written as malformed JSON: %v", role, err)
	}
	o, _ := v.(J)
	a.c.Eval()
	a.c.Count("documents compared with what was authored")
	signed, _ := o["signed"].(J)
	if !bytes.Equal(ref.Canon(signed), ref.Canon(d.want)) {
		a.c.Logf("authored %s", ref.Canon(d.want))
		a.c.Logf("written %s", ref.Canon(signed))
		return nil, a.fail("content:"+d.typ, "%q as written differs from what was authored: %s", role, jsonDiff(d.want, signed, ""))
	}
	rest := J{}
	for k, v := range o {
		if k != "signed" && k != "signatures" {
			rest[k] = v
		}
	}
	if out := d.out; len(rest)+len(out) > 0 && !bytes.Equal(ref.Canon(rest), ref.Canon(out)) {
		return nil, a.fail("members:"+d.typ, "%q as written has other members than the author gave it: %s", role, jsonDiff(out, rest, ""))
	}
	sigs, _ := o["signatures"].([]any)
	seen := map[string]bool{}
	for _, s := range sigs {
		x, _ := s.(J)
		id, _ := x["keyid"].(string)
		if seen[id] {
			return nil, a.fail("two-signatures", "%q has two signatures of one key", role)
		}
		seen[id] = true
		over, ok := d.sigs[id]
		if !ok {
			return nil, a.fail("stray-signature", "%q has a signature of a key that did not sign it, or was cleared", role)
		}
		if sg, _ := x["sig"].(string); strings.HasPrefix(over, placed) {
			if placed+sg != over {
				return nil, a.fail("placed-signature", "another signer's entry %s of %q is written as %q", over, role, sg)
			}
			continue
		}
		k := a.keyOf(id)
		pk, err := ref.ParsePub(k.Type, k.Public)
		if err != nil {
			panic(err)
		}
		sg, _ := x["sig"].(string)
		a.c.Count("signatures checked independently")
		if !pk.Verify([]byte(over), hexBytes(sg)) {
			return nil, a.fail("signature:"+k.Kind, "the signature of %q by a %s key is not over the content signed", role, k.Kind)
		}
	}
	if len(seen) != len(d.sigs) {
		return nil, a.fail("lost-signature", "%q has %d signatures, %d were made", role, len(seen), len(d.sigs))
	}
	return raw, true
}

func (a *author) keyOf(id string) *ref.Key {
	for _, au := range a.auths {
		for _, k := range au.all {
			if k.ID() == id {
				return k
			}
		}
	}
	return nil
}

// jsonDiff names the first difference of two documents.
func jsonDiff(want, got any, at string) string {
	w, ok1 := want.(J)
	g, ok2 := got.(J)
	if ok1 && ok2 {
		for _, k := range ref.SortedKeys(w) {
			if _, ok := g[k]; !ok {
				return at + "/" + k + " is missing"
			}
			if s := jsonDiff(w[k], g[k], at+"/"+k); s != "" {
				return s
			}
		}
		for _, k := range ref.SortedKeys(g) {
			if _, ok := w[k]; !ok {
				return at + "/" + k + " was not authored"
			}
		}
		return ""
	}
	if !bytes.Equal(ref.Canon(want), ref.Canon(got)) {
		return fmt.Sprintf("%s is %s, authored %s", at, ref.Canon(got), ref.Canon(want))
	}
	return ""
}

// signAll signs a document with enough of its keys, or with too few.
func (a *author) signAll(role string, au []*auth, few bool) bool {
	r := a.p.Rng
	resign := chance(r, 0.3) // over the old signatures
	if !resign {
		a.clear(role)
	} else {
		a.c.Count("documents signed again over old signatures")
	}
	for _, x := range au {
		ks := append([]*ref.Key{}, x.keys...)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		n := x.thr + r.Intn(len(ks)-x.thr+1)
		if few {
			n = x.thr - 1
		}
		for _, k := range ks[:n] {
			if !a.sign(role, k) {
				return false
			}
			if chance(r, 0.1) && !a.sign(role, k) { // once more
				return false
			}
		}
	}
	if chance(r, 0.15) { // a key that has nothing to say here
		o := pick(r, a.auths["timestamp"].all)
		if !a.sign(role, o) {
			return false
		}
	}
	return true
}

// level makes every role's threshold reachable.
func (a *author) level() bool {
	r := a.p.Rng
	for _, role := range append(append([]string{}, topRoles...), a.order...) {
		au := a.auths[role]
		if au == nil {
			continue
		}
		if len(au.keys) == 0 {
			if !a.addAny(role, pick(r, au.all)) {
				return false
			}
		}
		if au.thr > len(au.keys) {
			a.setThreshold(role, 1+r.Intn(len(au.keys)))
		}
	}
	return true
}

// addAny adds a key to a role or to the hash bins.
func (a *author) addAny(role string, k *ref.Key) bool {
	if role != "bins" {
		return a.addKey(role, k)
	}
	del := a.parent["bins"]
	t := a.repo.Targets(del)
	mk, err := a.libKey(k)
	if err == nil {
		err = t.Signed.AddKey(mk, t.Signed.Delegations.SuccinctRoles.GetRoles()[0])
	}
	if err != nil {
		return a.fail("add-key:bins", "adding a key to hash bins fails: %v", err)
	}
	au := a.auths["bins"]
	for _, o := range au.keys {
		if o.ID() == k.ID() {
			return true
		}
	}
	au.keys = append(au.keys, k)
	a.syncKeys(del)
	return true
}

func (a *author) revokeAny(role string, k *ref.Key) bool {
	if role != "bins" {
		return a.revokeKey(role, k)
	}
	del := a.parent["bins"]
	t := a.repo.Targets(del)
	if err := t.Signed.RevokeKey(k.ID(), t.Signed.Delegations.SuccinctRoles.GetRoles()[0]); err != nil {
		return a.fail("revoke-key:bins", "revoking a key of hash bins fails: %v", err)
	}
	au := a.auths["bins"]
	var l []*ref.Key
	for _, o := range au.keys {
		if o.ID() != k.ID() {
			l = append(l, o)
		}
	}
	au.keys = l
	a.syncKeys(del)
	return true
}

// edit takes one authoring step.
func (a *author) edit() bool {
	r := a.p.Rng
	switch r.Intn(13) {
	case 12:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if role != "bins" {
			a.annotate(role)
		}
	case 11:
		if chance(a.p.Rng, 0.5) {
			return a.place()
		}
		return a.signFaulty()
	case 0, 1, 2:
		return a.addTarget()
	case 3:
		a.dropTarget()
	case 4:
		if len(a.order) < 14 {
			return a.delegate()
		}
	case 5, 6:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if au := a.auths[role]; au != nil {
			return a.addAny(role, pick(r, au.all))
		}
	case 7:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if au := a.auths[role]; au != nil && len(au.keys) > 0 {
			return a.revokeAny(role, pick(r, au.keys))
		}
	case 8:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if au := a.auths[role]; au != nil && len(au.keys) > 0 {
			a.setThreshold(role, 1+r.Intn(len(au.keys)))
		}
	case 9:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if role != "bins" {
			a.setExpiry(role, a.expiry())
		}
	case 10:
		role := pick(r, append(append([]string{}, topRoles...), a.order...))
		if role != "bins" {
			return a.reload(role)
		}
	}
	return true
}

// spoil makes a signed document lag behind; the name says how.
func (a *author) spoil(role string) (string, bool) {
	r := a.p.Rng
	switch r.Intn(4) {
	case 0:
		a.setExpiry(role, a.docs[role].exp.Add(time.Duration(1+r.Intn(5000))*time.Second))
		return "expiry changed after signing", true
	case 1:
		a.clear(role)
		return "signatures cleared", true
	case 2:
		if a.docs[role].typ == "targets" {
			for p := range a.docs[role].want["targets"].(J) {
				delete(a.repo.Targets(role).Signed.Targets, p)
				delete(a.docs[role].want["targets"].(J), p)
				delete(a.homes, p)
				delete(a.data, p)
				return "target removed after signing", true
			}
		}
		a.setVersion(role, a.version(role)+1)
		return "version raised after signing", true
	default:
		return "too few signatures", a.signTooFew(role)
	}
}

func (a *author) signTooFew(role string) bool {
	a.clear(role)
	au := a.authOf(role)
	for _, k := range au.keys[:au.thr-1] {
		if !a.sign(role, k) {
			return false
		}
	}
	return true
}

func (a *author) version(role string) int64 {
	n, _ := a.docs[role].want["version"].(json.Number).Int64()
	return n
}

func (a *author) fileName(role string) string {
	cons := a.docs["root"].want["consistent_snapshot"].(bool)
	n := url.PathEscape(role) + ".json"
	if role == "root" || (cons && role != "timestamp") {
		n = fmt.Sprintf("%d.%s", a.version(role), n)
	}
	return n
}

// publish signs and writes everything that changed; spoiled names the role
// whose signatures are to lag, if any.
func (a *author) publish(spoiled string) (string, bool) {
	r := a.p.Rng
	if !a.level() {
		return "", false
	}
	how := ""
	put := func(role string, au []*auth) bool {
		if !a.signAll(role, au, false) {
			return false
		}
		if chance(r, 0.2) && !a.reload(role) {
			return false
		}
		if role == spoiled {
			h, ok := a.spoil(role)
			if !ok {
				return false
			}
			how = h
			if chance(r, 0.3) && !a.reload(role) {
				return false
			}
		}
		return true
	}
	// the root
	rd := a.docs["root"]
	if rd.pub == "" || rd.canon() != rd.pub || spoiled == "root" {
		if rd.pub != "" {
			a.setVersion("root", int64(len(a.roots))+1)
		}
		by := []*auth{a.auths["root"]}
		if a.rootOld != nil {
			by = append(by, a.rootOld)
		}
		if !put("root", by) {
			return how, false
		}
		raw, ok := a.write("root")
		if !ok {
			return how, false
		}
		a.files[fmt.Sprintf("%d.root.json", len(a.roots)+1)] = raw
		ok = a.auths["root"].valid(rd) >= a.auths["root"].thr && a.version("root") == int64(len(a.roots))+1
		if a.rootOld != nil {
			ok = ok && a.rootOld.valid(rd) >= a.rootOld.thr
		}
		if ok {
			a.roots = append(a.roots, raw)
			a.rootOld = a.auths["root"].clone()
			rd.pub = rd.canon()
		} else if spoiled != "root" {
			return how, a.fail("root-signatures", "the signatures made for root do not add up")
		}
	}
	// targets roles
	changed := false
	for _, role := range a.order {
		d := a.docs[role]
		if d == nil { // the name of the hash bins
			continue
		}
		if d.pub != "" && d.canon() == d.pub && role != spoiled && !chance(r, 0.05) {
			// not touched, but the keys may have changed
			if a.authOf(role).valid(d) >= a.authOf(role).thr {
				continue
			}
		}
		changed = true
		a.setVersion(role, a.rev[role]+1)
		if !put(role, []*auth{a.authOf(role)}) {
			return how, false
		}
		raw, ok := a.write(role)
		if !ok {
			return how, false
		}
		a.rev[role] = a.version(role)
		a.files[a.fileName(role)] = raw
		a.files["latest:"+role] = raw
		d.pub = d.canon()
		if role == spoiled {
			d.pub = "spoiled"
		}
		a.entry(a.repo.Snapshot().Signed.Meta, a.docs["snapshot"].want["meta"].(J), role+".json", a.rev[role], raw)
	}
	_ = changed
	// consistent snapshots may have been switched: every file under its name
	for _, role := range a.order {
		if a.docs[role] != nil {
			a.files[a.fileName(role)] = a.files["latest:"+role]
		}
	}
	for _, role := range []string{"snapshot", "timestamp"} {
		a.setVersion(role, a.rev[role]+1)
		if !put(role, []*auth{a.auths[role]}) {
			return how, false
		}
		raw, ok := a.write(role)
		if !ok {
			return how, false
		}
		a.rev[role] = a.version(role)
		a.files[a.fileName(role)] = raw
		if role == "snapshot" {
			a.entry(a.repo.Timestamp().Signed.Meta, a.docs["timestamp"].want["meta"].(J), "snapshot.json", a.rev[role], raw)
		}
	}
	return how, true
}

func (a *author) describe(m *metadata.MetaFiles, e J, raw []byte) {
	r := a.p.Rng
	if chance(r, 0.4) {
		m.Length = int64(len(raw))
		e["length"] = json.Number(fmt.Sprint(len(raw)))
	}
	if chance(r, 0.4) {
		h := sha256.Sum256(raw)
		m.Hashes["sha256"] = h[:]
		e["hashes"] = J{"sha256": hex.EncodeToString(h[:])}
	}
}

// verify asks the library who signed well, and compares with the model.
func (a *author) verify(what string) bool {
	for _, role := range append(append([]string{}, topRoles...), a.order[1:]...) {
		d := a.docs[role]
		if d == nil {
			continue
		}
		au := a.authOf(role)
		ok := au.valid(d) >= au.thr
		var err error
		if del := a.delegator(role); del == "root" {
			err = a.repo.Root().VerifyDelegate(role, a.meta(role))
		} else {
			err = a.repo.Targets(del).VerifyDelegate(role, a.meta(role))
		}
		a.c.Eval()
		a.c.Count(fmt.Sprintf("verdicts compared (%s)", map[bool]string{true: "signed", false: "lagging"}[ok]))
		if (err == nil) != ok {
			return a.fail(fmt.Sprintf("verdict:%v:%s", ok, d.typ), "%s: %q has %d valid signatures of %d required, verification says: %v", what, role, au.valid(d), au.thr, err)
		}
		if err != nil && len(au.keys) > 0 && !errors.Is(err, metadata.ErrUnsignedMetadata{}) {
			return a.fail("verdict-kind", "%s: %q with too few signatures refused with %v", what, role, err)
		}
	}
	return true
}

// client opens a client and compares it with the model of one; proper says
// that everything must work.
func (a *author) client(what, dir string, root []byte, proper bool) bool {
	c := a.c
	mu, tu := "https://author.test/m/", "https://author.test/t/"
	st := &State{Files: map[string][]byte{}, TFiles: map[string][]byte{}}
	for n, b := range a.files {
		st.Files[n] = b
	}
	for p, b := range a.data {
		st.TFiles[p] = b
		for _, h := range []string{ref.Sha256Hex(b), ref.Sha512Hex(b)} {
			i := len(p)
			for i > 0 && p[i-1] != '/' {
				i--
			}
			st.TFiles[p[:i]+h+"."+p[i:]] = b
		}
	}
	f := serve(mu, tu, st, nil)
	srv := &memSrv{f: f}
	cfg, err := config.New(mu, root)
	if err != nil {
		return a.fail("config", "%s: %v", what, err)
	}
	cfg.Fetcher, cfg.RemoteTargetsURL = srv, tu
	cfg.LocalMetadataDir, cfg.LocalTargetsDir = filepath.Join(dir, "m"), filepath.Join(dir, "t")
	s, _ := ref.NewSession(ref.Cfg{MaxRoot: 32, MaxDeleg: 32, RootMax: 512000, TimestampMax: 16384, SnapMax: 2000000, TargMax: 5000000,
		Prefix: true, MetaURL: mu, TargetsURL: tu}, root, readDir(cfg.LocalMetadataDir), f, time.Now().UTC())
	u, err := updater.New(cfg)
	if err != nil {
		return a.fail("client", "%s: a client refuses the authored root: %v", what, err)
	}
	err = u.Refresh()
	res := s.Refresh()
	c.Eval()
	c.Logf("%s: refresh %v, expected %v", what, err, res)
	if proper && err != nil {
		return a.fail("refresh", "%s: a client refuses a fully signed publication: %v", what, err)
	}
	if proper != res.OK() && proper {
		return a.fail("reference", "%s: the reference client refuses a fully signed publication: %v", what, res)
	}
	if (err == nil) != res.OK() {
		return a.fail("refresh-lagging", "%s: refresh says %v, expected %v", what, err, res)
	}
	if err != nil {
		c.Count("lagging publications refused at refresh")
		a.refused++
		return true
	}
	tm := u.GetTrustedMetadataSet()
	if s := trustedMatches(&tm, s.T); s != "" {
		return a.fail("trusted", "%s: %s", what, s)
	}
	for _, path := range ref.SortedKeys(a.homes) {
		tf, err := u.GetTargetInfo(path)
		res := s.Lookup(path)
		c.Eval()
		c.Count("authored targets looked up")
		if proper && (err != nil || !res.OK()) {
			return a.fail("lookup", "%s: %q of role %q is not found: %v (reference: %v)", what, path, a.homes[path], err, res)
		}
		if (err == nil) != res.OK() {
			return a.fail("lookup-lagging", "%s: lookup of %q of role %q says %v, expected %v", what, path, a.homes[path], err, res)
		}
		if err != nil {
			c.Count("lookups refused for lagging signatures")
			a.refused++
			continue
		}
		if d := diffTarget(tf, path, res.Target); d != "" {
			return a.fail("target-info", "%s: %q: %s", what, path, d)
		}
		_, got, err := u.DownloadTarget(tf, "", "")
		if err != nil || !bytes.Equal(got, a.data[path]) {
			return a.fail("download", "%s: %q cannot be downloaded as described: %v", what, path, err)
		}
		c.Count("authored targets downloaded")
	}
	return true
}

func authorCase(c *Case) {
	r := c.Rng
	a := &author{c: c, p: &Repo{Rng: r, Now: time.Now().UTC(), tag: fmt.Sprint("au-", c.Idx)}, docs: map[string]*amDoc{}, auths: map[string]*auth{},
		notes: map[string]J{}, parent: map[string]string{}, deleg: map[string]*amDeleg{}, data: map[string][]byte{}, homes: map[string]string{}, files: map[string][]byte{}, rev: map[string]int64{}}
	if !a.start() {
		return
	}
	if chance(r, 0.3) {
		a.repo.Root().Signed.ConsistentSnapshot = false
		a.docs["root"].want["consistent_snapshot"] = false
	}
	if !a.pristine("after creating others") {
		return
	}
	old := filepath.Join(c.Dir(), "old")
	hist := ""
	for n := 2 + r.Intn(4); n > 0; n-- {
		for k := r.Intn(12); k > 0; k-- {
			if !a.edit() {
				return
			}
		}
		if !a.verify("while editing") {
			return
		}
		spoiled := ""
		if chance(r, 0.4) {
			spoiled = pick(r, append(append([]string{}, topRoles...), a.order...))
			if spoiled == "bins" || (spoiled == "root" && len(a.roots) == 0) {
				spoiled = ""
			}
		}
		how, ok := a.publish(spoiled)
		if !ok {
			return
		}
		what := fmt.Sprintf("publication %d (%s: %s)", n, spoiled, how)
		hist += fmt.Sprintf("%s:%s ", a.kind(spoiled), how)
		if !a.verify(what) {
			return
		}
		proper := spoiled == ""
		if proper {
			c.Count("proper publications")
		} else {
			c.Count("lagging publications")
		}
		if len(a.roots) == 0 {
			continue
		}
		if !a.client(what, filepath.Join(c.Dir(), fmt.Sprint("new", n)), pick(r, a.roots), proper) {
			return
		}
		if !a.client(what+", old client", old, a.roots[0], proper) {
			return
		}
		// the files of a refused root do not stay
		if spoiled == "root" {
			delete(a.files, fmt.Sprintf("%d.root.json", len(a.roots)+1))
		}
		if !a.pristine("after publishing others") {
			return
		}
		c.Distinct("author", hist, len(a.roots), len(a.order), a.bits)
	}
	if a.refused > 0 {
		c.Count("histories with a lagging publication refused")
	}
	c.Sample(map[string]any{"publications": hist, "roots": len(a.roots), "roles": len(a.order), "bits": a.bits, "targets": len(a.homes)})
}

func (a *author) kind(role string) string {
	if a.docs[role] == nil {
		return "-"
	}
	if _, ok := a.parent[role]; ok {
		return "delegated"
	}
	return role
}

func init() {
	registry["C27"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "histories of authoring a repository with the library's own operations, published two to five times with root rotations and, in some, one document whose signatures lag; content and signatures as written, verdicts, and fresh and old clients are compared with a model of what was authored; non-trivial cases are distinct histories",
		F: func(r *Run) {
			r.Cases("author", r.N(700, 12000), authorCase)
			r.Need("proper publications", 500)
			r.Need("histories with a lagging publication refused", 200)
			r.Need("verdicts compared (lagging)", 500)
			r.Need("authored targets downloaded", 1000)
			r.Need("documents signed again over old signatures", 500)
		}}
}
